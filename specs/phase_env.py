"""Ghost view and class invariant of Cantera::Phase (array extents, molecular weights)."""
from engine.spec import *

class Env:
    def __init__(self, root="this"):
        r = root + "."
        self.K = Is(r + "m_kk"); self.M = Is(r + "m_mm")
        self.W = As(r + "m_molwts.[]"); self.RW = As(r + "m_rmolwts.[]")
        self.Y = As(r + "m_y.[]"); self.Ym = As(r + "m_ym.[]"); self.mmw = Rs(r + "m_mmw"); self.rho = Rs(r + "m_dens"); self.T = Rs(r + "m_temp")
        self.root = root
        self.mem = {r + v + ".#len": self.K for v in ("m_molwts", "m_rmolwts", "m_y", "m_ym", "m_speciesCharge", "m_speciesNames")}
        self.mem[r + "m_speciesComp.#len"] = mul(self.K, self.M)
        self.mem[r + "m_atomicWeights.#len"] = self.M
        self.mem[r + "m_elementNames.#len"] = self.M
        k = self.K
        # class invariant: every species weight positive, reciprocal weights stored consistently
        self.wpos = forall(k, lambda i: lt(ZERO, at(self.W, i)))
        self.rw = forall(k, lambda i: eq(at(self.RW, i), div(ONE, at(self.W, i))))
        self.base = [le(IONE, k), self.wpos, self.rw]
        # composition invariant: Y_k = ym_k W_k, sum Y = 1, 1/mmw = sum ym
        self.comp = [forall(k, lambda i: eq(at(self.Ym, i), div(at(self.Y, i), at(self.W, i)))),
                     eq(self.mmw, div(ONE, summ(k, lambda i: at(self.Ym, i)))), lt(ZERO, self.mmw), lt(ZERO, self.rho)]
        self.ynn = [forall(k, lambda i: le(ZERO, at(self.Y, i)))]
        self.norm = [eq(summ(k, lambda i: at(self.Y, i)), ONE)]
    def X(self, i): return mul(at(self.Ym, i), self.mmw)

def pos_part(x): return rmax(x, ZERO)
