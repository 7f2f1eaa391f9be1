"""C13: two-dimensional array, dense and banded matrix storage"""
from engine.spec import *
TUS = ["src/base/Array.cpp", "src/numerics/DenseMatrix.cpp", "src/numerics/BandMatrix.cpp"]
DRIVER = "C13.cpp"
BOUND = "random matrices up to 7x7, all bandwidths, random sequences of writes, resizes, copies"
A2 = "Cantera::Array2D::"; DM = "Cantera::DenseMatrix::"; BM = "Cantera::BandMatrix::"
ASSUME = ["LAPACK/BLAS (dgemv, dgetrf, dgetrs, dgetri, dgbtrf, dgbtrs, dgbcon) trusted", "column pointer tables (colPtrs) covered by the bounded driver only", "Array2D::setRow, BandMatrix::oneNorm/checkRows/checkColumns: bounded driver only"]
n, m = Is("this.m_nrows"), Is("this.m_ncols"); D = As("this.m_data.[]")
wf = {"this.m_data.#len": mul(n, m)}
i, j = Is("i"), Is("j"); inb = [lt(i, n), lt(j, m)]
el = lambda A, a, b, rows=n: at(A, add(mul(rows, b), a))
p, q = Is("p"), Is("q")

def dgemv(ex, this, a, nd):
    """trusted contract of BLAS dgemv (column major): y := alpha op(A) x + beta y, unit strides, no transpose"""
    V_ = [ex.load(v, t) for v, t in a]
    mm, nn, al, Aa, lda, x, ix, be, y, iy = V_[2:]
    if not (isnum(ix) and isnum(iy)) or val(ix) != 1 or val(iy) != 1: return NotImplemented
    rdp = lambda P, k: ex.rd(P.loc.el(add(P.off, k)), sort="R")
    path = y.loc.path + ("[]",); old = ex.rdarr(path, "R"); b = freshbv(); rel = sub(b, y.off); k = freshbv()
    body = add(mul(al, Sum(k, IZERO, nn, mul(rdp(Aa, add(rel, mul(lda, k))), rdp(x, k)))), mul(be, sel(old, (b,))))
    ex.st.mem[path] = lam((b,), ite(and_(le(IZERO, rel), lt(rel, mm)), body, sel(old, (b,))))
    return None

def v_array(V):
    r = V.fn(A2 + "value", sub="const", mem=wf, args=lambda ex, fd: [(i, "unsigned long"), (j, "unsigned long")])
    r.ensures("reads_column_major", eq(r.result, el(D, i, j))); r.frame([])
    r = V.fn(A2 + "operator()", sub="const", mem=wf, args=lambda ex, fd: [(i, "unsigned long"), (j, "unsigned long")])
    r.ensures("reads_column_major", eq(r.result, el(D, i, j)))
    # distinct (i,j) never share a storage slot, all slots inside the buffer
    V.lemma("slots_in_buffer", inb, and_(le(IZERO, add(mul(n, j), i)), lt(add(mul(n, j), i), mul(n, m))))
    V.lemma("columns_ordered", inb + [lt(p, n), lt(j, q)], lt(add(mul(n, j), i), add(mul(n, q), p)))      # slots of different columns never coincide
    V.lemma("rows_distinct", inb + [lt(p, n), ne(i, p)], ne(add(mul(n, j), i), add(mul(n, j), p)))
    a0, a1 = Is("arg0"), Is("arg1"); a2 = Rs("arg2")
    r = V.fn(A2 + "Array2D", sub="const double)")
    r.ensures("shape_and_fill", and_(eq(r.post("this.m_nrows", "I"), a0), eq(r.post("this.m_ncols", "I"), a1), eq(r.post("this.m_data.#len", "I"), mul(a0, a1)), forall(mul(a0, a1), lambda k: eq(r.postat("this.m_data.[]", k), a2))))
    r = V.fn(A2 + "Array2D", sub="const double *)")
    r.ensures("shape_and_values", and_(eq(r.post("this.m_nrows", "I"), a0), eq(r.post("this.m_ncols", "I"), a1), eq(r.post("this.m_data.#len", "I"), mul(a0, a1)), forall(mul(a0, a1), lambda k: eq(r.postat("this.m_data.[]", k), at(As("arg2.[]"), k)))))
    on, om, OD = Is("arg0.m_nrows"), Is("arg0.m_ncols"), As("arg0.m_data.[]")
    for f, sb in (("Array2D", "const Cantera::Array2D &"), ("operator=", None)):
        r = V.fn(A2 + f, sub=sb, mem={"arg0.m_data.#len": mul(on, om)}, requires=[ne(sym("addr:arg0()", "O"), sym("addr:this()", "O"))] if 0 else [])
        def same(c, d): return and_(eq(r.post("this.m_nrows", "I"), c[0]), eq(r.post("this.m_ncols", "I"), c[1]), eq(r.post("this.m_data.#len", "I"), mul(c[0], c[1])), implies(and_(lt(IZERO, d), lt(d, mul(c[0], c[1]))), eq(r.postat("this.m_data.[]", d), at(c[2], d))))
        k = Is("k")
        if f == "Array2D": r.ensures("copy", same((on, om, OD), k))
        else:
            dis = [c for c in [x for x in subterms(r.post("this.m_nrows", "I")) if x.op == "eq"]]
            r.ensures("copy", same((on, om, OD), k), [not_(c) for c in dis])
    v = Rs("arg2")
    r = V.fn(A2 + "resize", mem=wf)
    r.ensures("shape", and_(eq(r.post("this.m_nrows", "I"), a0), eq(r.post("this.m_ncols", "I"), a1), eq(r.post("this.m_data.#len", "I"), mul(a0, a1))))
    k = Is("k")
    r.ensures("new_entries_filled", eq(r.postat("this.m_data.[]", k), v), [le(mul(n, m), k), lt(k, mul(a0, a1))])
    r.ensures("old_storage_kept", eq(r.postat("this.m_data.[]", k), at(D, k)), [lt(k, mul(n, m)), lt(k, mul(a0, a1))])
    r = V.fn(A2 + "zero", mem=wf)
    r.ensures("all_zero", and_(eq(r.postat("this.m_data.[]", k), ZERO), eq(r.post("this.m_data.#len", "I"), mul(n, m))), [lt(k, mul(n, m))]); r.frame(["this.m_data"])
    r = V.fn("Cantera::operator*=", mem={"arg0.m_data.#len": mul(Is("arg0.m_nrows"), Is("arg0.m_ncols"))})
    r.ensures("scaled", eq(r.postat("arg0.m_data.[]", k), mul(at(OD, k), Rs("arg1"))), [lt(k, mul(on, om))]); r.frame(["arg0.m_data.[]"], roots=("arg0",))

def v_rows_columns(V):
    a0 = Is("arg0")
    r = V.fn(A2 + "getRow", mem=wf, requires=[lt(a0, n)])
    r.ensures("value", forall(m, lambda c: eq(r.postat("arg1.[]", c), el(D, a0, c)))); r.frame([])
    r.ensures("writes_ncols_entries", eq(r.postat("arg1.[]", j), at(As("arg1.[]"), j)), [le(m, j)])
    r = V.fn(A2 + "getColumn", mem=wf, requires=[lt(a0, m)])
    r.ensures("value", forall(n, lambda c: eq(r.postat("arg1.[]", c), el(D, c, a0)))); r.frame([])
    r.ensures("writes_nrows_entries", eq(r.postat("arg1.[]", i), at(As("arg1.[]"), i)), [le(n, i)])
    r = V.fn(A2 + "setColumn", mem=wf, requires=[lt(a0, m)])
    r.ensures("column_set", eq(el(r.post("this.m_data.[]"), i, a0), at(As("arg1.[]"), i)), [lt(i, n)])
    r.ensures("other_columns_kept", eq(el(r.post("this.m_data.[]"), i, j), el(D, i, j)), inb + [or_(le(add(j, IONE), a0), le(add(a0, IONE), j)), or_(le(add(mul(n, j), n), mul(n, a0)), le(add(mul(n, a0), n), mul(n, j)))])
    V.lemma("columns_disjoint", [lt(j, q)], le(add(mul(n, j), n), mul(n, q)))
    r.frame(["this.m_data.[]"])
    # appended column: becomes the last column, the others are kept
    for sb, src in (("std::vector", As("arg0.[]")), ("const double *", As("arg0.[]"))):
        r = V.fn(A2 + "appendColumn", sub=sb, mem=wf)
        st = r.post("this.m_data.[]")
        r.ensures("shape", and_(eq(r.post("this.m_ncols", "I"), add(m, IONE)), eq(r.post("this.m_nrows", "I"), n), eq(r.post("this.m_data.#len", "I"), mul(n, add(m, IONE)))))
        r.ensures("last_column_is_the_argument", eq(el(st, i, m), at(src, i)), [lt(i, n)])
        r.ensures("other_columns_kept", eq(at(st, k0), at(D, k0)), [lt(k0, mul(n, m))])
k0 = Is("k0")

def v_dense(V):
    con = {"Cantera::ct_dgemv": dgemv}
    b = As("arg0.[]")
    r = V.fn(DM + "mult", sub="const double *", mem=wf, contracts=con, this="Cantera::DenseMatrix")
    r.ensures("value", forall(n, lambda a: eq(r.postat("arg1.[]", a), summ(m, lambda c: mul(el(D, a, c), at(b, c))))))
    r.ensures("writes_nrows_entries", eq(r.postat("arg1.[]", i), at(As("arg1.[]"), i)), [le(n, i)]); r.frame([])
    r = V.fn(DM + "leftMult", mem=wf, this="Cantera::DenseMatrix")
    r.ensures("value", forall(m, lambda c: eq(r.postat("arg1.[]", c), summ(n, lambda a: mul(el(D, a, c), at(b, a)))))); r.frame([])
    r = V.fn(DM + "mult", sub="const Cantera::DenseMatrix &,", contracts={DM + "mult": lambda ex, this, a, nd: None}, this="Cantera::DenseMatrix")
    r.throws_iff("rejects_dimension_mismatch_only", or_(ne(m, Is("arg0.m_nrows")), ne(n, Is("arg1.m_nrows")), ne(Is("arg0.m_ncols"), Is("arg1.m_ncols"))))
    AD, an, am = As("arg0.m_data.[]"), Is("arg0.m_nrows"), Is("arg0.m_ncols"); wa = {"arg0.m_data.#len": mul(an, am)}
    r = V.fn("Cantera::increment", mem=wa, contracts=con)
    r.ensures("value", forall(an, lambda a: eq(r.postat("arg2.[]", a), add(at(As("arg2.[]"), a), summ(am, lambda c: mul(el(AD, a, c, an), at(As("arg1.[]"), c)))))))
    r = V.fn("Cantera::multiply", mem=wa, contracts=con, this=None, dyn={("arg0",): "Cantera::DenseMatrix"})
    r.ensures("value", forall(an, lambda a: eq(r.postat("arg2.[]", a), summ(am, lambda c: mul(el(AD, a, c, an), at(As("arg1.[]"), c))))))
    r = V.fn(DM + "resize", mem=wf, this="Cantera::DenseMatrix"); k = Is("k")
    r.ensures("shape", and_(eq(r.post("this.m_nrows", "I"), Is("arg0")), eq(r.post("this.m_ncols", "I"), Is("arg1")), eq(r.post("this.m_data.#len", "I"), mul(Is("arg0"), Is("arg1"))), eq(r.post("this.m_colPts.#len", "I"), Is("arg1")), le(Is("arg0"), r.post("this.m_ipiv.#len", "I"))))
    r.ensures("new_entries_filled", eq(r.postat("this.m_data.[]", k), Rs("arg2")), [le(mul(n, m), k), lt(k, mul(Is("arg0"), Is("arg1")))])
    # solve(A, b): square systems only; the factorization and the solution share the matrix and the pivots
    log = []
    r = V.fn("Cantera::solve", sub="double *", mem=wa, opaque=("Cantera::ct_dgetrf", "Cantera::ct_dgetrs"))
    r.throws_if("rejects_non_square", ne(an, am))

N_, KL, KU = Is("this.m_n"), Is("this.m_kl"), Is("this.m_ku"); BD = As("this.data.[]")
ld = add(mul(I(2), KL), KU, IONE)
bmem = {"this.data.#len": mul(N_, ld), "this.ludata.#len": mul(N_, ld)}
slot = lambda a, b: add(mul(add(mul(I(2), KL), KU), b), KL, KU, a)
inband = lambda a, b: and_(le(b, add(a, KU)), le(a, add(b, KL)))
elem = lambda a, b: ite(inband(a, b), at(BD, slot(a, b)), ZERO)

def v_band(V):
    kw = dict(mem=bmem, this="Cantera::BandMatrix"); ar = dict(args=lambda ex, fd: [(i, "unsigned long"), (j, "unsigned long")])
    inn = [lt(i, N_), lt(j, N_)]
    for f in ("value", "operator()"):
        r = V.fn(BM + f, sub="const", requires=inn, **kw, **ar)
        r.ensures("band_or_zero", eq(r.result, elem(i, j))); r.frame([])
        r = V.fn(BM + f, sub="long)", requires=inn, name="BandMatrix::%s_nonconst" % f, **kw, **ar)
        r.ensures("band_or_zero", eq(r.result, elem(i, j)))
        r.ensures("invalidates_factorization", eq(r.post("this.m_factored", "I"), IZERO)); r.frame(["this.m_factored", "this.m_zero"])
        lite = r.ret
        ok = isinstance(lite, xx.LIte) or isinstance(lite, Loc)
        def inslot(l):
            if isinstance(l, xx.LIte): return ite(l.c, inslot(l.a), inslot(l.b))
            if l.path == ("this", "data", "[]"): return eq(l.idx[0], slot(i, j))
            return FALSE
        r.ensures("writes_go_to_the_named_slot", implies(inband(i, j), inslot(lite)))
        def outslot(l):
            if isinstance(l, xx.LIte): return ite(l.c, outslot(l.a), outslot(l.b))
            return boolc(l.path != ("this", "data", "[]"))
        r.ensures("writes_outside_band_do_not_touch_storage", implies(not_(inband(i, j)), outslot(lite)))
    V.lemma("slots_in_buffer", inn + [inband(i, j)], and_(le(IZERO, slot(i, j)), lt(slot(i, j), mul(N_, ld))))
    # element (i,j) lies in storage column j (offset kl+ku+i-j < ld): no two elements of the band share a slot
    V.lemma("slot_is_in_its_column", inn + [inband(i, j)], and_(eq(slot(i, j), add(mul(ld, j), add(KL, KU, sub(i, j)))), le(KL, add(KL, KU, sub(i, j))), lt(add(KL, KU, sub(i, j)), ld)))
    r = V.fn(BM + "index", **kw, **ar); r.ensures("value", eq(r.result, slot(i, j)))
    r = V.fn(BM + "ldim", **kw); r.ensures("value", eq(r.result, ld))
    for f, x in (("nRows", N_), ("nColumns", N_), ("nSubDiagonals", KL), ("nSuperDiagonals", KU)):
        r = V.fn(BM + f, **kw); r.ensures("value", eq(r.result, x))

def v_band_products(V):
    kw = dict(mem=bmem, this="Cantera::BandMatrix"); b = As("arg0.[]")
    # the loop visits exactly the columns (rows) of the band: the in-band range is [max(0,i-kl), min(n,i+ku+1))
    r = V.fn(BM + "mult", **kw)
    lo = lambda a, k: ite(le(k, a), sub(a, k), IZERO); hi = lambda a, k: ite(lt(N_, add(a, k, IONE)), N_, add(a, k, IONE))
    r.ensures("value", eq(r.postat("arg1.[]", i), summ(hi(i, KU), lambda c: mul(at(BD, slot(i, c)), at(b, c)), lo=lo(i, KL))), [lt(i, N_)])
    V.lemma("row_range_is_the_band", [lt(i, N_), lt(j, N_)], eq(inband(i, j), and_(le(lo(i, KL), j), lt(j, hi(i, KU)))))
    r.ensures("writes_n_entries", eq(r.postat("arg1.[]", i), at(As("arg1.[]"), i)), [le(N_, i)]); r.frame([])
    r = V.fn(BM + "leftMult", **kw)
    r.ensures("value", eq(r.postat("arg1.[]", i), summ(hi(i, KL), lambda c: mul(at(BD, slot(c, i)), at(b, c)), lo=lo(i, KU))), [lt(i, N_)]); r.frame([])
    V.lemma("column_range_is_the_band", [lt(i, N_), lt(j, N_)], eq(inband(j, i), and_(le(lo(i, KU), j), lt(j, hi(i, KL)))))
    r.ensures("writes_n_entries", eq(r.postat("arg1.[]", i), at(As("arg1.[]"), i)), [le(N_, i)])

def v_band_shape(V):
    kw = dict(mem=bmem, this="Cantera::BandMatrix"); k = Is("k")
    a0, a1, a2, a3 = Is("arg0"), Is("arg1"), Is("arg2"), Rs("arg3"); L = mul(a0, add(mul(I(2), a1), a2, IONE))
    for f, sb in (("BandMatrix", "unsigned"), ("resize", None)):
        r = V.fn(BM + f, sub=sb, **({} if f == "BandMatrix" else kw))
        r.ensures("shape", and_(eq(r.post("this.m_n", "I"), a0), eq(r.post("this.m_kl", "I"), a1), eq(r.post("this.m_ku", "I"), a2), eq(r.post("this.data.#len", "I"), L), eq(r.post("this.ludata.#len", "I"), L),
                                eq(r.post("this.m_ipiv.*.data.#len", "I"), a0) if f == "resize" else TRUE, eq(r.post("this.m_colPtrs.#len", "I"), a0)))
        r.ensures("filled", eq(r.postat("this.data.[]", k), a3), [lt(k, L)])
        if f == "BandMatrix": r.ensures("zero_outside_band", eq(r.post("this.m_zero"), ZERO))
        r.ensures("not_factored", eq(r.post("this.m_factored", "I"), IZERO))
    for f, x in (("bfill", Rs("arg0")), ("zero", ZERO)):
        r = V.fn(BM + f, **kw)
        r.ensures("filled", eq(r.postat("this.data.[]", k), x), [lt(k, mul(N_, ld))]); r.ensures("not_factored", eq(r.post("this.m_factored", "I"), IZERO))
        r.frame(["this.data", "this.m_factored"])
    o = lambda x: Is("arg0." + x); om = {"arg0.data.#len": mul(o("m_n"), add(mul(I(2), o("m_kl")), o("m_ku"), IONE))}
    r = V.fn(BM + "BandMatrix", sub="const Cantera::BandMatrix", mem=om)
    r.ensures("copy", and_(*[eq(r.post("this." + x, "I"), o(x)) for x in ("m_n", "m_kl", "m_ku")], eq(r.post("this.data.#len", "I"), om["arg0.data.#len"]), eq(r.postat("this.data.[]", k), at(As("arg0.data.[]"), k)), eq(r.postat("this.ludata.[]", k), at(As("arg0.ludata.[]"), k)), eq(r.post("this.m_zero"), ZERO)))
