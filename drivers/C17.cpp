#include "vd.h"
#include "cantera/oneD/MultiNewton.h"
#include "cantera/oneD/OneDim.h"
#include "cantera/oneD/Domain1D.h"
#include "cantera/numerics/SystemJacobian.h"
using namespace Cantera; using namespace vd; using std::vector;
struct Dom : public Domain1D {
    vector<double> a, c, k; int kind = 0;
    Dom(size_t nv, size_t np) : Domain1D(nv, np) { for (size_t i = 0; i < std::max<size_t>(1, nv * np); i++) { a.push_back(LU(0.1, 10)); c.push_back(U(-2, 2)); k.push_back(U(-0.2, 0.2)); } }
    string domainType() const override { return "test"; }
    void eval(size_t jg, double* xg, double* rg, integer* diagg, double rdt) override {
        if (m_nv == 0) return;
        double* x = xg + loc(); double* r = rg + loc(); integer* d = diagg + loc(); size_t n = m_nv * m_points;
        for (size_t i = 0; i < n; i++) { double f = kind == 0 ? x[i] * x[i] * x[i] + x[i] - c[i] : kind == 1 ? std::exp(x[i]) - 1 - c[i] : std::atan(5 * (x[i] - c[i])); r[i] = a[i] * f + (i ? k[i] * x[i - 1] : 0) - rdt * x[i]; d[i] = 1; }
    }
};
static double wnorm(OneDim& r, const vector<double>& x, const vector<double>& s) {
    long double sum = 0; size_t tot = 0;
    for (size_t d = 0; d < r.nDomains(); d++) { auto& D = r.domain(d); size_t nv = D.nComponents(), np = D.nPoints(), off = tot; tot += nv * np;
        for (size_t n = 0; n < nv; n++) { long double e = 0; for (size_t j = 0; j < np; j++) e += std::fabs(x[off + j * nv + n]);
            bool ss = D.m_rdt == 0; long double w = (ss ? D.steady_rtol(n) : D.transient_rtol(n)) * e / np + (ss ? D.steady_atol(n) : D.transient_atol(n));
            for (size_t j = 0; j < np; j++) { long double q = s[off + j * nv + n] / w; sum += q * q; } } }
    return (double)std::sqrt(sum / tot);
}
int main() {
    suppress_warnings();
    for (int it = 0; it < reps(2500); it++) {
        ctx() = "";
        guard("setup", [&] {
            vector<shared_ptr<Domain1D>> ds; int nd = N(1, 4);
            for (int d = 0; d < nd; d++) { size_t nv = (nd > 1 && (d == 0 || d == 2) && coin(0.15)) ? 0 : N(1, 5), np = N(1, 6); if (!nv) np = 1; ds.push_back(std::make_shared<Dom>(nv, np)); ((Dom&)*ds.back()).kind = N(0, 2); ds.back()->setID("d" + std::to_string(d)); }
            OneDim r(ds); size_t n = r.size(); if (!n) return; MultiNewton& M = r.newton();
            vector<double> x(n), s(n), lo(n), hi(n); bool ts = coin(0.4);
            for (size_t d = 0, off = 0; d < ds.size(); d++) { auto& D = r.domain(d); size_t nv = D.nComponents(), np = D.nPoints(); D.m_rdt = ts ? LU(1e-3, 1e6) : 0;
                for (size_t m = 0; m < nv; m++) { double l = coin(0.3) ? -1e-5 : U(-5, 1), h = l + LU(1e-6, 1e3); D.setBounds(m, l, h); D.setSteadyTolerances(LU(1e-6, 1e-2), LU(1e-12, 1e-3), m); D.setTransientTolerances(LU(1e-6, 1e-2), LU(1e-12, 1e-3), m);
                    for (size_t j = 0; j < np; j++) { size_t q = off + j * nv + m; lo[q] = l; hi[q] = h; x[q] = coin(0.2) ? (coin() ? l : h) : l + U() * (h - l); if (x[q] > h) x[q] = h; s[q] = coin(0.1) ? 0 : (coin() ? 1 : -1) * LU(1e-8, 1e4); } }
                off += nv * np; }
            if (coin(0.5)) for (auto& q : s) q *= LU(1e-8, 1e-3);
            if (coin(0.2)) { size_t q = N(0, n - 1); for (size_t i = 0; i < n; i++) if (i != q) s[i] = 0; }
            ctx() = str("domains", nd, "x", vec(x), "step", vec(s), "lower", vec(lo), "upper", vec(hi));
            double f = M.boundStep(x.data(), s.data(), r, 0);
            check("factor_in_unit_interval", f >= 0 && f <= 1, str("factor", f));
            for (double al : {f, 0.5 * f, f / std::sqrt(2.0)}) for (size_t i = 0; i < n; i++) { double y = x[i] + al * s[i], t = 1e-13 * (std::fabs(x[i]) + std::fabs(al * s[i]) + std::fabs(lo[i]) + std::fabs(hi[i])); check("within_bounds", y <= hi[i] + t && y >= lo[i] - t, str("factor", al, "entry", i, "value", y)); }
            bool free = true; for (size_t i = 0; i < n; i++) free = free && x[i] + s[i] <= hi[i] && x[i] + s[i] >= lo[i];
            if (free) check("undamped_when_unconstrained", f == 1.0, str("factor", f));
            eq("weighted_norm", M.norm2(x.data(), s.data(), r), wnorm(r, x, s), 1e-10);
            // damped step and full solve from inside the bounds: iterates stay within bounds
            if (it % 4 == 0) try {
                for (size_t d = 0; d < ds.size(); d++) r.domain(d).m_rdt = 0;
                r.evalJacobian(x.data()); vector<double> st(n), x1(n, -77), st1(n); double s1 = 1e30; vector<double> x0 = x; if (coin()) M.setOptions(5);
                bool ok = true; try { M.step(x.data(), st.data(), r, 0); } catch (CanteraError&) { ok = false; }
                if (ok) { ctx() = str("x", vec(x), "newton step", vec(st), "lower", vec(lo), "upper", vec(hi));
                    double fb = M.boundStep(x.data(), st.data(), r, 0), s0 = wnorm(r, x, st); int rc = M.dampStep(x.data(), st.data(), x1.data(), st1.data(), s1, r, 0, false);
                    check("damp_status", rc == 0 || rc == 1 || rc == -2 || rc == -3, str(rc)); check("damp_leaves_x", x == x0);
                    check("damp_fails_at_bound", (rc == -3) == (fb < 1e-10), str(rc, fb));
                    if (rc >= 0) { double al = 0, best = 1e-30; for (size_t i = 0; i < n; i++) { double q = std::fabs(x1[i] - x[i]); if (q > 1e-5 * (1e-300 + std::fabs(x[i])) && std::fabs(st[i]) > 0 && q > best) { best = q; al = (x1[i] - x[i]) / st[i]; } }
                        for (size_t i = 0; i < n; i++) { double t = 1e-12 * (std::fabs(x[i]) + std::fabs(st[i]) + std::fabs(lo[i]) + std::fabs(hi[i])); check("damped_within_bounds", x1[i] <= hi[i] + t && x1[i] >= lo[i] - t, str("entry", i, x1[i])); if (al) eq("damped_step", x1[i], x[i] + al * st[i], 1e-7, 1e-7 * std::fabs(st[i]) + 1e-9); }
                        if (al) check("factor_range", al > 0 && al <= fb * (1 + 1e-6), str(al, fb)); eq("s1_reported", s1, wnorm(r, x1, st1), 1e-9); check("acceptance", s1 < 1 || s1 < s0, str(s0, s1)); check("converged_flag", (rc == 1) == (s1 <= 1), str(rc, s1)); } }
                vector<double> y = x0, z(n, -77); int rc = -9; try { rc = r.solve(y.data(), z.data(), 0); } catch (CanteraError&) { return; }
                ctx() = str("solve status", rc, "x0", vec(x0), "x", vec(z), "lower", vec(lo), "upper", vec(hi));
                for (size_t i = 0; i < n; i++) { double t = 1e-12 * (std::fabs(lo[i]) + std::fabs(hi[i])) + 1e-12 * std::fabs(z[i]); check("solution_within_bounds", z[i] <= hi[i] + t && z[i] >= lo[i] - t, str("entry", i, z[i])); }
            } catch (CanteraError&) {}
        });
    }
    return done();
}
