#include "vd.h"
#include "cantera/base/Array.h"
#include "cantera/numerics/DenseMatrix.h"
#include "cantera/numerics/BandMatrix.h"
#include "cantera/base/ctexceptions.h"
using namespace Cantera; using namespace vd; using std::vector;
typedef vector<vector<double>> M;
static double R() { return coin(0.1) ? 0 : U(-3, 3); }
static M mk(size_t n, size_t m) { M a(n, vector<double>(m)); for (auto& r : a) for (auto& v : r) v = R(); return a; }
template <class A> static void same(const char* cl, const A& x, const M& a, size_t n, size_t m, const char* what) {
    bool ok = x.nRows() == n && x.nColumns() == m; if (!check(cl, ok, what)) return;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) if (!check(cl, x(i, j) == a[i][j], str(what, "element", i, j, "got", x(i, j), "expected", a[i][j]))) return;
}
template <class A> static void fillA(A& x, const M& a) { size_t n = a.size(), m = n ? a[0].size() : 0; for (size_t q = 0; q < n * m; q++) { x(q % n, q / n) = a[q % n][q / n]; } }
int main() {
    for (int it = 0; it < reps(1500); it++) {
        size_t n = N(1, 6), m = N(1, 6); M a = mk(n, m); ctx() = str("n", n, "m", m, "it", it);
        guard("Array2D", [&] {
            double v = R(); Array2D z(n, m, v); same("Array2D_fill", z, M(n, vector<double>(m, v)), n, m, "fill");
            Array2D x(n, m); fillA(x, a); same("Array2D_rw", x, a, n, m, "read back");
            size_t i = N(0, n - 1), j = N(0, m - 1); double w = R(); M b = a; b[i][j] = w; { Array2D y(x); if (coin()) y(i, j) = w; else y.value(i, j) = w; same("Array2D_one_write", y, b, n, m, "write"); same("Array2D_copy", x, a, n, m, "copy independent"); }
            { Array2D y(2, 3, 1.); y = x; same("Array2D_assign", y, a, n, m, "assign"); y.zero(); same("Array2D_zero", y, M(n, vector<double>(m, 0.)), n, m, "zero"); same("Array2D_assign", x, a, n, m, "source"); x = *&x; same("Array2D_assign", x, a, n, m, "self"); }
            { vector<double> r(m + 1, 99), c(n + 1, 99); x.getRow(i, r.data()); x.getColumn(j, c.data()); for (size_t k = 0; k < m; k++) eq("getRow", r[k], a[i][k], 0); for (size_t k = 0; k < n; k++) eq("getColumn", c[k], a[k][j], 0); check("getRow", r[m] == 99 && c[n] == 99, "wrote past the end"); }
            { Array2D y(x); M e = a; vector<double> r(m); for (auto& q : r) q = R(); y.setRow(i, r.data()); e[i] = r; same("setRow", y, e, n, m, "setRow"); vector<double> c(n); for (auto& q : c) q = R(); y.setColumn(j, c.data()); for (size_t k = 0; k < n; k++) e[k][j] = c[k]; same("setColumn", y, e, n, m, "setColumn"); }
            { Array2D y(x); vector<double> c(n); for (auto& q : c) q = R(); y.m_data.reserve(400); if (coin()) y.appendColumn(c); else y.appendColumn(c.data()); M e = a; for (size_t k = 0; k < n; k++) e[k].push_back(c[k]); same("appendColumn", y, e, n, m + 1, "appendColumn"); }
            { Array2D y(x); Cantera::operator*=(y, 2.5); M e = a; for (auto& r : e) for (auto& q : r) q *= 2.5; same("scale", y, e, n, m, "*="); }
            { size_t m2 = N(1, 7); double f = R(); Array2D y(x); y.resize(n, m2, f); M e(n, vector<double>(m2, f)); for (size_t p = 0; p < n; p++) for (size_t q = 0; q < std::min(m, m2); q++) e[p][q] = a[p][q]; same("resize", y, e, n, m2, "resize"); check("resize", y.m_data.size() == n * m2); }
            vector<double> cm(n * m); for (size_t q = 0; q < n * m; q++) cm[q] = a[q % n][q / n]; Array2D y(n, m, cm.data()); same("Array2D_from_values", y, a, n, m, "values"); check("ptrColumn", y.ptrColumn(j)[i] == a[i][j]);
        });
        guard("DenseMatrix", [&] {
            DenseMatrix x(n, m); fillA(x, a); same("Dense_rw", x, a, n, m, "rw");
            vector<double> b(m), p(n + 1, 77), c(n), q(m + 1, 77); for (auto& t : b) t = R(); for (auto& t : c) t = R();
            x.mult(b.data(), p.data()); for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < m; j++) s += a[i][j] * b[j]; eq("Dense_mult", p[i], s, 1e-12, 1e-13); } check("Dense_mult", p[n] == 77, "overrun");
            x.leftMult(c.data(), q.data()); for (size_t j = 0; j < m; j++) { double s = 0; for (size_t i = 0; i < n; i++) s += a[i][j] * c[i]; eq("Dense_leftMult", q[j], s, 1e-12, 1e-13); } check("Dense_leftMult", q[m] == 77, "overrun");
            auto p0 = p; increment(x, b.data(), p.data()); for (size_t i = 0; i < n; i++) eq("increment", p[i], 2 * p0[i], 1e-12, 1e-13); multiply(x, b.data(), p.data()); for (size_t i = 0; i < n; i++) eq("multiply", p[i], p0[i], 1e-12, 1e-13);
            size_t k = N(1, 5); M bb = mk(m, k); DenseMatrix B(m, k), P(n, k, 5.); fillA(B, bb); x.mult(B, P); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < k; j++) { double s = 0; for (size_t l = 0; l < m; l++) s += a[i][l] * bb[l][j]; eq("Dense_matmat", P(i, j), s, 1e-12, 1e-13); }
            must_throw("Dense_dims", [&] { DenseMatrix Q(m + 1, k), S(n, k); x.mult(Q, S); }); must_throw("Dense_dims", [&] { DenseMatrix S(n + 1, k); x.mult(B, S); }); must_throw("Dense_dims", [&] { DenseMatrix S(n, k + 1); x.mult(B, S); });
            { DenseMatrix y(x), w(3, 2, 1.); w = x; same("Dense_copy", y, a, n, m, "copy"); same("Dense_copy", w, a, n, m, "assign"); size_t j = N(0, m - 1); check("Dense_colPts", y.colPts()[j] == &y(0, j) && w.colPts()[j] == &w(0, j) && x.const_colPts()[j] == x.ptrColumn(j), "column pointers"); y(0, j) += 1; check("Dense_copy", x(0, j) == a[0][j], "copy shares storage"); size_t m2 = N(1, 8); w.resize(n, m2, 4.); for (size_t c2 = 0; c2 < m2; c2++) check("Dense_colPts", w.colPts()[c2] == &w(0, c2), "after resize"); }
            // solve / invert
            M s = mk(n, n); for (size_t i = 0; i < n; i++) s[i][i] += 4; DenseMatrix A(n, n); fillA(A, s); DenseMatrix A2(A), A3(A); size_t nr = N(1, 3); M rhs = mk(n, nr); DenseMatrix X(n, nr); fillA(X, rhs); solve(A, X);
            for (size_t j = 0; j < nr; j++) for (size_t i = 0; i < n; i++) { double t = 0; for (size_t l = 0; l < n; l++) t += s[i][l] * X(l, j); eq("solve", t, rhs[i][j], 1e-7, 1e-8); }
            size_t ldb = n + N(0, 3); vector<double> xb(ldb * nr, 3.25); for (size_t j = 0; j < nr; j++) for (size_t i = 0; i < n; i++) xb[ldb * j + i] = rhs[i][j]; solve(A3, xb.data(), nr, ldb); for (size_t j = 0; j < nr; j++) for (size_t i = 0; i < ldb; i++) eq("solve_ldb", xb[ldb * j + i], i < n ? X(i, j) : 3.25, 1e-7, 1e-9);
            invert(A2); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double t = 0; for (size_t l = 0; l < n; l++) t += s[i][l] * A2(l, j); eq("invert", t, i == j ? 1 : 0, 1e-7, 1e-8); }
            if (n != m) must_throw("solve_nonsquare", [&] { vector<double> t(10); DenseMatrix q2(x); solve(q2, t.data()); });
            DenseMatrix S0(n, n, 0.0); must_throw("solve_singular", [&] { vector<double> t(n, 1.); solve(S0, t.data()); });
        });
        guard("BandMatrix", [&] {
            size_t kl = N(0, n - 1), ku = N(0, n - 1); ctx() = str("n", n, "kl", kl, "ku", ku, "it", it); auto in = [&](size_t i, size_t j) { return j <= i + ku && i <= j + kl; };
            double v = R(); BandMatrix x(n, kl, ku, v); M b(n, vector<double>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) b[i][j] = in(i, j) ? v : 0;
            const BandMatrix& cx = x; same("Band_fill", cx, b, n, n, "fill");
            auto all = [&](const char* cl, const char* w) { same(cl, cx, b, n, n, w); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (in(i, j)) check(cl, x._value(i, j) == b[i][j] && x.ptrColumn(j)[kl + ku + i - j] == b[i][j], str(w, "slot", i, j)); };
            for (int q = 0; q < 12; q++) { size_t i = N(0, n - 1), j = N(0, n - 1); double w = R(); if (coin()) x(i, j) = w; else x.value(i, j) = w; if (in(i, j)) b[i][j] = w; else eq("Band_zero_outside", coin() ? x(i, j) : x.value(i, j), 0, 0, 0, str("element", i, j, "outside the band read after an assignment outside the band")); }
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (in(i, j)) x(i, j) = b[i][j] = R() + (i == j ? 6 : 0);
            all("Band_rw", "rw"); check("Band_dims", x.nRows() == n && x.nColumns() == n && x.nSubDiagonals() == kl && x.nSuperDiagonals() == ku && x.ldim() == 2 * kl + ku + 1 && x.data.size() == n * x.ldim());
            vector<double> f(n), p(n + 1, 7), q(n + 1, 7); for (auto& t : f) t = R(); x.mult(f.data(), p.data()); x.leftMult(f.data(), q.data());
            double on = 0; size_t minr = 0, minc = 0; double vr = 1e300, vc = 1e300;
            for (size_t i = 0; i < n; i++) { double s = 0, s2 = 0, ab = 0, mr = 0, mc = 0; for (size_t j = 0; j < n; j++) { s += b[i][j] * f[j]; s2 += b[j][i] * f[j]; ab += std::fabs(b[j][i]); mr = std::max(mr, std::fabs(b[i][j])); mc = std::max(mc, std::fabs(b[j][i])); } eq("Band_mult", p[i], s, 1e-12, 1e-12); eq("Band_leftMult", q[i], s2, 1e-12, 1e-12); on = std::max(on, ab); if (mr < vr) { vr = mr; minr = i; } if (mc < vc) { vc = mc; minc = i; } }
            check("Band_mult", p[n] == 7 && q[n] == 7, "overrun"); eq("Band_oneNorm", x.oneNorm(), on, 1e-12); double vs; eq("Band_checkRows", x.checkRows(vs), minr, 0); eq("Band_checkRows", vs, vr, 0); eq("Band_checkColumns", x.checkColumns(vs), minc, 0); eq("Band_checkColumns", vs, vc, 0);
            BandMatrix y(x), z; z = x; check("Band_copy", y.nSubDiagonals() == kl && z.nSuperDiagonals() == ku); same("Band_copy", (const BandMatrix&)y, b, n, n, "copy"); same("Band_copy", (const BandMatrix&)z, b, n, n, "assign"); check("Band_copy", y.ptrColumn(n - 1) == y.data.data() + (n - 1) * y.ldim() && z.colPts()[0] == z.data.data(), "column pointers");
            vector<double> sol(n); x.solve(f.data(), sol.data()); auto resid = [&](const char* cl) { for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < n; j++) s += b[i][j] * sol[j]; if (!eq(cl, s, f[i], 1e-7, 1e-8)) return; } };
            bool dom = true; for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < n; j++) if (j != i) s += std::fabs(b[i][j]); if (std::fabs(b[i][i]) < 0.2 + 0.5 * s) dom = false; }
            if (dom) resid("Band_solve"); check("Band_factored", x.factored());
            // changing an element makes the next solve use the changed matrix
            size_t i = N(0, n - 1); x(i, i) = b[i][i] = b[i][i] + 5; check("Band_factored", !x.factored(), "write keeps the old factorization"); x.solve(f.data(), sol.data()); if (dom) resid("Band_solve_after_write"); all("Band_rw", "after solve");
            same("Band_copy", (const BandMatrix&)y, [&] { M t = b; t[i][i] -= 5; t[i][i] = y._value(i, i); return t; }(), n, n, "copy independent"); check("Band_copy", y._value(i, i) != x._value(i, i), "copy shares storage");
            { BandMatrix w(x); w.factor(); vector<double> s1(f), s2(n); w.solve(s1.data()); BandMatrix w2(w); w2.solve(f.data(), s2.data()); veq("Band_copy_factored", s2, s1, 1e-12); }
            x.bfill(1.5); for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) b[r][c] = in(r, c) ? 1.5 : 0; all("Band_fill", "bfill"); check("Band_factored", !x.factored()); x.zero(); for (auto& r : b) for (auto& c : r) c = 0; all("Band_fill", "zero");
            n = N(1, 7); kl = N(0, n - 1); ku = N(0, n - 1); x.resize(n, kl, ku, 2.); b.assign(n, vector<double>(n)); for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) b[r][c] = in(r, c) ? 2 : 0; all("Band_resize", "resize");
        });
    }
    return done();
}
