#include "vd.h"
#include "cantera/numerics/Func1.h"
#include "cantera/numerics/Func1Factory.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef long double ld;
typedef shared_ptr<Func1> F;
struct Val { ld v, d, m, e; };        // value, derivative, magnitude bounds of the terms summed in either
typedef std::function<Val(ld)> Ev;
struct Node { F f; Ev e; string s; bool dok; };
static double cst() { switch (N(0, 9)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 2; case 4: return -2; case 5: return 0.5; default: return U(-3, 3); } }
static double expo() { switch (N(0, 9)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 2; case 4: return 3; case 5: return 0.5; case 6: return -2; case 7: return -0.5; case 8: return 4; default: return U(-2, 3); } }
static ld A(ld x) { return std::fabs(x); }
static Val lim(Val v) { if (!(v.m < 1e60) || !(v.e < 1e60) || (v.v != 0 && A(v.v) < 1e-60) || (v.d != 0 && A(v.d) < 1e-60)) return {NAN, NAN, NAN, NAN}; return v; }   // outside the range double arithmetic can follow
static Node wrap(Node n) { Ev e = n.e; n.e = [e](ld t) -> Val { if (!std::isfinite(t)) return {NAN, NAN, NAN, NAN}; return lim(e(t)); }; return n; }
static Node leaf0(bool); static Node other0(); static Node build0(int, bool);
static Node leaf(bool x) { return wrap(leaf0(x)); }
static Node other() { return wrap(other0()); }
static Node build(int d, bool x) { return wrap(build0(d, x)); }
static Node leaf0(bool logany) {
    switch (N(0, 9)) {
    case 0: { double c = cst(); return {newFunc1("sin", c), [=](ld t) -> Val { return {sinl(c * t), c * cosl(c * t), 1 + A(c * t), A(c) * (1 + A(c * t))}; }, str("sin", c), true}; }
    case 1: { double c = cst(); return {newFunc1("cos", c), [=](ld t) -> Val { return {cosl(c * t), -c * sinl(c * t), 1 + A(c * t), A(c) * (1 + A(c * t))}; }, str("cos", c), true}; }
    case 2: case 3: { double c = cst(); return {newFunc1("exp", c), [=](ld t) -> Val { ld x = expl(c * t); return {x, c * x, x * (1 + A(c * t)), A(c * x) * (1 + A(c * t))}; }, str("exp", c), true}; }
    case 4: { double c = logany ? cst() : 1; if (c == 0) c = 1; return {newFunc1("log", c), [=](ld t) -> Val { return {logl(c * t), c * t > 0 ? 1 / t : NAN, 1 + A(logl(c * t)), A(1 / t)}; }, str("log", c), c == 1}; }
    case 5: case 6: case 7: { double c = expo(); return {newFunc1("pow", c), [=](ld t) -> Val { ld x = powl(t, c), d = c == 0 ? 0 : c * powl(t, c - 1); return {x, d, A(x), A(d)}; }, str("pow", c), true}; }
    default: { double c = cst(); return {newFunc1("constant", c), [=](ld t) -> Val { return {c, 0, A(c), 0}; }, str("const", c), true}; }
    }
}
static Node other0() {
    switch (N(0, 4)) {
    case 0: { vector<double> p; int n = N(1, 6); for (int i = 0; i < n; i++) p.push_back(cst());
        return {newFunc1("polynomial3", p), [=](ld t) -> Val { ld s = 0, m = 0, d = 0; for (size_t i = 0; i < p.size(); i++) { ld q = p[i] * powl(t, (int)(p.size() - 1 - i)); s += q; m += A(q); } return {s, d, m, 0}; }, "poly " + vec(p), false}; }
    case 1: { int n = N(1, 4); vector<double> p; for (int i = 0; i < 2 * n + 2; i++) p.push_back(cst());
        return {newFunc1("Fourier", p), [=](ld t) -> Val { ld s = p[0] / 2, m = A(s), w = p[n + 1]; for (int k = 1; k <= n; k++) { s += p[k] * cosl(w * k * t) + p[n + 1 + k] * sinl(w * k * t); m += (A(p[k]) + A(p[n + 1 + k])) * (1 + A(w * k * t)); } return {s, 0, m, 0}; }, "fourier " + vec(p), false}; }
    case 2: { vector<double> p{cst(), cst(), LU(0.1, 10)}; return {newFunc1("Gaussian", p), [=](ld t) -> Val { ld q = (t - p[1]) / p[2]; ld v = p[0] * powl(2, -4 * q * q); return {v, 0, A(v) * (1 + 4 * q * q), 0}; }, "gauss " + vec(p), false}; }
    case 3: { int n = N(1, 3); vector<double> p; for (int i = 0; i < n; i++) { p.push_back(cst()); p.push_back(expo()); p.push_back(U(-3, 3)); }
        return {newFunc1("Arrhenius", p), [=](ld t) -> Val { ld s = 0, m = 0; for (int i = 0; i < n; i++) { ld q = p[3 * i] * powl(t, p[3 * i + 1]) * expl(-p[3 * i + 2] / t); s += q; m += A(q) * (1 + A(p[3 * i + 2] / t)); } return {s, 0, m, 0}; }, "arrh " + vec(p), false}; }
    default: { F b; Ev e; double T = LU(0.3, 4); Node x = leaf(false); return {newFunc1("periodic", x.f, T), [=](ld t) -> Val { ld k = floorl(t / T), q = t - k * T; if (q < 1e-6 || q > T - 1e-6) return {NAN, NAN, 0, 0}; Val v = x.e(q); v.m += (A(v.d) + 1) * (1 + A(t)); return v; }, str("periodic", T, x.s), false}; }
    }
}
static Node build0(int depth, bool logany) {
    if (depth == 0 || coin(0.15)) return coin(0.85) ? leaf(logany) : other();
    int op = N(0, 7); bool raw = coin(0.35);
    Node a = build(depth - 1, logany); if (op == 5) { double c = cst(); return {raw ? newFunc1("times-constant", a.f, c) : newTimesConstFunction(a.f, c), [=](ld t) -> Val { Val v = a.e(t); return {v.v * c, v.d * c, v.m * A(c), v.e * A(c)}; }, str("times", raw, c, "(", a.s, ")"), a.dok}; }
    if (op == 6) { double c = cst(); return {raw ? newFunc1("plus-constant", a.f, c) : newPlusConstFunction(a.f, c), [=](ld t) -> Val { Val v = a.e(t); return {v.v + c, v.d, v.m + A(c), v.e}; }, str("plus", raw, c, "(", a.s, ")"), a.dok}; }
    Node b = coin(0.25) ? a : build(depth - 1, logany);
    string s = str(raw, "(", a.s, ",", b.s, ")"); bool ok = a.dok && b.dok;
    switch (op) {
    case 0: return {raw ? newFunc1("sum", a.f, b.f) : newSumFunction(a.f, b.f), [=](ld t) -> Val { Val p = a.e(t), q = b.e(t); return {p.v + q.v, p.d + q.d, p.m + q.m, p.e + q.e}; }, "sum" + s, ok};
    case 1: return {raw ? newFunc1("diff", a.f, b.f) : newDiffFunction(a.f, b.f), [=](ld t) -> Val { Val p = a.e(t), q = b.e(t); return {p.v - q.v, p.d - q.d, p.m + q.m, p.e + q.e}; }, "diff" + s, ok};
    case 2: case 7: return {raw ? newFunc1("product", a.f, b.f) : newProdFunction(a.f, b.f), [=](ld t) -> Val { Val p = a.e(t), q = b.e(t); return {p.v * q.v, p.d * q.v + p.v * q.d, p.m * q.m, p.e * q.m + p.m * q.e}; }, "prod" + s, ok};
    case 3: { F f; try { f = raw ? newFunc1("ratio", a.f, b.f) : newRatioFunction(a.f, b.f); } catch (CanteraError&) { check("ratio_rejects_only_a_zero_divisor", b.f->type() == "constant" && b.f->c() == 0, s); return a; }
        return {f, [=](ld t) -> Val { Val p = a.e(t), q = b.e(t); ld k = q.m / A(q.v); if (q.v == 0 || !(k < 1e6)) return {NAN, NAN, 0, 0}; return {p.v / q.v, (p.d * q.v - p.v * q.d) / (q.v * q.v), p.m / A(q.v) * k, (p.e + p.m * q.e / A(q.v)) / A(q.v) * k * k}; }, "ratio" + s, ok}; }
    default: return {raw ? newFunc1("composite", a.f, b.f) : newCompositeFunction(a.f, b.f), [=](ld t) -> Val { Val q = b.e(t); if (!(q.m < 1e3 * (A(q.v) + 1e-2))) return {NAN, NAN, 0, 0}; Val p = a.e(q.v); ld h = 1e-7 * (q.m + 1e-3); Val p1 = a.e(q.v + h), p2 = a.e(q.v - h);
            if (!std::isfinite(p1.v) || !std::isfinite(p2.v) || !std::isfinite(p1.d) || !std::isfinite(p2.d)) return {NAN, NAN, 0, 0};
            ld sv = A(p1.v - p.v) + A(p2.v - p.v), sd = A(p1.d - p.d) + A(p2.d - p.d);      // sensitivity of the outer function to an error of 1e-7 in its argument
            return {p.v, p.d * q.d, p.m + p1.m + sv * 1e7L, (p.e + p1.e) * q.e + sd * 1e7L * A(q.d)}; }, "comp" + s, ok};
    }
}
static bool same(const char* cl, const Node& n, double t) {
    Val w = n.e(t); if (!std::isfinite((double)w.v) || !std::isfinite((double)w.m) || w.m > 1e30) return true;
    double g = n.f->eval(t); ctx() = str(n.s, "at", t);
    return eq(cl, g, (double)w.v, 1e-10, (double)(1e-11L * w.m), ""); }
int main() {
    suppress_warnings();
    for (int it = 0; it < reps(20000); it++) {
        ctx() = "";
        guard("compose", [&] {
            Node n = coin(0.1) ? other() : build(N(0, 4), coin());
            double ts[6]; for (double& t : ts) { t = coin(0.6) ? LU(0.05, 5) : U(-4, 4); same("value", n, t); }
            if (n.dok) { F d; ctx() = n.s; bool ok = true;
                try { d = n.f->derivative(); } catch (CanteraError& e) { ok = string(e.what()).find("vanish") == string::npos && false; if (string(e.what()).find("ivision by zero") == string::npos && string(e.what()).find("ivide by zero") == string::npos) check("derivative_exists", false, e.what()); }
                if (ok && d) for (double t : ts) { Val w = n.e(t); if (!std::isfinite((double)w.d) || !std::isfinite((double)w.v) || !std::isfinite((double)w.e) || w.e > 1e30 || w.m > 1e30) continue;
                    double g = d->eval(t); if (!std::isfinite(g)) { // removable singularities of the differentiated expression (0 * infinity) are not judged
                        continue; }
                    ctx() = str(n.s, "at", t); eq("derivative", g, (double)w.d, 1e-9, (double)(1e-10L * (w.e + w.m * 1e-3L))); } }
            else { }
            // identical or proportional functions are what they claim to be
            Node m = coin(0.3) ? n : build(N(0, 2), true); ctx() = n.s + " / " + m.s;
            if (n.f->isIdentical(m.f)) for (double t : ts) { double a = n.f->eval(t), b = m.f->eval(t); check("identical_functions_agree", a == b || (std::isnan(a) && std::isnan(b)), str(t, a, b)); }
        });
    }
    for (int it = 0; it < reps(3000); it++) {
        ctx() = "";
        guard("periodic", [&] { double T = LU(0.1, 5); Node x = leaf(true); F p = newFunc1("periodic", x.f, T); double q = U(0.001, 0.999) * T; int k = N(-20, 20); ctx() = str("period", T, x.s, "q", q, "k", k); double w = x.f->eval(q); if (!std::isfinite(w) || std::fabs(w) > 1e6) return; Val v = x.e(q); eq("periodic_extension", p->eval(q + k * T), w, 1e-9, (double)(1e-13 * (1 + A(v.d) * (std::fabs(k * T) + 1)) + 1e-12)); });
        guard("tabulated", [&] { int n = N(2, 9); vector<double> p, tt, ff; double t = U(-5, 5); for (int i = 0; i < n; i++) { tt.push_back(t); t += LU(0.01, 3); ff.push_back(cst()); } p = tt; p.insert(p.end(), ff.begin(), ff.end());
            bool lin = coin(); F f = newFunc1(lin ? "tabulated-linear" : "tabulated-previous", p), d = f->derivative(); ctx() = str(lin, vec(p, 20));
            for (int j = 0; j < 12; j++) { double x = coin(0.3) ? tt[N(0, n - 1)] : U(tt[0] - 1, tt[n - 1] + 1); int i = -1; while (i + 1 < n && tt[i + 1] <= x) i++; bool knot = i >= 0 && tt[i] == x;
                double w = i < 0 ? ff[0] : i >= n - 1 ? ff[n - 1] : lin ? ff[i] + (ff[i + 1] - ff[i]) / (tt[i + 1] - tt[i]) * (x - tt[i]) : ff[i];
                if (lin || !knot) eq("tabulated_value", f->eval(x), w, 1e-10, 1e-10, str(x));
                if (!knot) eq("tabulated_derivative", d->eval(x), (i < 0 || i >= n - 1 || !lin) ? 0. : (ff[i + 1] - ff[i]) / (tt[i + 1] - tt[i]), 1e-10, 0, str(x)); }
            int k = N(1, n - 1); p[k] = p[k - 1] - 0.5; must_throw("decreasing_times_rejected", [&] { newFunc1("tabulated-linear", p); }); });
        guard("log", [&] { double a = LU(0.2, 5), t = LU(0.1, 10); double g = newFunc1("log", a)->derivative()->eval(t); ctx() = str("log(", a, "t) at", t);
            if (close(g, a / t, 1e-12) && !close(g, 1 / t, 1e-12)) check("log_derivative_factor_of_argument", false, "gives c/t, not 1/t"); else eq("log_derivative", g, 1 / t, 1e-12); });
        guard("sizes", [&] { ctx() = ""; string nm[] = {"sin", "cos", "exp", "log", "pow", "constant"}; vector<double> v(N(0, 1) ? 0 : N(2, 4), 1.); string s = nm[N(0, 5)]; must_throw("wrong_parameter_count", [&] { newFunc1(s, v); }, s);
            must_throw("wrong_parameter_count", [&] { newFunc1("Gaussian", vector<double>(coin() ? 2 : 4, 1.)); }); must_throw("wrong_parameter_count", [&] { newFunc1("polynomial3", vector<double>()); }); must_throw("wrong_parameter_count", [&] { newFunc1("Arrhenius", vector<double>(N(0, 1) ? 2 : 4, 1.)); }); must_throw("wrong_parameter_count", [&] { newFunc1("Fourier", vector<double>(N(0, 1) ? 2 : 5, 1.)); }); });
    }
    return done();
}
