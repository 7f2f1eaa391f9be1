#include "vd.h"
#include "cantera/numerics/funcs.h"
#include "cantera/numerics/polyfit.h"
#include "cantera/base/utilities.h"
#include "cantera/base/ctexceptions.h"
using namespace Cantera; using namespace vd; using std::vector;
namespace Cantera { double basicSimpson(const Eigen::ArrayXd& f, const Eigen::ArrayXd& x); }
static vector<double> grid(size_t n) { vector<double> x(n); double a = U(-5, 5); for (auto& v : x) { v = a; a += coin(0.2) ? LU(1e-4, 1e2) : U(0.1, 1); } return x; }
static Eigen::ArrayXd E(const vector<double>& v) { Eigen::ArrayXd e(v.size()); for (size_t i = 0; i < v.size(); i++) e[i] = v[i]; return e; }
int main() {
    for (int it = 0; it < reps(3000); it++) {
        size_t n = N(1, 12); auto x = grid(n); vector<double> f(n); for (auto& v : f) v = coin(0.2) ? 0 : U(-3, 3);
        ctx() = str("n", n, "x", vec(x), "f", vec(f));
        guard("linearInterp", [&] {
            for (int q = 0; q < 6; q++) {
                double t = q == 0 ? x[0] - U() : q == 1 ? x.back() + U() : q == 2 ? x[N(0, n - 1)] : U(x[0] - 1, x.back() + 1);
                double want; if (t <= x[0]) want = f[0]; else if (t >= x.back()) want = f.back();
                else { size_t j = 0; while (!(x[j] <= t && t <= x[j + 1])) j++; want = f[j] + (t - x[j]) / (x[j + 1] - x[j]) * (f[j + 1] - f[j]); }
                eq("linearInterp", linearInterp(t, x, f), want, 1e-9, 1e-12, str("at", t));
            }
        });
        if (n >= 2) guard("trapezoidal", [&] {
            double s = 0; for (size_t i = 0; i + 1 < n; i++) s += 0.5 * (f[i] + f[i + 1]) * (x[i + 1] - x[i]);
            double sc = 0; for (size_t i = 0; i + 1 < n; i++) sc += 2 * (x[i + 1] - x[i]);
            eq("trapezoidal", trapezoidal(E(f), E(x)), s, 1e-9, 1e-12 * sc); eq("quadrature", numericalQuadrature("trapezoidal", E(f), E(x)), s, 1e-9, 1e-12 * sc);
            auto bad = x; size_t k = N(1, n - 1); bad[k] = coin() ? bad[k - 1] : bad[k - 1] - U();
            must_throw("grid_rejected", [&] { trapezoidal(E(f), E(bad)); }); must_throw("grid_rejected", [&] { simpson(E(f), E(bad)); });
            auto lf = f; if (coin()) lf.push_back(1); else lf.pop_back();
            must_throw("length_rejected", [&] { trapezoidal(E(lf), E(x)); }); must_throw("length_rejected", [&] { simpson(E(lf), E(x)); });
            must_throw("method_rejected", [&] { numericalQuadrature(coin() ? "Simpson" : "", E(f), E(x)); });
        });
        if (n >= 2) guard("simpson", [&] {
            double a = U(-2, 2), b = U(-2, 2), c = U(-2, 2); vector<double> y(n); for (size_t i = 0; i < n; i++) y[i] = a + b * x[i] + c * x[i] * x[i];
            auto F = [&](double t) { return a * t + b * t * t / 2 + c * t * t * t / 3; };
            size_t m = n % 2 ? n - 1 : n - 2;  // even point count: Simpson on the head, trapezoid on the last interval
            double want = F(x[m]) - F(x[0]); if (n % 2 == 0) want += 0.5 * (y[n - 1] + y[n - 2]) * (x[n - 1] - x[n - 2]);
            double sc = 0; for (size_t i = 0; i + 1 < n; i++) sc += (std::fabs(y[i]) + std::fabs(y[i + 1]) + 1) * (x[i + 1] - x[i]);
            double rat = 1; for (size_t i = 0; i + 2 < n; i++) { double h0 = x[i + 1] - x[i], h1 = x[i + 2] - x[i + 1]; rat = std::max({rat, h0 / h1, h1 / h0}); }
            eq("simpson_exact", simpson(E(y), E(x)), want, 1e-9, 1e-12 * sc * rat); eq("quadrature", numericalQuadrature("simpson", E(y), E(x)), want, 1e-9, 1e-12 * sc * rat);
            if (n % 2 == 0) must_throw("even_rejected", [&] { basicSimpson(E(y), E(x)); });
        });
        guard("poly", [&] {
            double c[9]; for (auto& v : c) v = coin(0.2) ? 0 : U(-2, 2); double t = U(-2, 2);
            auto P = [&](int d) { double s = 0, p = 1; for (int i = 0; i <= d; i++, p *= t) s += c[i] * p; return s; };
            eq("poly3", poly3(t, c), P(3), 1e-11, 1e-11); eq("poly4", poly4(t, c), P(4), 1e-11, 1e-11); eq("poly5", poly5(t, c), P(5), 1e-11, 1e-11); eq("poly6", poly6(t, c), P(6), 1e-11, 1e-11); eq("poly8", poly8(t, c), P(8), 1e-11, 1e-11);
            vector<double> u(7), w(7); for (auto& v : u) v = U(-1, 1); for (auto& v : w) v = U(-1, 1);
            auto D = [&](int k) { double s = 0; for (int i = 0; i < k; i++) s += u[i] * w[i]; return s; };
            eq("dot4", dot4(u, w), D(4), 1e-12, 1e-13); eq("dot5", dot5(u, w), D(5), 1e-12, 1e-13); eq("dot", dot(u.begin(), u.end(), w.begin()), D(7), 1e-12, 1e-13);
            vector<double> o(7); scale(u.begin(), u.end(), o.begin(), 3.5); for (int i = 0; i < 7; i++) eq("scale", o[i], 3.5 * u[i], 1e-15);
        });
        if (n >= 3) guard("polyfit", [&] {
            size_t deg = N(0, std::min<long>(4, n - 1)); vector<double> xs(n), y(n), p(deg + 1), c(deg + 1); for (auto& v : c) v = U(-1, 1);
            for (size_t i = 0; i < n; i++) { xs[i] = -1 + 2.0 * i / (n - 1); y[i] = 0; for (size_t k = deg + 1; k-- > 0;) y[i] = y[i] * xs[i] + c[k]; }
            vector<double> w(n); for (auto& v : w) v = U(0.5, 2);
            double rms = polyfit(n, deg, xs.data(), y.data(), coin() ? w.data() : nullptr, p.data());
            veq("polyfit_exact", p, c, 1e-7, 1e-9); eq("polyfit_rms", rms, 0, 0, 1e-9);
            must_throw("polyfit_rejects", [&] { vector<double> pp(n + 2); polyfit(n, n + N(0, 1), xs.data(), y.data(), nullptr, pp.data()); });
            // least squares: the residual is orthogonal to the polynomial space (weights are squares of the weight vector)
            for (auto& v : y) v = U(-1, 1); bool uw = coin(); double r2 = polyfit(n, deg, xs.data(), y.data(), uw ? w.data() : nullptr, p.data());
            double ss = 0; for (size_t k = 0; k <= deg; k++) { double s = 0; for (size_t i = 0; i < n; i++) { double e = 0; for (size_t q = deg + 1; q-- > 0;) e = e * xs[i] + p[q]; s += (uw ? w[i] : 1) * (e - y[i]) * std::pow(xs[i], k); } eq("polyfit_normal_equations", s, 0, 0, 1e-7); }
            for (size_t i = 0; i < n; i++) { double e = 0; for (size_t q = deg + 1; q-- > 0;) e = e * xs[i] + p[q]; ss += (uw ? w[i] : 1) * (e - y[i]) * (e - y[i]); }
            eq("polyfit_rms", r2, std::sqrt(ss / n), 1e-7, 1e-9);
        });
    }
    return done();
}
