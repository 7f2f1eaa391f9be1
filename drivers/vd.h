// common helpers of the replay / bounded drivers: the contract clauses evaluated on the real code
#pragma once
#include <random>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <functional>
#include <limits>
namespace vd {
inline std::mt19937_64& rng() { static std::mt19937_64 g(getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) * 7919 + 13 : 7919); return g; }
inline double U(double a = 0, double b = 1) { return std::uniform_real_distribution<double>(a, b)(rng()); }
inline long N(long a, long b) { return std::uniform_int_distribution<long>(a, b)(rng()); }
inline bool coin(double p = 0.5) { return U() < p; }
inline double LU(double a, double b) { return std::exp(U(std::log(a), std::log(b))); }
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
inline int reps(int q) { return thorough() ? 10 * q : q; }
inline std::vector<double>& hints() { static std::vector<double> h; static bool init = false; if (!init) { init = true; if (const char* s = getenv("VERIF_HINTS")) { std::istringstream is(s); double x; while (is >> x) h.push_back(x); } } return h; }
// a value from the literals of the code under test (or near one), else the fallback
inline double hint(double fallback, double lo, double hi, double p = 0.15) { auto& h = hints(); if (h.empty() || !coin(p)) return fallback; double x = h[N(0, h.size() - 1)]; int k = N(0, 2); x = k == 0 ? x : k == 1 ? x * (1 + 1e-3) : x * (1 - 1e-3); return (x >= lo && x <= hi) ? x : fallback; }
// the previous value again, or one only slightly different from it: what a cache keyed on the value must tell apart
inline double nearby(double prev, double fresh, double p = 0.35) { if (!(prev == prev) || !coin(p)) return fresh; return coin(0.3) ? prev : prev * (1 + (coin() ? 1 : -1) * std::pow(10., -U(1.5, 9))); }
inline std::map<std::string, long>& counts() { static std::map<std::string, long> c; return c; }
inline std::map<std::string, int>& failc() { static std::map<std::string, int> c; return c; }
inline long& cases() { static long c = 0; return c; }
inline void fail(const std::string& clause, const std::string& what) { if (failc()[clause]++ < 3) { printf("FAIL %s: %s\n", clause.c_str(), what.c_str()); fflush(stdout); } }
inline std::string& ctx() { static std::string s; return s; }
template <class... A> std::string str(const A&... a) { std::ostringstream o; o.precision(17); ((o << a << ' '), ...); return o.str(); }
inline std::string vec(const std::vector<double>& v, size_t mx = 12) { std::ostringstream o; o.precision(17); o << '['; for (size_t i = 0; i < v.size() && i < mx; i++) o << (i ? "," : "") << v[i]; if (v.size() > mx) o << ",..."; o << ']'; return o.str(); }
inline bool close(double a, double b, double rtol = 1e-9, double atol = 0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= rtol * std::max(std::fabs(a), std::fabs(b)) + atol;
}
inline bool check(const char* clause, bool ok, const std::string& what = "") { counts()[clause]++; if (!ok) fail(clause, ctx() + " " + what); return ok; }
inline bool eq(const char* clause, double got, double want, double rtol = 1e-9, double atol = 0, const std::string& what = "") {
    counts()[clause]++; if (close(got, want, rtol, atol)) return true;
    fail(clause, ctx() + " " + what + str(" got", got, "expected", want)); return false; }
inline bool veq(const char* clause, const std::vector<double>& g, const std::vector<double>& w, double rtol = 1e-9, double atol = 0, const std::string& what = "") {
    counts()[clause]++;
    if (g.size() != w.size()) { fail(clause, ctx() + " " + what + str(" sizes", g.size(), w.size())); return false; }
    double m = 0; for (double x : w) m = std::max(m, std::fabs(x));
    for (size_t i = 0; i < g.size(); i++) if (!close(g[i], w[i], rtol, atol)) { fail(clause, ctx() + " " + what + str(" entry", i, "got", g[i], "expected", w[i])); return false; }
    return true; }
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
template <class F> void must_throw(const char* clause, F f, const std::string& what = "") { check(clause, throws(f), what + " was not rejected"); }
template <class F> void guard(const char* clause, F f) { counts()[clause]++; try { f(); } catch (std::exception& e) { fail(clause, ctx() + " unexpected exception: " + [](std::string w) { for (char& c : w) if (c == 10) c = 32; return w; }(std::string(e.what()).substr(0, 400))); } }
inline int done() { long n = 0; for (auto& [k, v] : counts()) { printf("CLAUSE %s %ld\n", k.c_str(), v); n += v; } printf("CASES %ld\nDONE\n", n); return failc().empty() ? 0 : 3; }
inline void quiet() { }
}
