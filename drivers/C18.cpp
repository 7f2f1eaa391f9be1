#include "vd.h"
#include "cantera/base/ctexceptions.h"
#include "cantera/base/global.h"
#include "cantera/numerics/Func1.h"
#include "clib/Cabinet.h"
#include <set>
using namespace Cantera; using namespace vd; using std::vector; using std::shared_ptr; using std::make_shared;
struct Base { virtual ~Base() { dead = true; live--; } bool dead = false; int id = 0; static int live; }; int Base::live = 0;
struct Derived : Base {}; struct Other : Base {};
template <> Cabinet<Base>* Cabinet<Base>::s_storage = nullptr; template <> Cabinet<Func1>* Cabinet<Func1>::s_storage;
static void mk(shared_ptr<Base>& p) { if (coin()) p = make_shared<Derived>(); else p = make_shared<Other>(); }
static void mk(shared_ptr<Func1>& p) { if (coin()) p = make_shared<Sin1>(U()); else p = make_shared<Exp1>(U()); }
template <class M, class D> void run(int it) {
    typedef Cabinet<M> C; vector<shared_ptr<M>> obj; vector<int> par; vector<bool> alive; vector<shared_ptr<M>> pool; string hist;
    C::reset(); ctx() = str("sequence", it);
    auto see = [&] {
        ctx() = str("sequence", it) + hist; check("size", C::size() == int(obj.size()), str(C::size(), obj.size()));
        for (size_t h = 0; h < obj.size(); h++) {
            if (!alive[h]) { must_throw("deleted_handle_rejected", [&] { C::at(h); }); must_throw("deleted_handle_rejected", [&] { C::template as<D>(h); }); }
            else { check("handle_names_its_object", C::at(h) == obj[h], str(h)); auto d = std::dynamic_pointer_cast<D>(obj[h]); if (d) check("cast", C::template as<D>(h) == d); else must_throw("wrong_type_rejected", [&] { C::template as<D>(h); }); }
            check("parent", C::parent(h) == par[h]); }
        for (int h : {-1, -2, -int(obj.size()), int(obj.size()), int(obj.size()) + 1, 1 << 30}) if (h < 0 || h >= int(obj.size())) { must_throw("out_of_range_rejected", [&] { C::at(h); }); must_throw("out_of_range_rejected", [&] { C::parent(h); }); must_throw("out_of_range_rejected", [&] { C::template as<D>(h); }); must_throw("out_of_range_rejected", [&] { C::del(h); }); }
        for (auto& p : pool) { std::set<int> ps{-1}; for (size_t h = 0; h < obj.size(); h++) ps.insert(par[h]); for (int q : ps) { int want = -1; bool any = false; for (size_t h = 0; h < obj.size(); h++) if (alive[h] && obj[h] == p) { any = true; if (par[h] == q) want = h; } if (any && want < 0) want = -2; check("reverse_lookup", C::index(*p, q) == want, str(C::index(*p, q), want, "parent", q)); } }
    };
    int n = N(1, 25); for (int s = 0; s < n; s++) {
        int op = N(0, 19);
        guard("no_unexpected_exception", [&] {
            if (op < 10 || obj.empty()) { shared_ptr<M> p; if (pool.size() && coin(0.35)) p = pool[N(0, pool.size() - 1)]; else { mk(p); pool.push_back(p); } int q = coin(0.6) ? -1 : N(0, 3); int h = q == -1 ? C::add(p) : C::add(p, q); hist += str(" add", h); check("handles_are_never_reused", h == int(obj.size()), str(h, obj.size())); obj.push_back(p); par.push_back(q); alive.push_back(true); }
            else if (op < 17) { int h = N(0, obj.size() - 1); hist += str(" del", h); if (alive[h]) { C::del(h); alive[h] = false; } else must_throw("deleted_handle_rejected", [&] { C::del(h); }); }
            else if (op == 17) { hist += " clear"; C::clear(); for (size_t h = 0; h < alive.size(); h++) alive[h] = false; }
            else if (op == 18 && coin(0.3)) { hist += " reset"; C::reset(); obj.clear(); par.clear(); alive.clear(); }
            else { long k = 0; size_t h = N(0, obj.size() - 1); for (size_t i = 0; i < obj.size(); i++) k += alive[i] && obj[i] == obj[h]; long held = 0; for (auto& o : obj) held += o == obj[h]; for (auto& p : pool) held += p == obj[h]; check("storage_shares_ownership", obj[h].use_count() == held + k, str(obj[h].use_count(), held, k)); }
        });
        guard("no_unexpected_exception", see);
    }
    C::reset();
}
int main() { for (int it = 0; it < reps(700); it++) { run<Base, Derived>(it); run<Func1, Sin1>(it); } return done(); }
