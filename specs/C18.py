"""C18: handles of the C interface name the object they were issued for"""
from engine.spec import *
TUS = ["@cabinet.cpp"]
DRIVER = "C18.cpp"
BOUND = "random sequences of add, delete, clear, reset, lookup and casts on three object stores, with shared objects and parents"
CB = "Cantera::Cabinet<Cantera::Func1>::"
HINT_FNS = [CB + "at", CB + "del"]
ASSUME = ["the class template is verified for one object type (functions); its code does not depend on the type", "index (backwards search through a set) and the dynamic casts are covered by the bounded driver only", "handles fit in an int"]
N = Is("table.#len"); alive = lambda h, A=As("table.[].#nn", "B"): at(A, h)
obj = lambda h, A=As("object", "I"): at(A, h)                     # identity of the object a handle was issued for
rel = As("rel", "B", 2); has = As("has", "B"); par = As("parents.[]", "I")
h_, j_, x_ = Is("h"), Is("j"), Is("x"); inn = lambda h: and_(le(IZERO, h), lt(h, N))
def key(ex, v):
    """identity of the object a pointer points to"""
    if isinstance(v, Loc): v = ex.load(v, "M *")
    p = v.loc.path if hasattr(v, "loc") else None
    if p is not None and p[:2] == ("table", "[]"): return obj(v.loc.idx[0])
    return Is("new_object")
def rd(ex, p, so): return ex.st.mem[p] if p in ex.st.mem else ex.rdarr(p, so)
def c_count(ex, l, a, n): return ite(at(rd(ex, ("has",), "B"), key(ex, ex.ev(a[0]))), IONE, IZERO)
def c_idx(ex, l, a, n): return Loc(("lookup", "[]"), [key(ex, ex.ev(a[0]))])
def upd2(ex, g): o = rd(ex, ("rel",), "B"); ex.st.mem[("rel",)] = array(lambda x, i: g(x, i, lambda p, q: at(o, p, q)), 2)
def upd1(ex, g): o = rd(ex, ("has",), "B"); ex.st.mem[("has",)] = array(lambda x: g(x, lambda p: at(o, p)))
def c_insert(ex, l, a, n):
    k = l.idx[0]; i = ex.ev(a[0]); upd2(ex, lambda x, q, o: or_(and_(eq(x, k), eq(q, i)), o(x, q))); upd1(ex, lambda x, o: or_(eq(x, k), o(x)))
def c_assign(ex, l, a, n):
    k = l.idx[0]; s = ex.evl(a[0]); i = ex.rd(Loc(s.path + ("[]",), list(s.idx) + [IZERO]), sort="I")
    upd2(ex, lambda x, q, o: ite(eq(x, k), eq(q, i), o(x, q))); upd1(ex, lambda x, o: or_(eq(x, k), o(x))); return l
def c_erase(ex, l, a, n):
    k = key(ex, ex.ev(a[0])); upd2(ex, lambda x, q, o: and_(ne(x, k), o(x, q))); upd1(ex, lambda x, o: and_(ne(x, k), o(x))); return IONE
def c_erase1(ex, l, a, n):
    k = l.idx[0]; i = ex.ev(a[0]); upd2(ex, lambda x, q, o: and_(o(x, q), not_(and_(eq(x, k), eq(q, i))))); return IONE
def c_push(ex, l, a, n):
    ex.evl(a[0]); ln = ex.rd(Loc(("table", "#len"), []), sort="I"); o = rd(ex, ("object",), "I"); u = rd(ex, ("table", "[]", "#nn"), "B")
    ex.st.mem[("object",)] = array(lambda x: ite(eq(x, ln), Is("new_object"), at(o, x))); ex.st.mem[("table", "[]", "#nn")] = array(lambda x: or_(eq(x, ln), at(u, x)))
    ex.wr(Loc(("table", "#len"), []), add(ln, IONE), sort="I")
CT = {CB + "getData": lambda ex, th, a, n: Loc(("table",), []), CB + "getParents": lambda ex, th, a, n: Loc(("parents",), []), CB + "getLookup": lambda ex, th, a, n: Loc(("lookup",), []),
      "std lookup.count": c_count, "std lookup.[]": c_idx, "std lookup.[].insert": c_insert, "std lookup.[].=": c_assign, "std lookup.erase": c_erase, "std lookup.[].erase": c_erase1, "std table.push_back": c_push,
      "std lookup.[].size": lambda ex, l, a, n: Is("handles_of_object")}
MEM = {"rel": rel, "has": has, "object": As("object", "I")}
# invariant: the reverse table relates exactly the living handles to their objects
eq_b = lambda a, b: eq(ite(a, IONE, IZERO), ite(b, IONE, IZERO))
def INV(objs):
    """instances of the invariant at the given objects and all handles"""
    return [forall(N, lambda i, o=o: eq_b(at(rel, o, i), and_(alive(i), eq(obj(i), o)))) for o in objs] + [implies(not_(at(has, o)), forall(N, lambda i, o=o: not_(at(rel, o, i)))) for o in objs]
def post(r):
    g = lambda p, *ix, so="B": at(r.post(p, so), *ix)
    return (lambda i: g("table.[].#nn", i)), (lambda i: at(r.post("object", "I"), i)), (lambda o, i: at(r.post("rel", "B"), o, i)), (lambda o: at(r.post("has", "B"), o)), r.post("table.#len", "I")

def v_lookup(V):
    q = dict(contracts=CT, mem=MEM); n = Is("arg0"); bad = or_(lt(n, IZERO), le(N, n))
    r = V.fn(CB + "at", **q); r.throws_iff("rejects_unknown_and_deleted_handles", or_(bad, not_(alive(n)))); r.frame([]); r.ensures("returns_the_stored_object", TRUE if isinstance(r.ret, Loc) and r.ret.path == ("table", "[]") and r.ret.idx[0] is n else FALSE)
    r = V.fn(CB + "size", **q); r.ensures("number_of_handles_ever_issued", eq(r.result, N)); r.nothrow(); r.frame([])
    r = V.fn(CB + "parent", **q); r.throws_iff("rejects_out_of_range", or_(lt(n, IZERO), le(Is("parents.#len"), n))); r.ensures("parent_recorded_when_added", eq(r.result, at(par, n))); r.frame([])
    def c_del(ex, th, a, n_):
        n = ex.term_of(*a[0]); al = rd(ex, ("table", "[]", "#nn"), "B"); ex.throw_if(not_(and_(inn(n), at(al, n))), "Cantera::CanteraError")
        ex.st.mem[("table", "[]", "#nn")] = array(lambda i: and_(ne(i, n), at(al, i)))
    r = V.fn(CB + "clear", contracts={**CT, CB + "del": c_del}, mem=MEM, invariants={(CB + "clear", 0): lambda S: and_(le(IZERO, S("i")), le(S("i"), N), eq(S("table.#len", "I"), N), forall(S("i"), lambda k: not_(at(S("table.[].#nn", "B"), k))))}); r.nothrow(); r.ensures("no_object_left", not_(at(r.post("table.[].#nn", "B"), h_)), [inn(h_)]); r.ensures("no_handle_reused", eq(r.post("table.#len", "I"), N))
    r = V.fn(CB + "reset", contracts={**CT, "std lookup.clear": lambda ex, l, a, nd: ex.wr(Loc(("ghost_lookup_cleared",), []), IONE, sort="I")}, mem=MEM); r.nothrow(); r.ensures("nothing_left", and_(eq(r.post("table.#len", "I"), IZERO), eq(r.post("parents.#len", "I"), IZERO), eq(r.post("ghost_lookup_cleared", "I"), IONE)))
def v_delete(V):
    n = Is("arg0"); bad = or_(lt(n, IZERO), le(N, n)); o = obj(n)
    for nm, only in (("last_handle_of_object", True), ("other_handles_of_object", False)):
        req = [forall(N, lambda i: implies(at(rel, o, i), eq(i, n))), eq(Is("handles_of_object"), IONE)] if only else [lt(IONE, Is("handles_of_object"))]
        mine = [inn(n), alive(n)]
        r = V.fn(CB + "del", name="del_" + nm, requires=[inn(n), alive(n), at(has, o), at(rel, o, n)] + INV([o, x_]) + req + ([] if only else []), contracts=CT, mem=MEM)
        al, ob, rl, hs, L = post(r); r.nothrow()
        r.ensures("handle_is_deleted", not_(al(n))); r.ensures("other_handles_unchanged", and_(eq_b(al(h_), alive(h_)), eq(ob(h_), obj(h_))), [inn(h_), ne(h_, n)]); r.ensures("no_handle_reused", eq(L, N))
        r.ensures("reverse_table_relates_living_handles", eq_b(rl(x_, h_), and_(al(h_), eq(ob(h_), x_))), [inn(h_)])
        if only: r.ensures("deleted_object_forgotten", not_(hs(o)))
        else: r.ensures("object_still_known", hs(o))
        r.ensures("other_objects_known_as_before", eq_b(hs(x_), at(has, x_)), [ne(x_, o)])
    r = V.fn(CB + "del", name="del_unknown", requires=[implies(inn(n), at(has, o))], contracts=CT, mem=MEM); r.throws_iff("rejects_out_of_range", bad); r.throw_frame([]) if hasattr(r, "throw_frame") else None
    r = V.fn(CB + "del", name="del_deleted", requires=[inn(n), not_(alive(n)), not_(at(has, o))], contracts=CT, mem=MEM); r.always("rejects_deleted", TRUE if not r.alive else FALSE)
def v_add(V):
    new = Is("new_object"); fresh_ = [forall(N, lambda i: TRUE)]
    for nm, known in (("known_object", True), ("new_object", False)):
        r = V.fn(CB + "add", name="add_" + nm, requires=[at(has, new) if known else not_(at(has, new)), eq(Is("parents.#len"), N)] + INV([x_, new]), contracts=CT, mem=MEM)
        al, ob, rl, hs, L = post(r)
        r.ensures("new_handle", and_(eq(r.result, N), eq(L, add(N, IONE)))); r.ensures("names_the_object", and_(al(N), eq(ob(N), new), eq(at(r.post("parents.[]", "I"), N), Is("arg1"))))
        r.ensures("earlier_handles_unchanged", and_(eq_b(al(h_), alive(h_)), eq(ob(h_), obj(h_)), eq(at(r.post("parents.[]", "I"), h_), at(par, h_))), [inn(h_)])
        r.ensures("reverse_table_relates_living_handles", eq_b(rl(x_, h_), and_(al(h_), eq(ob(h_), x_))), [le(IZERO, h_), lt(h_, L), not_(at(rel, new, N)), not_(at(rel, x_, N))])
        r.ensures("object_known", hs(new)); r.ensures("other_objects_known_as_before", eq_b(hs(x_), at(has, x_)), [ne(x_, new)]); r.nothrow()
