"""C15: the program's functions as called by external code."""
import re, z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_expr import SIZEOF, FLT_TYPES, INTS, FLTS
from specs_scope import order, valid
from specs_decl import logged, before, sym_tree, c_ptr_type, ptr_type, PTRT
from specs_call import FFI, is_ffi, recorded, slots, counters, bits_at, room, initially, INT32
from specs_gc import globals_registered

CLOSURE_SIZE = 56           # sizeof(ffi_closure)
UNSIGNED = [t for t in INTS if t.startswith("D_T_U")]


def width(c):
    return 8 if c == "D_T_PTR" else FLT_TYPES[c] // 8 if c in FLT_TYPES else SIZEOF[c]


def handler(S):
    """the function that is given to libffi"""
    x = open(S.tree.ir("function-call.c")).read()
    m = set(re.findall(r'call [^\n]*@ffi_prep_closure_loc\(ptr[^,]*, ptr[^,]*, ptr[^,@]*@([\w.]+),', x))
    if len(m) != 1:
        raise Unsupported("the function that libffi calls isn't known")
    return m.pop()


# ---- making an entry point ----------------------------------------------------------------
def c_closure_alloc(E, st, a):
    """memory for a closure, and the address of its code"""
    r, code = E.sym_ptr(st, "closure_memory", True), E.sym_ptr(st, "code", True)
    E.store(st, a[1], code, PTRT)
    st.events.append(("ffi_closure_alloc", a[0], r, code))
    return r


def entry_point(params):
    """The function's parameters are described to libffi in order, with the types
    that they are declared with; the entry point leads to the handler, with a
    closure that refers to the function, and the closure is kept."""
    def run(S):
        G = Group(S, "get_entry_point_for_fn/" + params)
        E = G.E
        E.contracts["resolve_decl_specs_to_type"] = logged("specs", "type", True)
        E.contracts["resolve_ptr_type"] = c_ptr_type
        E.contracts["ffi_closure_alloc"] = c_closure_alloc
        for k in ("ffi_prep_cif", "ffi_prep_closure_loc"):
            E.contracts[k] = recorded(k)
        E.on_eval = lambda E, st, x, r: G.as_node(st, r)
        st = G.state()
        fn = G.node(st, "fn", "T_FN")
        args = E.get(st, fn, "tFN_ARGS")
        if params == "none":
            st.pc.append(args.base == ZERO64)
        else:
            G.as_node(st, args, "CHAIN_HEAD")
        G.as_node(st, E.get(st, fn, "tFN_RET_TYPE"))
        kept = {}
        for n in roots(S):
            h = kept[n] = G.as_tree(st, E.load(st, E.glob_ptr(n), PTRT))
            st.pc.append(z3.Or(h.base == ZERO64, TAG(h.base) == E.M.tag("CHAIN_HEAD")))

        def on_elem(E, st, head, el):
            G.as_node(st, el)
            d = G.as_tree(st, E.get(st, el, "tDECL_DECLS")) if E.tags(st, el) == E.M.tagset("T_DECL") else None
        E.on_elem = on_elem

        def on_loop(E, st, key, entry, phis):
            out = []
            for a, v in slots(E, st, key):
                if v == 0:
                    out.append((a, tobv(E.load(st, a, INT32), 32)))
            for r, v in phis.items():
                if not isinstance(v, Ptr) and E.S.valid(st.pc, tobv(entry[r], 32) == 0)[0]:
                    out.append((None, tobv(v, 32)))
            n = block_room(st)
            for a, k in out:
                # obligations room and counts
                st.pc.append(z3.And(k >= 0, k < n))
            st.ghost[("slots", key)] = [x for x in out if x[0] is not None]
        E.on_loop = on_loop
        shared = {}
        for p in G.paths(G.run(st, "get_entry_point_for_fn", [fn]), ok=("ret", "back", "die", "exit")):
            entry_path(G, p, fn, args, kept, params, shared, handler(S))
        return G
    run.group = "get_entry_point_for_fn/" + params
    return run


def roots(S):
    """the module's global trees that are roots of the garbage collector"""
    x = open(S.tree.ir("function-call.c")).read()
    return re.findall(r'^@[\w.]+ = [^\n]*global ptr @([\w.]+), section "static_trees"', x, re.M)


def block_room(st):
    """how many parameters there is room for: the biggest block's pointers"""
    sizes = [simp(e[2]) for e in st.events if e[0] == "malloc"]
    n = [s if isinstance(s, int) else s.as_long() for s in sizes if isinstance(s, int) or z3.is_bv_value(s)]
    return max(n + [0]) // 8


def same_type(E, st, a, b):
    """the node b is a, or one of the same kind (and of a pointer to the same type)"""
    c = TAG(a.base) == TAG(b.base)
    ta = E.tags(st, a)
    if ta == E.tags(st, b) and len(ta) == 1:
        c = z3.BoolVal(True)
        if ta == E.M.tagset("D_T_PTR"):
            c = tobool(E.ptr_eq(st, E.get(st, a, "tDTPTR_EXP"), E.get(st, b, "tDTPTR_EXP")))
    return z3.Or(tobool(E.ptr_eq(st, a, b)), c)


def entry_path(G, p, fn, args, kept, params, shared, handler):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    evs = order(p, "loop", "back", "append", "specs", "eval", "pointers", "ffi_prep_cif", "ffi_closure_alloc", "ffi_prep_closure_loc")
    lp = [e for e in evs if e[0] == "loop"]
    K = z3.BitVecVal(0, 32)
    made = [Ptr(b) for kind, birth, b in st.kind.values() if kind == "fresh" and E.tags(st, Ptr(b)) == E.M.tagset("T_CLOSURE")]
    if not p.require("closure", len({x.base.get_id() for x in made}) == 1, "not one closure is made"):
        return
    cl = made[0]
    if params != "none":
        if not p.require("all", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(args.base), "the parameters aren't gone through from the first on"):
            return
        lp = lp[0]
        cs = counters(p, lp)
        if lp[6][0] == "elem":
            entry_param(G, p, lp, cs, kept, shared)
            return
        if not p.require("counts", len(cs) == 1, "the parameters aren't counted"):
            return
        K = cs[0][0]
    rt = before(p, fn, "tFN_RET_TYPE")
    if p.out.kind in ("exit", "die"):
        p.require("refused", z3.And([TAG(rt.base) != E.M.tag(c) for c in list(FFI) + ["D_T_VOID"]]), "a function whose result can be passed is refused")
        return
    if not p.require("made", p.out.kind == "ret", "no entry point is made"):
        return
    one = lambda k: [e for e in evs if e[0] == k]
    ci, al, pr = one("ffi_prep_cif"), one("ffi_closure_alloc"), one("ffi_prep_closure_loc")
    if not p.require("prepared", len(ci) == len(al) == len(pr) == 1 and evs.index(ci[0]) < evs.index(pr[0]) and evs.index(al[0]) < evs.index(pr[0]),
                     "not one closure is prepared"):
        return
    ci, al, pr = ci[0], al[0], pr[0]
    p.require("size", z3.UGE(tobv(al[1], 64), CLOSURE_SIZE), "not enough memory for the closure")
    p.require("closure-memory", p.ptr_eq(pr[1], al[2]), "not the allocated closure is prepared")
    p.require("interface", z3.And(tobool(p.ptr_eq(pr[2], ci[1])), tobv(ci[2], 32) == 2), "not the prepared interface is used")
    p.require("handler", pr[3].term() == E.glob_ptr(handler).term(), "not the handler is called")
    p.require("closure-data", p.ptr_eq(pr[4], cl), "the handler doesn't get the closure")
    p.require("code", z3.And(tobool(p.ptr_eq(pr[5], al[3])), p.val.term() == al[3].term()), "not the entry point's address")
    p.require("number", tobv(ci[3], 32) == K, "not all parameters are described")
    p.require("outlives", E.kindof(st, ci[1].base)[0] == "malloc" and ci[1].off == 0, "the interface doesn't outlive the call")
    if params != "none":
        want = shared.setdefault("types", ci[5])
        p.require("types", want.base.eq(ci[5].base) and ci[5].off == 0 and E.kindof(st, ci[5].base)[0] == "malloc", "not the parameters' types are described")
    void = TAG(rt.base) == E.M.tag("D_T_VOID")
    p.require("result", z3.And(z3.Implies(void, ci[4].term() == E.glob_ptr("ffi_type_void").term()),
                               z3.And([z3.Implies(TAG(rt.base) == E.M.tag(c), is_ffi(E, st, ci[4], c)) for c in FFI])), "the result isn't described with its type")
    p.require("function", p.ptr_eq(p.get(cl, "tCLOSURE_FN"), fn), "not the function is called")
    p.require("result-type", p.ptr_eq(p.get(cl, "tCLOSURE_RET_TYPE"), rt), "the closure has another result type")
    h = p.get(cl, "tCLOSURE_ARG_TYPES")
    p.require("parameters", p.fresh(h) and p.is_tag(h, "CHAIN_HEAD") is True and h.base.eq(shared.setdefault("head", h.base)), "the closure has other parameters")
    # it is kept: on the list that is a root (obligations roots/...)
    ap = [e for e in order(p, "append") if eq(Ptr(e[1]), cl)]
    ok = []
    for n, was in kept.items():
        now = E.load(st, E.glob_ptr(n), PTRT)
        if len(ap) == 1 and eq(Ptr(ap[0][2]), now):
            ok.append(valid(p, z3.Or(now.base == was.base, z3.And(was.base == ZERO64, tobool(p.is_tag(now, "CHAIN_HEAD"))))))
    p.require("kept", any(ok), "the closure isn't kept")
    G.frame(p, appends=lambda p, new, head: eq(Ptr(new), cl), globals_=tuple(kept))


def entry_param(G, p, lp, cs, kept, shared):
    """one iteration: the parameter's type is described at its place"""
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    el = Ptr(lp[6][3])
    i = st.events.index(lp)
    N = block_room(st)
    sp, ev, pt = ([e for e in st.events[i:] if e[0] == k] for k in ("specs", "eval", "pointers"))
    decl = before(p, el, "tDECL_DECLS")
    isdecl = tobool(p.is_tag(el, "T_DECL"))
    if not sp:
        p.require("refused", z3.And(z3.BoolVal(p.out.kind == "die"), z3.Not(isdecl)), "a parameter isn't looked at")
        return
    if not p.require("specifiers", len(sp) == 1 and eq(sp[0][1], before(p, el, "tDECL_SPECS")), "not the parameter's type"):
        return
    ty = sp[0][-1]
    named = z3.Or([TAG(ty.base) == E.M.tag(x) for x in ("T_IDENTIFIER", "T_DECL_COMPOUND", "T_ENUMERATOR")])
    if ev:
        if not p.require("name", len(ev) == 1 and valid(p, z3.And(ev[0][1] == ty.base, named)), "something is evaluated"):
            return
        ty = ev[0][2]
    else:
        p.require("name", z3.Not(named), "the name of a type isn't resolved")
    if pt:
        if not p.require("pointers", len(pt) == 1 and eq(pt[0][1], decl) and eq(pt[0][2], ty), "not the declarator's pointers"):
            return
        decl, ty = pt[0][3], pt[0][4]
    else:
        p.require("pointers", z3.Not(z3.And(decl.base != ZERO64, tobool(p.is_tag(decl, "T_POINTER")))), "the declarator's pointers aren't looked at")
    id_ = z3.And(decl.base != ZERO64, tobool(p.is_tag(decl, "T_IDENTIFIER")))
    if p.out.kind in ("exit", "die"):
        many = z3.Or([k + 1 >= N for k, _ in cs] + [z3.BoolVal(False)]) if N >= 16 else z3.BoolVal(False)
        other = z3.And([TAG(ty.base) != E.M.tag(c) for c in FFI])
        p.require("refused", z3.Or(z3.Not(isdecl), z3.Not(id_), many, other), "a function is refused")
        return
    if not p.require("goes-on", p.out.kind == "back", "not every parameter is described"):
        return
    back = order(p, "back")[-1][2]
    h = E.ring_of(back[lp[6][2]])
    p.require("next", h is not None and h.base.eq(el.base), "parameters are skipped")
    cs = [(k, e) for k, e in cs if e is not None and valid(p, e == k + 1)]
    if not p.require("counts", len(cs) == 1, "the parameters aren't counted one by one"):
        return
    k = cs[0][0]
    p.require("room", k + 1 < N, "too many parameters")
    at, stray = [], []
    for n, e in enumerate(st.events[i:]):
        if e[0] != "pstore":
            continue
        kd = st.kind.get(e[5].get_id()) or E.kindof(st, e[5])
        if kd[0] in ("malloc", "stack", "fresh") and kd[1] >= i:
            continue
        hit = [b for kind, birth, b in st.kind.values() if kind == "malloc" and birth < i and valid(p, tobv(e[1], 64) == b + 8 * z3.SignExt(32, k))]
        (at if hit and e[2] == 8 else stray).append((hit[0] if hit else None, e[3]))
    p.require("places", len(at) == 1 and not stray, "not one type is put at the parameter's place")
    if len(at) != 1:
        return
    want = shared.setdefault("types", Ptr(at[0][0]))
    p.require("types", want.base.eq(at[0][0]), "not the types that are described")
    p.require("type", z3.And([z3.Implies(TAG(ty.base) == E.M.tag(c), is_ffi(E, st, at[0][1], c)) for c in FFI] + [z3.Or([TAG(ty.base) == E.M.tag(c) for c in FFI])]),
              "the parameter isn't described with its type")
    ap = [e for e in st.events[i:] if e[0] == "append"]
    if p.require("parameter", len(ap) == 1 and ap[0][3] == "tail", "the parameter's type isn't put at the end of the closure's"):
        p.require("parameter", same_type(E, st, Ptr(ap[0][1]), ty), "another type is put into the closure")
        p.require("parameters", ap[0][2].eq(shared.setdefault("head", ap[0][2])), "the parameter's type isn't put into the closure")
        # the type of a name is used elsewhere: a list element of its own is needed
        p.require("own", z3.BoolVal(not ev or bool(pt) or not eq(Ptr(ap[0][1]), ty)), "a shared type is moved into the closure's list")
    G.frame(p, lvalues=[(want.term() + 8 * z3.SignExt(32, k), 8)],
            appends=lambda p, new, head: eq(Ptr(new), sp[0][-1]) or (pt and eq(Ptr(new), pt[0][4])), globals_=tuple(kept))


ENTRY = [entry_point("none"), entry_point("some"), ptr_type, globals_registered]


# ---- a call by external code ----------------------------------------------------------------
def c_called(E, st, t):
    """the evaluation of a call that the handler made (C07): nothing, an object of
    the function's result type, or a structure"""
    f, a = E.get(st, t, "tFNCALL_ID"), E.get(st, t, "tFNCALL_ARGS")
    E.escape(st, t)
    contracts.havoc_call(E, st, "called")
    r = sym_tree(E, st, "result")
    st.events.append(("called", f, a, r, st.mem))
    if E.choose(st, r.base == ZERO64):
        return NULL
    E.assume_nonnull_once(st, r.base)
    if E.choose(st, TAG(r.base) == E.M.tag("T_LIVE_VAR")):
        E.assume_tags(st, r, E.M.tagset("T_LIVE_VAR"))
        lt = E.get(st, r, "tLV_TYPE")
        E.assume_nonnull_once(st, lt.base)
        st.pc.append(TAG(lt.base) == TAG(st.ghost["ret_type"].base))
    return r


def callback(S):
    """each argument becomes an object of its parameter's type with the bytes that
    libffi has at its place, the function is called once with these, and the bytes
    of what it returns are handed over, widened as libffi expects"""
    fn_ = handler(S)
    G = Group(S, "callback")
    E = G.E
    E.node_contracts["T_FN_CALL"] = c_called
    st = G.state()
    cl = G.node(st, "closure", "T_CLOSURE")
    types = G.as_node(st, E.get(st, cl, "tCLOSURE_ARG_TYPES"), "CHAIN_HEAD")
    rt = G.as_node(st, E.get(st, cl, "tCLOSURE_RET_TYPE"))
    st.ghost["ret_type"] = rt
    fn = G.as_node(st, E.get(st, cl, "tCLOSURE_FN"), "T_FN")
    cif, ret, fargs = E.sym_ptr(st, "cif", True), E.sym_ptr(st, "ret", True), E.sym_ptr(st, "ffi_args", True)
    contracts.note_addr(E, st, ret.term())
    contracts.note_addr(E, st, fargs.term())
    E.on_elem = lambda E, st, head, el: G.as_node(st, el, *FFI)

    def on_loop(E, st, key, entry, phis):
        out = []
        for a, v in slots(E, st, key):
            if v == 0:
                out.append((a, tobv(E.load(st, a, INT32), 32)))
        for r, v in phis.items():
            if not isinstance(v, Ptr) and E.S.valid(st.pc, tobv(entry[r], 32) == 0)[0]:
                out.append((None, tobv(v, 32)))
        for a, k in out:
            # obligation counts; get_entry_point_for_fn/some/room
            st.pc.append(z3.And(k >= 0, k < 1 << 20))
        st.ghost[("slots", key)] = [x for x in out if x[0] is not None]
        st.ghost[("mem", key)] = st.mem
    E.on_loop = on_loop
    shared = {}
    for p in G.paths(G.run(st, fn_, [cif, ret, fargs, cl]), ok=("ret", "back")):
        callback_path(G, p, types, rt, fn, ret, fargs, shared)
    return G


callback.group = "callback"


def callback_path(G, p, types, rt, fn, ret, fargs, shared):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    lp = order(p, "loop")
    if not p.require("all", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(types.base), "the arguments aren't gone through from the first on"):
        return
    lp = lp[0]
    i = st.events.index(lp)
    called = order(p, "called")
    if lp[6][0] == "elem":
        el = Ptr(lp[6][3])
        if not p.require("goes-on", p.out.kind == "back" and not called, "not every argument is passed"):
            return
        h = E.ring_of(order(p, "back")[-1][2][lp[6][2]])
        p.require("next", h is not None and h.base.eq(el.base), "arguments are skipped")
        cs = [(k, e) for k, e in counters(p, lp) if e is not None and valid(p, e == k + 1)]
        if not p.require("counts", len(cs) == 1, "the arguments aren't counted one by one"):
            return
        k = cs[0][0]
        ap = [e for e in st.events[i:] if e[0] == "append"]
        own = [e for e in ap if p.names(Ptr(e[1])) == {"T_LIVE_VAR"}]
        if p.require("argument", len(own) == 1 and own[0][3] == "tail" and p.fresh(Ptr(own[0][1])) and G.storage(p, Ptr(own[0][1])), "not a new object at the end of the arguments"):
            v = Ptr(own[0][1])
            p.require("arguments", own[0][2].eq(shared.setdefault("head", own[0][2])), "not the arguments' list")
            names = p.names(el)
            if p.require("kind", len(names) == 1, "the parameter's type isn't looked at"):
                c = list(names)[0]
                p.require("type", same_type(E, st, p.get(v, "tLV_TYPE"), el), "the object doesn't have the parameter's type")
                m0 = st.ghost[("mem", lp[1])]
                src = tobv(E.mem_load(m0, fargs.term() + 8 * z3.SignExt(32, k), 8), 64)
                n = width(c)
                p.require("value", bits_at(E, st, p.get(v, "tLV_VAL"), n) == E.mem_load(m0, src, n), "not the argument's value")
        G.frame(p)
        return
    if not p.require("returns", p.out.kind == "ret", "the handler doesn't return"):
        return
    if not p.require("called", len(called) == 1, "the function isn't called once"):
        return
    c = called[0]
    p.require("function", p.ptr_eq(c[1], fn), "not the function is called")
    p.require("arguments", p.fresh(c[2]) and c[2].base.eq(shared.setdefault("head", c[2].base)), "not the arguments are passed")
    r, m1 = c[3], c[4]
    void = z3.Or(r.base == ZERO64, TAG(r.base) != E.M.tag("T_LIVE_VAR"))
    if valid(p, void):
        p.require("nothing", z3.BoolVal(not [e for e in st.events[st.events.index(c):] if e[0] == "pstore"]), "something is handed over")
        G.frame(p)
        return
    addr = p.get(r, "tLV_VAL").term()
    out = []
    for t in FFI:
        n = width(t)
        v = E.mem_load(m1, addr, n)
        w = n
        if t in INTS:
            v, w = ext(v, 64, t not in UNSIGNED), 8
        out.append((t, w, tobv(v, 8 * w)))
    names = p.names(rt)
    ts = [(t, w, v) for t, w, v in out if t in names]
    p.require("value", z3.And([z3.Implies(TAG(rt.base) == E.M.tag(t), tobv(E.mem_load(st.mem, ret.term(), w), 8 * w) == v) for t, w, v in ts]),
              "not the function's value is handed over")
    G.frame(p, lvalues=[(ret.term(), w) for w in {w for _, w, _ in ts}])


def addr_fn(S):
    """the address of a function: an entry point for it"""
    G = Group(S, "T_ADDR/function")
    E = G.E
    E.contracts["get_entry_point_for_fn"] = c_entry
    st = G.state()
    t = G.node(st, "t", "T_ADDR")
    x = G.operand(st, t, "tADDR_EXP")

    def on_eval(E, st, y, r):
        if y.base.eq(x.base):
            G.as_node(st, r, "T_FN")
        return r
    E.on_eval = on_eval
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        ev, en = order(p, "eval", "selfeval"), order(p, "entry")
        if p.require("operand", len(ev) == 1 and ev[0][1].eq(x.base), "the operand isn't evaluated once"):
            r = p.val
            if p.require("entry", len(en) == 1 and valid(p, p.ptr_eq(en[0][1], ev[0][2])), "not an entry point for the function is made") and \
               p.require("result", p.fresh(r) and p.is_tag(r, "T_LIVE_VAR") is True and G.storage(p, r), "not a new object"):
                ty = p.get(r, "tLV_TYPE")
                p.require("type", p.is_tag(ty, "D_T_PTR") is True and valid(p, p.ptr_eq(p.get(ty, "tDTPTR_EXP"), ev[0][2])), "not a pointer to the function")
                p.require("value", tobv(E.mem_load(p.st.mem, p.get(r, "tLV_VAL").term(), 8), 64) == en[0][2].term(), "not the entry point")
        G.frame(p)
    return G


def c_entry(E, st, a):
    """get_entry_point_for_fn (obligations get_entry_point_for_fn/...)"""
    E.escape(st, a[0])
    contracts.havoc_call(E, st, "entry")
    r = E.sym_ptr(st, "entry", True)
    st.events.append(("entry", a[0], r))
    return r


addr_fn.group = "T_ADDR/function"
CALLBACK = [callback, addr_fn]
