"""C08: what declarations declare."""
import re, z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_scope import order, valid, is_const, enum_value, c_resolve, c_search, MAPS

PTRT = ('ptr',)


def sym_tree(E, st, name):
    r = E.sym_ptr(st, name)
    st.ghost[("tree", r.base.get_id())] = True
    return r


# ---- contracts ---------------------------------------------------------------------
def c_ptr_type(E, st, a):
    """resolve_ptr_type: the declarator's pointers become part of the type
    (obligations resolve_ptr_type/...)"""
    d, t = E.load(st, a[0], PTRT), E.load(st, a[1], PTRT)
    if E.choose(st, E.icmp(st, "eq", PTRT, d, NULL)):
        return 0
    st.ghost[("tree", d.base.get_id())] = True
    x = E.tag(st, d)
    p = E.M.tag("T_POINTER")
    if not E.choose(st, x == p):
        if not isinstance(x, int):
            st.dom[d.base.get_id()] = E.tags(st, d) - {p}
        return 0
    st.dom[d.base.get_id()] = frozenset([p])
    d2, t2 = sym_tree(E, st, "declarator"), sym_tree(E, st, "ptrtype")
    E.assume_nonnull(st, t2.base)
    E.assume_tags(st, t2, E.M.tagset("D_T_PTR"))
    st.pc.append(z3.Or(d2.base == ZERO64, TAG(d2.base) != p))
    st.dom[d2.base.get_id()] = frozenset(range(len(E.M.names))) - {p}
    E.store(st, a[0], d2, PTRT)
    E.store(st, a[1], t2, PTRT)
    st.events.append(("pointers", d, t, d2, t2))
    return 0


def logged(kind, result="value", nonnull=False, tags=()):
    """the call is recorded, the result may be anything"""
    def h(E, st, a):
        st.events.append((kind,) + tuple(a))
        E.escape_args(st, a) if hasattr(E, "escape_args") else [E.escape(st, x) for x in a if isinstance(x, Ptr)]
        if result is None:
            return 0
        r = sym_tree(E, st, result)
        if nonnull:
            E.assume_nonnull(st, r.base)
        if tags:
            E.assume_tags(st, r, E.M.tagset(*tags))
        st.events[-1] += (r,)
        return r
    return h


def has(tag):
    def h(E, st, a):
        b = E.fresh("has_" + tag, z3.BitVecSort(32))
        st.pc.append(z3.Or(b == 0, b == 1))
        st.events.append(("has", tag, a[0], b))
        return b
    return h


c_map = logged("declare", None)
c_declarator = logged("declarator", "declared")
c_spectype = logged("spectype", "type", True)


def declaration_contracts(E, *but):
    cs = {
        "resolve_ptr_type": c_ptr_type,
        "map_identifier": c_map,
        "__resolve_identifier": c_resolve,
        "resolve_decl_specs_to_type": c_spectype,
        "handle_declarator": c_declarator,
        "alloc_struct": logged("alloc_struct", "struct", True, ("T_LIVE_COMPOUND",)),
        "alloc_array": logged("alloc_array", "array", True, ("T_LIVE_VAR",)),
        "assign_value": logged("assign", None),
        "map_typedef": logged("typedef", "typename"),
        "handle_typedef": logged("handle_typedef", "typename"),
        "handle_extern_decls": logged("handle_extern", "external"),
        "handle_static_decl": logged("handle_static", "static"),
        "handle_forward_decl": logged("handle_forward", "forward"),
        "chain_has_T_TYPEDEF": has("T_TYPEDEF"),
        "chain_has_T_EXTERN": has("T_EXTERN"),
        "chain_has_T_STATIC": has("T_STATIC"),
    }
    for k, v in cs.items():
        if k not in but:
            E.contracts[k] = v


KINDS = ("declare", "declarator", "alloc_struct", "alloc_array", "typedef", "assign", "handle_typedef", "handle_extern", "handle_static",
         "handle_forward")


# ---- pointers of a declarator -------------------------------------------------------
def ptr_type(S):
    """one T_POINTER after the other is taken off the declarator, and the type
    becomes the type of a pointer to what it was"""
    G = Group(S, "resolve_ptr_type")
    E = G.E
    st = G.state()
    slots = []
    for n in ("ptr", "base_type"):
        b = E.fresh("slot_" + n)
        st.kind[b.get_id()] = ("stack", len(st.events), b)
        E.stack_names[b.get_id()] = n
        st.pc.append(b != 0)
        st.nonnull[b.get_id()] = True
        slots.append(Ptr(b))
    d, t = G.as_tree(st, E.sym_ptr(st, "declarator")), G.node(st, "type")
    E.store(st, slots[0], d, PTRT)
    E.store(st, slots[1], t, PTRT)
    seen = {}

    def on_loop(E, st, key, entry, phis):
        x, y = G.as_tree(st, E.load(st, slots[0], PTRT)), G.as_tree(st, E.load(st, slots[1], PTRT))
        st.ghost["iter"] = (x, y)
    E.on_loop = on_loop
    for p in G.paths(G.run(st, "resolve_ptr_type", slots), ok=("ret", "back")):
        if not p.require("loop", len(order(p, "loop")) == 1, "no loop"):
            continue
        x, y = p.st.ghost["iter"]
        x2, y2 = E.load(p.st, slots[0], PTRT), E.load(p.st, slots[1], PTRT)
        isp = z3.And(x.base != ZERO64, tobool(p.is_tag(x, "T_POINTER")))
        G.frame(p)
        if p.out.kind == "ret":
            p.require("all", z3.Not(isp), "a pointer remains")
            p.require("end", z3.And(tobool(p.ptr_eq(x, x2)), tobool(p.ptr_eq(y, y2))), "more than the pointers is taken off")
        else:
            p.require("pointer", isp, "something that isn't a pointer is taken off")
            p.require("declarator", p.ptr_eq(x2, p.get(x, "tPTR_EXP")), "not what the pointer declares is left")
            ok = p.fresh(y2) and p.is_tag(y2, "D_T_PTR") is True and valid(p, p.ptr_eq(p.get(y2, "tDTPTR_EXP"), y))
            p.require("type", ok, "the type isn't that of a pointer to the type")
    return G


ptr_type.group = "resolve_ptr_type"


def chain_has(tag):
    def f(S):
        G = Group(S, "chain_has_" + tag)
        E = G.E
        st = G.state()
        h = G.as_tree(st, E.sym_ptr(st, "specs"))
        for p in G.paths(G.run(st, "chain_has_" + tag, [h]), ok=("ret", "back")):
            G.frame(p)
            lp = order(p, "loop")
            if not lp:
                p.require("empty", z3.And(h.base == ZERO64, tobv(p.val, 32) == 0), "the specifiers aren't looked at")
                continue
            if not p.require("all", lp[0][6] is not None and valid(p, lp[0][6][1] == h.base), "not from the first one on"):
                continue
            ring = lp[0][6]
            if ring[0] == "end":
                p.require("none", p.out.kind == "ret" and valid(p, tobv(p.val, 32) == 0), "found though there is none")
                continue
            el = Ptr(ring[3])
            c = tobool(p.is_tag(el, tag))
            if p.out.kind == "ret":
                p.require("found", z3.And(c, tobv(p.val, 32) != 0), "another specifier is taken for it")
            else:
                hh = E.ring_of(order(p, "back")[-1][2][ring[2]])
                p.require("next", z3.And(z3.Not(c), z3.BoolVal(hh is not None and hh.base.eq(el.base))), "it isn't found")
        return G
    f.group = "chain_has_" + tag
    return f


# ---- declarations ---------------------------------------------------------------------
def decl(S):
    """every declarator of a declaration is declared once, in order, with the
    type that the specifiers denote"""
    G = Group(S, "T_DECL")
    E = G.E
    declaration_contracts(E)
    for form in ("none", "one", "list"):
        st = G.state()
        t = G.node(st, "t", "T_DECL")
        specs, ds = E.get(st, t, "tDECL_SPECS"), G.as_tree(st, E.get(st, t, "tDECL_DECLS"))
        if form == "none":
            st.pc.append(ds.base == ZERO64)
        elif form == "list":
            G.as_node(st, ds, "CHAIN_HEAD")
        else:
            G.as_node(st, ds)
            st.dom[ds.base.get_id()] = frozenset(range(len(E.M.names))) - E.M.tagset("CHAIN_HEAD")
            st.pc.append(TAG(ds.base) != E.M.tag("CHAIN_HEAD"))
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), form + "/total", ok=("ret", "back")):
            G.frame(p, name=form + "/frame")
            why = decl_path(G, p, t, specs, ds, form)
            p.require(form + "/declared", why is None, why or "")
    return G


decl.group = "T_DECL"


def before(p, x, acc):
    """a member's value at the beginning"""
    st = p.st
    log, st.log = st.log, []
    try:
        return p.get(x, acc)
    finally:
        st.log = log


def decl_path(G, p, t, specs, ds, form):
    E, st = p.E, p.st
    ev = order(p, "spectype", "has", "eval", "selfeval", "loop", "back", *KINDS)
    if not ev or ev[0][0] != "spectype" or not valid(p, p.ptr_eq(ev[0][1], specs)):
        return "the specifiers' type isn't used"
    ty = ev[0][2]
    flags = {e[1]: (valid(p, e[3] != 0), valid(p, e[3] == 0)) for e in ev if e[0] == "has" and valid(p, p.ptr_eq(e[2], specs))}
    act = [e for e in ev[1:] if e[0] not in ("has", "selfeval")]
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    fw = z3.And(tobool(p.is_tag(ty, "T_DECL_COMPOUND")), tobool(p.ptr_eq(before(p, ty, "tCOMP_DECL_DECLS"), NULL))) if form == "none" and \
        "T_DECL_COMPOUND" in p.names(ty) else z3.BoolVal(False)
    if act and act[0][0] == "handle_forward":
        if not valid(p, fw):
            return "taken for a forward declaration"
        if len(act) != 1 or not eq(act[0][1], ty) or not eq(p.val, act[0][2]):
            return "not the tag is declared"
        return None
    if not valid(p, z3.Not(fw)):
        return "a forward declaration isn't seen"
    named = tobool(p.is_tag(ty, "T_IDENTIFIER", "T_DECL_COMPOUND", "T_ENUMERATOR"))
    if act and act[0][0] == "eval":
        if not valid(p, named) or not act[0][1].eq(ty.base):
            return "something else is evaluated"
        ty = act[0][2]
        act = act[1:]
    elif not valid(p, z3.Not(named)):
        return "a type's name isn't resolved"
    if form == "none":
        return None if not act and p.out.kind == "ret" and eq(p.val, NULL) else "something is declared"
    for tag, kind, who in (("T_TYPEDEF", "handle_typedef", ds), ("T_EXTERN", "handle_extern", ds), ("T_STATIC", "handle_static", t)):
        f = flags.get(tag)
        if f is None or not (f[0] or f[1]):
            return "%s isn't looked for" % tag
        if f[0]:
            if len(act) != 1 or act[0][0] != kind or not eq(act[0][1], ty) or not eq(act[0][2], who) or not eq(p.val, act[0][-1]):
                return "%s isn't heeded" % tag
            return None
    if form == "one":
        if len(act) != 1 or act[0][0] != "declarator" or not (eq(act[0][1], ds) and eq(act[0][2], ty)):
            return "not the declarator is declared"
        return None if p.out.kind == "ret" and eq(p.val, act[0][-1]) else "another result"
    if not act or act[0][0] != "loop" or act[0][6] is None or not valid(p, act[0][6][1] == ds.base):
        return "the declarators aren't gone through"
    ring, lp = act[0][6], act[0]
    if ring[0] == "end":
        if len(act) != 1 or p.out.kind != "ret":
            return "something is declared after the last declarator"
        ph = [v for r, v in lp[3].items() if isinstance(v, Ptr) and r != ring[2]]
        return None if any(eq(p.val, v) for v in ph) else "another result"
    el = Ptr(ring[3])
    if len(act) != 3 or act[1][0] != "declarator" or act[2][0] != "back" or not (eq(act[1][1], el) and eq(act[1][2], ty)):
        return "not each declarator is declared once"
    b = act[2][2]
    h = E.ring_of(b[ring[2]])
    if h is None or not h.base.eq(el.base):
        return "declarators are skipped"
    rest = [v for r, v in b.items() if r != ring[2] and isinstance(v, Ptr)]
    return None if any(eq(v, act[1][-1]) for v in rest) else "another result"


# ---- declarators -------------------------------------------------------------------------
def strip(p, d, ty):
    """the declarator and the type without/with the declarator's pointers"""
    e = order(p, "pointers")
    if not e:
        return d, ty, 0
    if len(e) != 1 or not valid(p, z3.And(tobool(p.ptr_eq(e[0][1], d)), tobool(p.ptr_eq(e[0][2], ty)))):
        return None
    return e[0][3], e[0][4], 1


def declares(p, acts, t, obj):
    """the last action declares t as obj, and nothing else is declared"""
    ds = [e for e in acts if e[0] == "declare"]
    if len(ds) != 1:
        return "%d names are declared" % len(ds)
    if not valid(p, p.ptr_eq(ds[0][1], t)):
        return "another name is declared"
    if not valid(p, p.ptr_eq(ds[0][2], obj)):
        return "another object is declared"
    return None


SPECIAL = ("T_DECL_COMPOUND", "T_ARRAY_TYPE", "E_INCOMP_TYPE")


def other(G, st, p, *but):
    st.dom[p.base.get_id()] = E_tags(G, but)
    st.pc += [TAG(p.base) != G.M.tag(b) for b in but]
    return p


def E_tags(G, but):
    return frozenset(range(len(G.M.names))) - G.M.tagset(*but)


def declarator(S):
    G = Group(S, "handle_declarator")
    E = G.E
    # the recursive calls rely on the contract
    for kind in ("T_IDENTIFIER/struct", "T_IDENTIFIER/array", "T_IDENTIFIER/incomplete", "T_IDENTIFIER/other", "T_ARRAY", "T_FN", "T_BITFIELD",
                 "T_ASSIGN", "T_POINTER"):
        E.contracts.pop("handle_declarator", None)
        declaration_contracts(E, "handle_declarator")
        rec = c_declarator

        def c(E, st, a):
            # the outermost call is executed
            if not st.ghost.get("entered"):
                st.ghost["entered"] = True
                return Inline("handle_declarator", a)
            r = rec(E, st, a)
            if kind in ("T_ASSIGN", "T_POINTER"):
                # what is initialised is an object, not a function: its name is the result
                G.as_node(st, r, "T_IDENTIFIER")
            return r
        E.contracts["handle_declarator"] = c
        st = G.state()
        st.ghost["entered"] = True
        ty = G.node(st, "type")
        d = G.node(st, "declarator", kind.split("/")[0])
        sub = kind.split("/")[-1]
        if sub == "struct":
            E.assume_tags(st, ty, E.M.tagset("T_DECL_COMPOUND"))
        elif sub == "array":
            E.assume_tags(st, ty, E.M.tagset("T_ARRAY_TYPE"))
        elif sub == "incomplete":
            E.assume_tags(st, ty, E.M.tagset("E_INCOMP_TYPE"))
        elif kind == "T_POINTER":
            pass
        else:
            other(G, st, ty, *SPECIAL)
        def on_eval(E, st, x, r):
            # the new name denotes a variable or a structure, the initialiser a value
            new = [e[-1] for e in st.events if e[0] == "declarator"]
            if new and new[-1].base.eq(x.base):
                return G.as_node(st, r, "T_LIVE_VAR")
            return G.as_node(st, r, "T_LIVE_VAR", "T_LIVE_COMPOUND", "T_INTEGER", "T_FLOAT", "T_STRING")
        E.on_eval = on_eval
        if kind == "T_FN":
            G.as_tree(st, E.get(st, d, "tFN_DECL"))
            G.as_tree(st, E.get(st, d, "tFN_STMTS"))
        if kind in ("T_ASSIGN", "T_ARRAY"):
            for a in ("tASSIGN_LHS", "tASSIGN_RHS") if kind == "T_ASSIGN" else ("tARRAY_DECL", "tARRAY_SZ"):
                G.operand(st, d, a)
        n = kind
        oks = ("ret", "die") if kind in ("T_IDENTIFIER/incomplete", "T_POINTER", "T_FN") else ("ret",)
        for p in G.paths(G.run(st, "handle_declarator", [d, ty, G.depth()]), n + "/total", ok=oks):
            s = strip(p, d, ty)
            if not p.require(n + "/pointers", s is not None, "other pointers are taken off"):
                continue
            dd, tt, np = s
            if p.out.kind == "die":
                if kind == "T_FN":
                    continue
                c = z3.BoolVal(True) if dd.base.eq(d.base) else z3.BoolVal(True)
                p.require(n + "/diagnosed", refused(p, dd, tt), "a declarator is refused")
                continue
            if kind == "T_POINTER":
                why = None if np == 1 else "the pointers aren't taken off"
            why = why_declarator(G, p, dd, tt)
            p.require(n + "/declared", why is None, why or "")
            copies = [e for e in order(p, "treecopy")]
            if not copies:
                G.frame(p, name=n + "/frame")
    return G


declarator.group = "handle_declarator"


def refused(p, d, ty):
    cs = [d.base == ZERO64]
    n = p.names(d) if not valid(p, d.base == ZERO64) else set()
    if "T_IDENTIFIER" in n:
        cs.append(z3.And(tobool(p.is_tag(d, "T_IDENTIFIER")), tobool(p.is_tag(ty, "E_INCOMP_TYPE"))))
    cs.append(z3.Not(tobool(p.is_tag(d, "T_IDENTIFIER", "T_ARRAY", "T_FN", "T_BITFIELD", "T_ASSIGN"))))
    return z3.Or(cs)


def why_declarator(G, p, d, ty):
    E, st = p.E, p.st
    acts = order(p, "eval", *KINDS)
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    ns = p.names(d)
    if len(ns) != 1:
        return "a declarator's kind isn't looked at (%s)" % sorted(ns)[:4]
    k = next(iter(ns))
    if k == "T_IDENTIFIER":
        if not eq(p.val, d):
            return "the name isn't the result"
        ts = p.names(ty)
        if ts == {"T_DECL_COMPOUND"}:
            if [e[0] for e in acts] != ["alloc_struct", "declare"] or not eq(acts[0][1], ty):
                return "not one object of the type is made"
            return declares(p, acts, d, acts[0][-1])
        if ts == {"T_ARRAY_TYPE"}:
            if [e[0] for e in acts] != ["alloc_array", "declare"]:
                return "not one array is made"
            a = acts[0][1]
            if not (p.fresh(a) and p.is_tag(a, "T_ARRAY") is True and eq(p.get(a, "tARRAY_DECL"), d)
                    and eq(p.get(a, "tARRAY_SZ"), p.get(ty, "tARRAY_TYPE_SZ")) and eq(acts[0][2], p.get(ty, "tARRAY_TYPE_BASE_TYPE"))):
                return "another array is made"
            return declares(p, acts, d, acts[0][-1])
        if ts & set(SPECIAL):
            return "a type's kind isn't looked at"
        if [e[0] for e in acts] != ["declare"]:
            return "not one name is declared"
        v = acts[0][2]
        if not (p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and eq(p.get(v, "tLV_TYPE"), ty)):
            return "not a new object of the type"
        if not G.storage(p, v):
            return "the object has no storage of its own"
        return declares(p, acts, d, v)
    if k == "T_ARRAY":
        if [e[0] for e in acts] != ["alloc_array", "declare"] or not (eq(acts[0][1], d) and eq(acts[0][2], ty)):
            return "not one array is made"
        if not eq(p.val, p.get(d, "tARRAY_DECL")):
            return "the name isn't the result"
        return declares(p, acts, p.get(d, "tARRAY_DECL"), acts[0][-1])
    if k == "T_BITFIELD":
        x = p.get(d, "tBITFIELD_DECLARATOR")
        if not acts:
            return None if valid(p, x.base == ZERO64) and eq(p.val, NULL) else "a bit-field isn't declared"
        if [e[0] for e in acts] != ["declarator"] or not (eq(acts[0][1], x) and eq(acts[0][2], ty)):
            return "not the bit-field is declared"
        return None if eq(p.val, acts[0][-1]) else "the name isn't the result"
    if k == "T_ASSIGN":
        if [e[0] for e in acts] not in (["declarator", "eval", "eval", "assign"], ["declarator", "eval", "assign"]):
            return "not one declaration and one assignment (%s)" % [e[0] for e in acts]
        if not (eq(acts[0][1], p.get(d, "tASSIGN_LHS")) and eq(acts[0][2], ty)):
            return "not the declarator is declared"
        name = acts[0][-1]
        if not eq(p.val, name):
            return "the name isn't the result"
        ev = {e[1].get_id(): e[2] for e in acts if e[0] == "eval"}
        val = lambda x: ev.get(x.base.get_id(), x)
        l, r = acts[-1][2], acts[-1][3]
        if not (eq(l, val(name)) and eq(r, val(p.get(d, "tASSIGN_RHS")))):
            return "the initialiser isn't assigned to the new object"
        return None
    if k == "T_FN":
        return why_function(G, p, d, ty, acts)
    return "a declarator of another kind is accepted"


def why_function(G, p, d, ty, acts):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    name, stmts = p.get(d, "tFN_DECL"), p.get(d, "tFN_STMTS")

    def copy(f, nm):
        if not (p.fresh(f) and p.is_tag(f, "T_FN") is True):
            return "the function isn't a copy of the declarator"
        if not (eq(p.get(f, "tFN_RET_TYPE"), ty) and eq(p.get(f, "tFN_ARGS"), p.get(d, "tFN_ARGS")) and eq(p.get(f, "tFN_STMTS"), stmts)
                and eq(p.get(f, "tFN_DECL"), nm)):
            return "parts of the function are lost"
        return None
    if acts and acts[0][0] == "declarator":
        if len(acts) != 1 or not eq(acts[0][1], name) or not valid(p, tobool(p.is_tag(name, "T_POINTER"))):
            return "not the pointer is declared"
        return copy(acts[0][2], NULL) or (None if eq(p.val, acts[0][-1]) else "the name isn't the result")
    if not valid(p, z3.Not(z3.And(name.base != ZERO64, tobool(p.is_tag(name, "T_POINTER"))))):
        return "a pointer to a function is taken for a function"
    rs = [e for e in order(p, "resolve") if eq(e[1], name) and is_const(p, e[2], enum_value(G.S, "SCOPE_CURRENT_CTX"))]
    if len(rs) < 1:
        return "no earlier declaration is looked for"
    prev = rs[0][-1]
    again = z3.And(stmts.base == ZERO64, prev.base != ZERO64)
    tc = order(p, "treecopy")
    if tc:
        unfin = z3.And(prev.base != ZERO64, tobool(p.is_tag(prev, "T_FN", "T_EXT_FUNC")))
        if len(tc) != 1 or acts or not (valid(p, tc[0][1] == prev.base)):
            return "another object is overwritten"
        if not valid(p, z3.And(unfin, stmts.base != ZERO64)):
            return "something that isn't a function's declaration is overwritten"
        return copy(Ptr(tc[0][2]), name) or (None if eq(p.val, d) else "another result")
    if acts:
        if [e[0] for e in acts] != ["declare"]:
            return "not one name is declared"
        if not valid(p, z3.Not(again)):
            return "a declaration that is repeated is refused"
        return declares(p, acts, name, acts[0][2]) or copy(acts[0][2], name) or (None if eq(p.val, d) else "another result")
    return None if valid(p, again) else "the function isn't declared"


# ---- typedef, extern ---------------------------------------------------------------------
def over_all(kind, fn):
    """a function that handles every declarator of a declaration, in order"""
    def f(S):
        G = Group(S, fn)
        E = G.E
        c = {"typedef": ("map_typedef", logged("typedef", "typename")), "extern": ("handle_extern_decl", logged("extern", "external"))}[kind]
        E.contracts[c[0]] = c[1]
        for form in ("one", "list"):
            st = G.state()
            ty, ds = G.node(st, "type"), G.node(st, "decls", *(["CHAIN_HEAD"] if form == "list" else []))
            if form == "one":
                other(G, st, ds, "CHAIN_HEAD")
            for p in G.paths(G.run(st, fn, [ty, ds, G.depth()]), form + "/total", ok=("ret", "back")):
                G.frame(p, name=form + "/frame")
                why = over_all_path(p, ty, ds, form, kind)
                p.require(form + "/each", why is None, why or "")
        return G
    f.group = fn
    return f


def over_all_path(p, ty, ds, form, kind):
    E = p.E
    acts = order(p, "loop", "back", kind)
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))

    def one(e, d):
        x = (e[2], e[1]) if kind == "extern" else (e[1], e[2])
        return eq(x[0], d) and eq(x[1], ty)
    if form == "one":
        return None if [e[0] for e in acts] == [kind] and one(acts[0], ds) and eq(p.val, acts[0][-1]) else "not the declarator is handled"
    if not acts or acts[0][0] != "loop" or acts[0][6] is None or not valid(p, acts[0][6][1] == ds.base):
        return "the declarators aren't gone through"
    ring, lp = acts[0][6], acts[0]
    if ring[0] == "end":
        return None if len(acts) == 1 and p.out.kind == "ret" else "something happens after the last declarator"
    el = Ptr(ring[3])
    if [e[0] for e in acts] != ["loop", kind, "back"] or not one(acts[1], el):
        return "not each declarator is handled once"
    h = E.ring_of(acts[2][2][ring[2]])
    return None if h is not None and h.base.eq(el.base) else "declarators are skipped"


def typedef(S):
    """the declarator's name becomes a name of the type"""
    G = Group(S, "map_typedef")
    E = G.E
    for kind in ("T_IDENTIFIER", "T_ARRAY", "T_FN", "T_POINTER", "other"):
        declaration_contracts(E, "map_typedef")
        rec = logged("typedef", "typename")

        def c(E, st, a):
            if not st.ghost.get("entered"):
                st.ghost["entered"] = True
                return Inline("map_typedef", a)
            return rec(E, st, a)
        E.contracts["map_typedef"] = c
        st = G.state()
        st.ghost["entered"] = True
        ty = G.node(st, "type")
        if kind == "other":
            d = other(G, st, G.node(st, "declarator"), "T_IDENTIFIER", "T_ARRAY", "T_FN", "T_POINTER")
        else:
            d = G.node(st, "declarator", kind)
        if kind == "T_ARRAY":
            G.operand(st, d, "tARRAY_DECL", "T_IDENTIFIER")
        if kind == "T_FN":
            G.as_tree(st, E.get(st, d, "tFN_DECL"))
        oks = ("ret", "die") if kind in ("other", "T_POINTER") else ("ret",)
        for p in G.paths(G.run(st, "map_typedef", [d, ty]), kind + "/total", ok=oks):
            s = strip(p, d, ty)
            if not p.require(kind + "/pointers", s is not None and (kind != "T_POINTER" or s[2] == 1), "other pointers are taken off"):
                continue
            dd, tt, np = s
            if p.out.kind == "die":
                p.require(kind + "/diagnosed", z3.Or(dd.base == ZERO64, z3.Not(tobool(p.is_tag(dd, "T_IDENTIFIER", "T_FN")))), "a declarator is refused")
                continue
            G.frame(p, name=kind + "/frame")
            why = typedef_path(G, p, dd, tt)
            p.require(kind + "/named", why is None, why or "")
    return G


typedef.group = "map_typedef"


def typedef_path(G, p, d, ty):
    acts = order(p, *KINDS)
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    ns = p.names(d)
    k = next(iter(ns)) if len(ns) == 1 else None
    if k == "T_FN":
        if [e[0] for e in acts] != ["typedef"] or not eq(acts[0][1], p.get(d, "tFN_DECL")) or not eq(p.val, acts[0][-1]):
            return "not the function type's name is declared"
        f = acts[0][2]
        isp = z3.And(p.get(d, "tFN_DECL").base != ZERO64, tobool(p.is_tag(p.get(d, "tFN_DECL"), "T_POINTER")))
        if not (p.fresh(f) and p.is_tag(f, "T_FN") is True and eq(p.get(f, "tFN_RET_TYPE"), ty) and eq(p.get(f, "tFN_ARGS"), p.get(d, "tFN_ARGS"))):
            return "another function type"
        return None
    if k not in ("T_IDENTIFIER", "T_ARRAY"):
        return "a declarator's kind isn't looked at"
    if [e[0] for e in acts] != ["declare"]:
        return "not one name is declared"
    if k == "T_IDENTIFIER":
        return declares(p, acts, d, ty) or (None if eq(p.val, d) else "the name isn't the result")
    a = acts[0][2]
    if not (p.fresh(a) and p.is_tag(a, "T_ARRAY_TYPE") is True and eq(p.get(a, "tARRAY_TYPE_BASE_TYPE"), ty)
            and eq(p.get(a, "tARRAY_TYPE_SZ"), p.get(d, "tARRAY_SZ"))):
        return "another array type"
    return declares(p, acts, p.get(d, "tARRAY_DECL"), a) or (None if eq(p.val, p.get(d, "tARRAY_DECL")) else "the name isn't the result")


def c_dlsym(E, st, a):
    r = E.sym_ptr(st, "symbol")
    st.events.append(("dlsym", a[1], r))
    return r


def symbol_of(p, name):
    """the address of the external symbol of that name"""
    want = contracts.str_of(p.E, p.st, p.get(name, "tID_STR"))
    for e in order(p, "dlsym"):
        if valid(p, contracts.str_of(p.E, p.st, e[1]) == want):
            return e[2]
    return None


def extern(S):
    """an external declaration declares the external object of that name"""
    G = Group(S, "handle_extern_decl")
    E = G.E
    for kind in ("T_IDENTIFIER", "T_ARRAY", "T_FN", "T_POINTER"):
        declaration_contracts(E)
        E.contracts["dlsym"] = c_dlsym
        E.contracts["get_array_size"] = logged("arraysize", None)
        sz = E.fresh("arraysize")

        def c_size(E, st, a):
            st.events.append(("arraysize", a[0], a[1]))
            return sz
        E.contracts["get_array_size"] = c_size
        E.contracts["instantiate_array"] = logged("array_at", "array", True, ("T_LIVE_VAR",))

        def c_res(E, st, a):
            # every variable has a type
            r = c_resolve(E, st, a)
            E.assume_nonnull(st, E.tree_load(st, r.base, E.M.off("tLV_TYPE"), 8, PTRT).base)
            return r
        E.contracts["__resolve_identifier"] = c_res
        st = G.state()
        ty = G.node(st, "type")
        d = G.node(st, "declarator", kind)
        if kind == "T_ARRAY":
            G.operand(st, d, "tARRAY_DECL", "T_IDENTIFIER")
        if kind == "T_FN":
            G.operand(st, d, "tFN_DECL", "T_IDENTIFIER")
        if kind == "T_POINTER":
            # int *f(void) and int *x and int *a[2]
            def c_ptr(E, st, a, k=c_ptr_type):
                r = k(E, st, a)
                x = E.load(st, a[0], PTRT)
                G.as_node(st, x, "T_IDENTIFIER")
                return r
            E.contracts["resolve_ptr_type"] = c_ptr
        for p in G.paths(G.run(st, "handle_extern_decl", [ty, d]), kind + "/total", ok=("ret", "die")):
            s = strip(p, d, ty)
            if not p.require(kind + "/pointers", s is not None and (kind != "T_POINTER" or s[2] == 1), "other pointers are taken off"):
                continue
            dd, tt, np = s
            why = extern_path(G, p, dd, tt)
            p.require(kind + "/declared", why is None, why or "")
            if p.out.kind == "ret":
                G.frame(p, name=kind + "/frame", stores=[(d.base, "tFN_RET_TYPE")] if kind == "T_FN" else ())
    return G


extern.group = "handle_extern_decl"


def extern_path(G, p, d, ty):
    E = p.E
    acts = order(p, "array_at", *KINDS)
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    ns = p.names(d)
    k = next(iter(ns)) if len(ns) == 1 else None
    prev = [e[-1] for e in order(p, "resolve")]
    die = p.out.kind == "die"
    if k == "T_ARRAY":
        name = p.get(d, "tARRAY_DECL")
        sym = symbol_of(p, name)
        if sym is None:
            return "the symbol isn't looked up"
        if die:
            return None if valid(p, sym.base == ZERO64) else "an external array is refused"
        sz = order(p, "arraysize")
        if [e[0] for e in acts] != ["array_at", "declare"] or len(sz) != 1 or not (eq(sz[0][1], d) and eq(sz[0][2], ty)):
            return "not one array is declared"
        a = acts[0]
        if not (eq(a[1], d) and eq(a[2], ty) and eq(a[3], sym) and valid(p, sym.base != ZERO64)):
            return "another array is declared"
        return declares(p, acts, name, a[-1]) or (None if eq(p.val, name) else "the name isn't the result")
    name = p.get(d, "tFN_DECL") if k == "T_FN" else d
    if not prev or not all(eq(e[1], name) and is_const(p, e[2], enum_value(G.S, "SCOPE_CURRENT_CTX")) for e in order(p, "resolve")):
        return "no earlier declaration in the scope is looked for"
    prev = prev[0]
    if k == "T_FN":
        same = z3.And(prev.base != ZERO64, tobool(p.is_tag(prev, "T_EXT_FUNC")))
        if die:
            return None if valid(p, z3.And(prev.base != ZERO64, z3.Not(same))) else "a function is refused"
        if not eq(p.val, name) or not eq(p.get(d, "tFN_RET_TYPE"), ty):
            return "the function isn't complete"
        if acts:
            v = acts[-1][2]
            if not (p.fresh(v) and p.is_tag(v, "T_EXT_FUNC") is True and eq(p.get(v, "tEXT_FUNC_FN"), d)):
                return "not the external function is declared"
            if not valid(p, z3.Not(same)):
                return "a declaration that is repeated is refused"
            return declares(p, acts, name, v)
        return None if valid(p, prev.base != ZERO64) else "the function isn't declared"
    if k != "T_IDENTIFIER":
        return "a declarator's kind isn't looked at"
    if prev.base is not None and valid(p, prev.base != ZERO64):
        if acts:
            return "a name is declared again"
        if die:
            return None if valid(p, z3.Not(z3.And(tobool(p.is_tag(prev, "T_LIVE_VAR")),
                                                  TAG(p.get(prev, "tLV_TYPE").base) == tagterm(p, ty)))) else "a declaration that is repeated is refused"
        return None if eq(p.val, d) else "the name isn't the result"
    sym = symbol_of(p, d)
    if sym is None:
        return "the symbol isn't looked up"
    if die:
        return None if valid(p, sym.base == ZERO64) else "an external object is refused"
    v = acts[-1][2] if acts else NULL
    if not (acts and p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and eq(p.get(v, "tLV_TYPE"), ty) and eq(p.get(v, "tLV_VAL"), sym)):
        return "not the external object is declared"
    return declares(p, acts, d, v) or (None if eq(p.val, d) else "the name isn't the result")


def tagterm(p, x):
    t = p.E.tag(p.st, x)
    return z3.BitVecVal(t, 32) if isinstance(t, int) else t


DECLARE = [ptr_type] + [chain_has(t) for t in ("T_TYPEDEF", "T_EXTERN", "T_STATIC")] + [
    decl, declarator, over_all("typedef", "handle_typedef"), over_all("extern", "handle_extern_decls"), typedef, extern]
