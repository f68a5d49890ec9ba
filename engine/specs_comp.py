"""C08, C10, C13: structures, unions, enumerations."""
import z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_scope import order, valid, is_const, enum_value, c_resolve, c_search, mapped, entries, MAPS
from specs_decl import (logged, sym_tree, declaration_contracts, before, PTRT, other, c_ptr_type, strip)

W = 64


def c_compound(E, st, a):
    """resolve_compound: what the tag denotes in the scope (obligations
    tags/...)"""
    r = sym_tree(E, st, "tagged")
    if E.choose(st, r.base == ZERO64):
        st.events.append(("compound", a[0], a[1], NULL, False))
        return NULL
    st.nonnull[r.base.get_id()] = True
    inc = E.M.tag("E_INCOMP_TYPE")
    E.assume_tags(st, r, E.M.tagset("T_DECL_COMPOUND", "E_INCOMP_TYPE"))
    done = not E.choose(st, TAG(r.base) == inc)
    st.dom[r.base.get_id()] = E.M.tagset("T_DECL_COMPOUND" if done else "E_INCOMP_TYPE")
    st.events.append(("compound", a[0], a[1], r, done))
    return r


c_map = logged("maptag", None)


# ---- forward declarations ----------------------------------------------------------------
def forward(S):
    """a tag that isn't known yet becomes that of an incomplete type"""
    G = Group(S, "handle_forward_decl")
    E = G.E
    E.contracts["resolve_compound"] = c_compound
    E.contracts["map_compound"] = c_map
    st = G.state()
    t = G.node(st, "t", "T_DECL_COMPOUND")
    tag = G.operand(st, t, "tCOMP_DECL_ID", "T_IDENTIFIER")
    st.pc.append(E.get(st, t, "tCOMP_DECL_DECLS").base == ZERO64)
    for p in G.paths(G.run(st, "handle_forward_decl", [t])):
        G.frame(p)
        r, m = order(p, "compound"), order(p, "maptag")
        if not p.require("known", len(r) == 1 and valid(p, p.ptr_eq(r[0][1], t)) and is_const(p, r[0][2], enum_value(S, "SCOPE_GLOBAL")),
                         "the tag isn't looked for"):
            continue
        p.require("result", p.ptr_eq(p.val, tag), "the tag isn't the result")
        if valid(p, r[0][3].base != ZERO64):
            p.require("again", not m, "a known tag is declared again")
        else:
            p.require("new", len(m) == 1 and valid(p, p.ptr_eq(m[0][1], t)) and p.fresh(m[0][2]) and p.is_tag(m[0][2], "E_INCOMP_TYPE") is True,
                      "the tag isn't that of a new incomplete type")
    return G


forward.group = "handle_forward_decl"


# ---- layout ---------------------------------------------------------------------------------
LAYOUT = ("tCOMP_DECL_DECLS", "tCOMP_DECL_SZ", "tCOMP_DECL_ALIGN", "tCOMP_DECL_EXPANDED")


def pow2(x):
    return z3.And(x != 0, (x & (x - 1)) == 0, z3.ULE(x, z3.BitVecVal(16, W)))


def small(x):
    """types are smaller than 2^30 bytes"""
    return z3.ULT(x, z3.BitVecVal(1 << 30, W))


def c_size(E, st, a):
    """get_size_of_type (obligations get_size_of_type/...)"""
    r = E.fresh("size", z3.BitVecSort(W))
    st.pc.append(small(r))
    st.events.append(("size", a[0], r))
    return r


def c_align(E, st, a):
    """get_alignment_for_type (obligations get_alignment_for_type/...)"""
    r = E.fresh("align", z3.BitVecSort(W))
    st.pc.append(pow2(r))
    st.events.append(("align", a[0], r))
    return r


def c_expand(E, st, a):
    """expand_decl_chain: one declaration per member (obligations
    expand_decl_chain/...)"""
    contracts.havoc_call(E, st, "expand")
    r = sym_tree(E, st, "members")
    E.assume_nonnull(st, r.base)
    E.assume_tags(st, r, E.M.tagset("CHAIN_HEAD"))
    st.events.append(("expand", a[0], r))
    return r


def up(x, a):
    """the smallest multiple of a that isn't below x"""
    return z3.If(z3.URem(x, a) == 0, x, x + (a - z3.URem(x, a)))


def w64(v):
    v = tobv(v, 64) if isinstance(v, int) else v
    return z3.SignExt(64 - v.size(), v) if v.size() < 64 else v


def compound(S, kind, form):
    """the loop's invariants: the alignment is a power of two, sizes are small,
    and what is found never to change keeps its first value"""
    drop = set()
    while True:
        n = len(drop)
        G = compound_(S, kind, form, drop)
        if len(drop) == n:
            return G


def compound_(S, kind, form, drop):
    G = Group(S, "T_DECL_COMPOUND/%s/%s" % (kind, form))
    E = G.E
    for k, c in (("resolve_compound", c_compound), ("map_compound", c_map), ("handle_forward_decl", logged("handle_forward", "forward")),
                 ("handle_declarator", logged("declarator", "declared", True, ("T_IDENTIFIER",))), ("expand_decl_chain", c_expand), ("get_size_of_type", c_size),
                 ("get_alignment_for_type", c_align)):
        E.contracts[k] = c

    def c_member(E, st, a):
        r = c_resolve(E, st, a)
        E.assume_nonnull(st, r.base)
        return r
    E.contracts["__resolve_identifier"] = c_member
    E.on_elem = lambda E, st, h, el: G.as_node(st, el, "T_DECL")

    def on_loop(E, st, key, entry, phis):
        for r, v in phis.items():
            if isinstance(v, Ptr) or key[0] != "eval_decl_compound":
                continue
            x = w64(v)
            if r not in drop:
                st.pc.append(x == w64(entry[r]))
            st.pc.append(pow2(x) if const(entry[r]) == 1 else small(x))
    E.on_loop = on_loop
    st = G.state()
    t = G.node(st, "t", "T_DECL_COMPOUND")
    st.pc.append(tobv(E.get(st, t, "tCOMP_DECL_TYPE"), 32) == enum_value(S, {"struct": "sstruct", "union": "uunion"}[kind]))
    tag = G.as_tree(st, E.get(st, t, "tCOMP_DECL_ID"))
    ds = G.as_tree(st, E.get(st, t, "tCOMP_DECL_DECLS"))
    # what the program's text says isn't a laid out type
    st.pc.append(tobv(E.get(st, t, "tCOMP_DECL_EXPANDED"), 8) == 0)
    if form == "name":
        st.pc.append(ds.base == ZERO64)
        G.as_node(st, tag, "T_IDENTIFIER")
    else:
        G.as_node(st, ds, "CHAIN_HEAD")
        if form == "tag":
            G.as_node(st, tag, "T_IDENTIFIER")
        else:
            st.pc.append(tag.base == ZERO64)
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back") + (("die",) if form == "tag" else ())):
        if form == "name":
            why = by_name(G, p, t)
            p.require("denotes", why is None, why or "")
            G.frame(p)
            continue
        obj = declared_tag(G, p, t, form)
        if not p.require("declared", not isinstance(obj, str), str(obj)):
            continue
        if p.out.kind == "die":
            continue
        for lp in order(p, "loop"):
            for r, v in lp[3].items():
                if p.out.kind == "back" and not isinstance(v, Ptr) and r not in drop and not valid(p, w64(order(p, "back")[-1][2][r]) == w64(lp[2][r])):
                    drop.add(r)
        why = layout(G, p, t, ds, obj, kind)
        p.require("layout", why is None, why or "")
        G.frame(p, stores=[(obj.base, a) for a in LAYOUT] + members(p)) if p.fresh(obj) else completed(G, p, t, obj)
    return G


def members(p):
    return [(e[6][3], a) for e in p.ev("loop") if e[6] and e[6][0] == "elem" for a in ("tDECL_OFFSET", "tDECL_SZ")]


def const(v):
    if isinstance(v, int):
        return v
    v = z3.simplify(v)
    return v.as_long() if z3.is_bv_value(v) else None


def completed(G, p, t, obj):
    """an incomplete type is completed: it's the only object that is overwritten"""
    tc = p.ev("treecopy")
    evs = [e for e in p.st.events if e[0] != "treecopy"]
    saved, p.st.events = p.st.events, evs
    try:
        G.frame(p, stores=[(obj.base, a) for a in LAYOUT] + members(p))
    finally:
        p.st.events = saved
    p.require("completes", len(tc) == 1 and valid(p, z3.And(tc[0][1] == obj.base, tc[0][2] == t.base)), "another object is overwritten")


def by_name(G, p, t):
    """struct tag without members: what the tag denotes, after a declaration of
    it as incomplete if that's nothing yet"""
    ev = order(p, "compound", "maptag", "handle_forward", "expand", "declarator")
    glob = enum_value(G.S, "SCOPE_GLOBAL")
    look = lambda e: e[0] == "compound" and valid(p, p.ptr_eq(e[1], t)) and is_const(p, e[2], glob)
    # the declaration leaves a tag alone that denotes something (handle_forward_decl's own obligations)
    fwd = lambda e: e[0] == "handle_forward" and valid(p, p.ptr_eq(e[1], t))
    if not any(look(e) for e in ev):
        return "the tag isn't looked for"
    if not all(look(e) or fwd(e) for e in ev):
        return "something else is declared"
    for i, e in enumerate(ev):
        if look(e) and valid(p, p.ptr_eq(p.val, e[3])):
            if any(fwd(f) for f in ev[:i]) or valid(p, e[3].base != ZERO64):
                return None
    return "the tag isn't declared as incomplete" if not any(fwd(e) for e in ev) else "not what the tag denotes"


def declared_tag(G, p, t, form):
    """the object that the type becomes, or what's wrong"""
    ev = order(p, "compound", "maptag", "handle_forward")
    if form == "anonymous":
        if ev:
            return "a type without a tag is declared"
        x = order(p, "expand")
        return copied(G, p, t, None)
    if not ev or ev[0][0] != "compound" or not valid(p, p.ptr_eq(ev[0][1], t)) or not is_const(p, ev[0][2], enum_value(G.S, "SCOPE_CURRENT_CTX")):
        return "no earlier declaration in the scope is looked for"
    prev = ev[0][3]
    none = prev.base.eq(ZERO64) or valid(p, prev.base == ZERO64)
    if p.out.kind == "die":
        return t if not none and ev[0][4] else "a declaration is refused"
    if none:
        if [e[0] for e in ev] != ["compound", "maptag"] or not valid(p, p.ptr_eq(ev[1][1], ev[1][2])):
            return "the tag isn't declared"
        return copied(G, p, t, ev[1][2])
    if ev[0][4]:
        return "a type is defined twice in one scope"
    if len(ev) != 1 or len(p.ev("treecopy")) != 1:
        return "an incomplete type isn't completed"
    return prev


def copied(G, p, t, m):
    if m is None:
        # a type without a tag
        new = [Ptr(b) for kind, birth, b in p.st.kind.values() if kind == "fresh" and p.is_tag(Ptr(b), "T_DECL_COMPOUND") is True]
        if len(new) != 1:
            return "%d types are made" % len(new)
        m = new[0]
    if not p.fresh(m) or p.is_tag(m, "T_DECL_COMPOUND") is not True:
        return "the type isn't an object of its own"
    if not valid(p, tobv(p.get(m, "tCOMP_DECL_TYPE"), 32) == tobv(before(p, t, "tCOMP_DECL_TYPE"), 32)):
        return "not the type that was declared"
    return m


def layout(G, p, t, ds, obj, kind):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    ex = order(p, "expand")
    if len(ex) != 1 or not eq(ex[0][1], ds):
        return "not the members are gone through"
    lp = [e for e in order(p, "loop") if e[6] is not None]
    if len(lp) != 1 or not valid(p, lp[0][6][1] == ex[0][2].base):
        return "not each member is laid out"
    lp = lp[0]
    ring = lp[6]
    ints = [r for r, v in loop_ints(lp)]
    ones = [r for r in ints if const(lp[2][r]) == 1]
    zeros = [r for r in ints if const(lp[2][r]) == 0]
    if len(ones) != 1:
        return "the alignment doesn't start at 1"
    al = ones[0]
    why = "the size doesn't start at 0"
    for o in zeros:
        # which of the running values is the one that's meant is up to the code
        why = step(p, lp, ring, o, al, obj, kind, ds)
        if why is None:
            return None
    return why


def step(p, lp, ring, o, al, obj, kind, ds):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    off0, al0 = w64(lp[3][o]), w64(lp[3][al])
    if ring[0] == "end":
        if p.out.kind != "ret" or not eq(p.val, obj):
            return "the type isn't the result"
        size = w64(tobv(p.get(obj, "tCOMP_DECL_SZ"), 64))
        if not valid(p, w64(tobv(p.get(obj, "tCOMP_DECL_ALIGN"), 64)) == al0):
            return "the alignment isn't the members' largest"
        if not valid(p, size == up(off0, al0)):
            return "the size isn't that of the members, rounded up to the alignment"
        if not valid(p, tobv(p.get(obj, "tCOMP_DECL_EXPANDED"), 8) != 0):
            return "the type isn't complete"
        return None
    el = Ptr(ring[3])
    if p.out.kind != "back":
        return "not every member is laid out"
    back = order(p, "back")[-1][2]
    h = E.ring_of(back[ring[2]])
    if h is None or not h.base.eq(el.base):
        return "members are skipped"
    dcl, rs, sz, an = order(p, "declarator"), order(p, "resolve"), order(p, "size"), order(p, "align")
    if len(dcl) != 1 or not (eq(dcl[0][1], p.get(el, "tDECL_DECLS")) and eq(dcl[0][2], p.get(el, "tDECL_TYPE"))):
        return "not the member is declared"
    if len(rs) != 1 or not eq(rs[0][1], dcl[0][-1]) or not is_const(p, rs[0][2], enum_value(p.G.S, "SCOPE_CURRENT_CTX")):
        return "not the member's object is looked at"
    if len(sz) != 1 or len(an) != 1 or not (eq(sz[0][1], rs[0][4]) and eq(an[0][1], rs[0][4])):
        return "not the member's size and alignment are used"
    s, a = sz[0][2], an[0][2]
    offset = w64(tobv(p.get(el, "tDECL_OFFSET"), 64))
    if not valid(p, w64(tobv(p.get(el, "tDECL_SZ"), 64)) == s):
        return "not the member's size"
    want = up(off0, a) if kind == "struct" else z3.BitVecVal(0, 64)
    if not valid(p, offset == want):
        return "the member's offset isn't the next that its alignment allows" if kind == "struct" else "a member isn't at the start"
    if not valid(p, w64(back[al]) == z3.If(z3.UGT(a, al0), a, al0)):
        return "the alignment isn't the members' largest"
    nxt = want + s if kind == "struct" else z3.If(z3.UGT(s, off0), s, off0)
    if not p.E.S.valid(st.pc + [small(nxt)], w64(back[o]) == nxt)[0]:
        return "the size isn't that of the members"
    return None


def compound_group(k, f):
    g = lambda S: compound(S, k, f)
    g.group = "T_DECL_COMPOUND/%s/%s" % (k, f)
    return g


COMPOUND = [forward] + [compound_group(k, f) for k in ("struct", "union") for f in ("name", "tag", "anonymous")]


# ---- enumerations -----------------------------------------------------------------------------
def enumerator(form):
    def f(S):
        G = Group(S, "T_ENUMERATOR/" + form)
        E = G.E
        E.contracts["map_identifier"] = logged("declare", None)
        E.contracts["__resolve_identifier"] = c_resolve

        def elem(E, st, h, el):
            G.as_node(st, el, "T_IDENTIFIER", "T_ASSIGN")
            # (of an assignment; an identifier has no such members)
            G.operand(st, el, "tASSIGN_LHS", "T_IDENTIFIER")
            G.operand(st, el, "tASSIGN_RHS", *[n for i, n in enumerate(E.M.names) if n == "T_INTEGER" or i not in contracts.self_tags(E)])
        E.on_elem = elem

        def on_eval(E, st, t, r):
            G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
            G.lv(st, r, *INT_TYPES)
            return r
        E.on_eval = on_eval
        st = G.state()
        t = G.node(st, "t", "T_ENUMERATOR")
        es, tag = G.as_tree(st, E.get(st, t, "tENUM_ENUMS")), G.as_tree(st, E.get(st, t, "tENUM_NAME"))
        if form == "name":
            st.pc.append(es.base == ZERO64)
        else:
            G.as_node(st, es, "CHAIN_HEAD")
        if form == "anonymous":
            st.pc.append(tag.base == ZERO64)
        else:
            G.as_node(st, tag, "T_IDENTIFIER")
        m = E.get(st, st.ghost["ctx0"], MAPS["STRUCT"])
        oks = {"name": ("ret", "die"), "tag": ("ret", "back", "die"), "anonymous": ("ret", "back")}[form]
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=oks):
            r = order(p, "resolve")
            scope = "SCOPE_GLOBAL" if form == "name" else "SCOPE_CURRENT_CTX"
            if form != "anonymous" and not p.require("known", len(r) == 1 and valid(p, p.ptr_eq(r[0][1], tag)) and is_const(p, r[0][2], enum_value(S, scope))
                                                     and is_const(p, r[0][3], enum_value(S, "STRUCT_TYPE")), "the tag isn't looked for"):
                continue
            if form == "name":
                c = z3.And(r[0][4].base != ZERO64, tobool(p.is_tag(r[0][4], *E.M.ctypes)))
                if p.out.kind == "ret":
                    G.frame(p)
                    p.require("denotes", z3.And(c, tobool(p.ptr_eq(p.val, r[0][4]))), "not the type that the tag denotes")
                else:
                    p.require("unknown", z3.Not(c), "a declared tag is refused")
                continue
            if p.out.kind == "die":
                p.require("again", r[0][4].base != ZERO64, "a first declaration is refused")
                continue
            G.frame(p, appends=entries(G, m))
            if form == "tag":
                p.require("first", r[0][4].base == ZERO64, "a tag is declared again")
            why = enum_path(G, p, t, es, tag, m, form)
            p.require("values", why is None, why or "")
        return G
    f.group = "T_ENUMERATOR/" + form
    return f


def enum_path(G, p, t, es, tag, m, form):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    lp = [e for e in order(p, "loop") if e[6] is not None]
    if len(lp) != 1 or not valid(p, lp[0][6][1] == es.base):
        return "not every enumerator is declared"
    lp = lp[0]
    ring = lp[6]
    ints = [r for r, v in loop_ints(lp)]
    if len(ints) != 1 or const(lp[2][ints[0]]) != 0:
        return "the first value isn't zero"
    new = [e for e in order(p, "append") if p.names(Ptr(e[1])) == {"E_MAP"}]
    if form == "tag":
        ty = p.get(Ptr(new[0][1]), "tEMAP_RIGHT") if new else NULL
        why = mapped(G, p, tag, ty, m)
        if why:
            return why
    elif new:
        return "a tag is declared"
    if ring[0] == "end":
        if p.out.kind != "ret" or order(p, "declare", "eval"):
            return "something happens after the last enumerator"
        if not p.fresh(p.val) or p.is_tag(p.val, "D_T_INT", "D_T_UINT") is not True:
            return "the type isn't an integer type"
        return None if form != "tag" or eq(ty, p.val) else "the tag doesn't denote the type"
    el = Ptr(ring[3])
    if p.out.kind != "back":
        return "not every enumerator is declared"
    back = order(p, "back")[-1][2]
    h = E.ring_of(back[ring[2]])
    if h is None or not h.base.eq(el.base):
        return "enumerators are skipped"
    d = order(p, "declare")
    if len(d) != 1:
        return "%d names are declared" % len(d)
    v = d[0][2]
    if not p.fresh(v) or p.is_tag(v, "T_INTEGER") is not True:
        return "the enumerator isn't a constant of its own"
    cur = lp[3][ints[0]]
    if p.names(el) == {"T_ASSIGN"}:
        name, x = p.get(el, "tASSIGN_LHS"), p.get(el, "tASSIGN_RHS")
        evs = p.evals()
        if len(evs) == 1 and evs[0][1].eq(x.base):
            want = int_val(p, evs[0][2], evs[0][4])
        elif not evs and p.names(x) == {"T_INTEGER"}:
            want = p.get(x, "tINT_VAL")
        else:
            return "the value isn't evaluated once"
    else:
        name, want = el, num(tobv(cur, 64), True)
        if p.evals():
            return "something is evaluated"
    if not eq(d[0][1], name):
        return "another name is declared"
    lo, hi = -(1 << 31), (1 << 31) - 1
    fits = z3.And(want >= lo, want <= hi)
    if not valid(p, z3.Implies(fits, p.get(v, "tINT_VAL") == want)):
        return "not the enumerator's value"
    if not valid(p, z3.Implies(fits, w64(back[ints[0]]) == i2b(want) + 1)):
        return "the next value isn't one more"
    return None


ENUM = [enumerator(f) for f in ("name", "tag", "anonymous")]


# ---- members ---------------------------------------------------------------------------------
def expand(S):
    """one declaration for each declarator of each member, with the type that
    the specifiers denote where the type is defined"""
    G = Group(S, "expand_decl_chain")
    E = G.E
    E.contracts["resolve_decl_specs_to_type"] = logged("spectype", "type", True)
    st = G.state()
    ds = G.node(st, "decls", "CHAIN_HEAD")
    for p in G.paths(G.run(st, "expand_decl_chain", [ds, G.depth()]), ok=("ret", "back")):
        G.frame(p, appends=lambda p, new, head: True)
        why = expand_path(G, p, ds)
        p.require("each", why is None, why or "")
    return G


expand.group = "expand_decl_chain"


def expand_path(G, p, ds):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    lps = [e for e in order(p, "loop") if e[6] is not None]
    if not lps or not valid(p, lps[0][6][1] == ds.base):
        return "not all members are gone through"
    outer = lps[0]
    app = [e for e in order(p, "append")]
    ring = outer[6]
    if ring[0] == "end":
        if p.out.kind != "ret" or app or not p.fresh(p.val) or p.is_tag(p.val, "CHAIN_HEAD") is not True:
            return "the result isn't the new members' list"
        return None
    if p.out.kind != "back":
        return "not every member is declared"
    el = Ptr(ring[3])
    b = order(p, "back")[-1]
    last = b[1]

    def nxt(lp, el):
        h = E.ring_of(b[2][lp[6][2]])
        return h is not None and h.base.eq(el.base)
    isdecl = tobool(p.is_tag(el, "T_DECL"))
    ty = order(p, "spectype")
    if not ty:
        if not valid(p, z3.Not(isdecl)) or app or p.evals():
            return "a member is left out"
        return None if nxt(outer, el) else "members are skipped"
    if len(ty) != 1 or not valid(p, isdecl) or not eq(ty[0][1], p.get(el, "tDECL_SPECS")):
        return "not the member's specifiers are used"
    t = ty[0][2]
    named = tobool(p.is_tag(t, "T_IDENTIFIER", "T_DECL_COMPOUND", "T_ENUMERATOR"))
    evs = p.evals()
    if evs:
        if len(evs) != 1 or not evs[0][1].eq(t.base) or not valid(p, named):
            return "something else is evaluated"
        t = evs[0][2]
    elif not valid(p, z3.Not(named)):
        return "a type's name isn't resolved"
    decls = p.get(el, "tDECL_DECLS")
    if len(lps) == 1:
        if app or not valid(p, decls.base == ZERO64):
            return "a member is left out"
        return None if nxt(outer, el) else "members are skipped"
    inner = lps[1]
    r2 = inner[6]
    if len(lps) != 2 or not valid(p, r2[1] == decls.base):
        return "not all declarators are gone through"
    if r2[0] == "end":
        return None if not app and last == outer[1] and nxt(outer, el) else "something is declared after the last declarator"
    d = Ptr(r2[3])
    if last != inner[1] or not nxt(inner, d):
        return "declarators are skipped"
    nameless = z3.And(tobool(p.is_tag(d, "T_BITFIELD")), p.get(d, "tBITFIELD_DECLARATOR").base == ZERO64)
    if not app:
        return None if valid(p, nameless) else "a declarator is left out"
    if len(app) != 1 or not valid(p, z3.Not(nameless)):
        return "not one declaration for a declarator"
    new, head = Ptr(app[0][1]), Ptr(app[0][2])
    if app[0][3] != "tail" or not p.fresh(head) or p.is_tag(head, "CHAIN_HEAD") is not True:
        return "the member isn't appended to the list"
    if not (p.fresh(new) and p.is_tag(new, "T_DECL") is True and eq(p.get(new, "tDECL_DECLS"), d) and eq(p.get(new, "tDECL_TYPE"), t)
            and eq(p.get(new, "tDECL_SPECS"), p.get(el, "tDECL_SPECS"))):
        return "not the declarator with its type is declared"
    return None


# ---- alignment and size ------------------------------------------------------------------------
def alignment(S):
    G = Group(S, "get_alignment_for_type")
    E = G.E

    def c_sz(E, st, a):
        r = E.fresh("size", z3.BitVecSort(W))
        for k in E.tags(st, a[0]):
            n = E.M.names[k]
            if n in SIZEOF:
                st.pc.append(z3.Implies(TAG(a[0].base) == k, r == SIZEOF[n]))
        st.events.append(("size", a[0], r))
        return r
    E.contracts["get_size_of_type"] = c_sz

    def c(E, st, a):
        if not st.ghost.get("entered"):
            st.ghost["entered"] = True
            return Inline("get_alignment_for_type", a)
        return c_align(E, st, a)
    E.contracts["get_alignment_for_type"] = c
    basic = [n for n in E.M.ctypes if n in SIZEOF]
    for kind in ("T_LIVE_VAR", "T_LIVE_COMPOUND", "T_DECL_COMPOUND", "type"):
        st = G.state()
        st.ghost["entered"] = True
        t = G.node(st, "t", *(SIZEOF if kind == "type" else [kind]))
        if kind == "T_LIVE_VAR":
            lt = E.get(st, t, "tLV_TYPE")
            G.as_node(st, lt, *SIZEOF)
            G.as_tree(st, E.get(st, lt, "tDTPTR_EXP"))
            G.operand(st, lt, "tDTPTR_EXP")
            # an array's type is a pointer (instantiate_array/...)
            st.pc.append(z3.Implies(tobv(E.get(st, t, "tLV_IS_ARRAY"), 8) != 0, TAG(lt.base) == E.M.tag("D_T_PTR")))
        if kind == "T_DECL_COMPOUND":
            # a complete type's alignment was computed by T_DECL_COMPOUND/layout
            st.pc.append(pow2(tobv(E.get(st, t, "tCOMP_DECL_ALIGN"), 64)))
        for p in G.paths(G.run(st, "get_alignment_for_type", [t, G.depth()]), kind + "/total"):
            G.frame(p)
            v = tobv(p.val, 64)
            rec = order(p, "align")
            if kind == "type":
                c = z3.And([z3.Implies(tobool(p.is_tag(t, n)), v == SIZEOF[n]) for n in p.names(t)])
            elif kind == "T_DECL_COMPOUND":
                c = v == tobv(p.get(t, "tCOMP_DECL_ALIGN"), 64)
            elif kind == "T_LIVE_COMPOUND":
                c = len(rec) == 1 and z3.And(tobool(p.ptr_eq(rec[0][1], p.get(t, "tLV_COMP_DECL"))), v == rec[0][2])
            else:
                lt = p.get(t, "tLV_TYPE")
                arr = tobv(p.get(t, "tLV_IS_ARRAY"), 8) != 0
                if rec:
                    c = z3.And(arr, z3.BoolVal(len(rec) == 1), tobool(p.ptr_eq(rec[0][1], p.get(lt, "tDTPTR_EXP"))), v == rec[0][2])
                else:
                    c = z3.And(z3.Not(arr), *[z3.Implies(tobool(p.is_tag(lt, n)), v == SIZEOF[n]) for n in p.names(lt)])
            p.require(kind + "/alignment", c, "not the platform's alignment")
            p.require(kind + "/power", pow2(v), "not a power of two")
    return G


alignment.group = "get_alignment_for_type"


def size_of(S):
    """the value that sizeof yields (C12)"""
    G = Group(S, "get_size_of_type")
    E = G.E
    val = E.fresh("sizeof", z3.BitVecSort(W))
    for kind in ("compound", "other"):
        st = G.state()

        def c_szof(E, st, t):
            # T_SIZEOF/...: a new unsigned long
            st.events.append(("sizeof", E.get(st, t, "tSZOF_EXP")))
            lv = contracts.alloc_tree(E, st, [])
            E.tree_store(st, lv.base, 0, 4, E.M.tag("T_LIVE_VAR"), ('int', 32))
            ty = contracts.alloc_tree(E, st, [])
            E.tree_store(st, ty.base, 0, 4, E.M.tag("D_T_ULONG"), ('int', 32))
            E.tree_store(st, lv.base, E.M.off("tLV_TYPE"), 8, ty, PTRT)
            blk = contracts.new_block(E, st, 16, "malloc")
            E.tree_store(st, lv.base, E.M.off("tLV_VAL"), 8, blk, PTRT)
            E.payload_store(st, blk, val, ('int', 64))
            return lv
        E.node_contracts["T_SIZEOF"] = c_szof
        t = G.node(st, "t", "T_DECL_COMPOUND") if kind == "compound" else other(G, st, G.node(st, "t"), "T_DECL_COMPOUND")
        for p in G.paths(G.run(st, "get_size_of_type", [t, G.depth()]), kind + "/total"):
            G.frame(p)
            s = order(p, "sizeof")
            v = tobv(p.val, 64)
            if s:
                p.require(kind + "/size", z3.And(z3.BoolVal(len(s) == 1), tobool(p.ptr_eq(s[0][1], t)), v == val), "not the type's size")
            else:
                p.require(kind + "/size", kind == "compound" and z3.And(tobv(p.get(t, "tCOMP_DECL_SZ"), 64) != 0, v == tobv(p.get(t, "tCOMP_DECL_SZ"), 64)),
                          "not the type's size")
    return G


size_of.group = "get_size_of_type"

MEMBERS = [expand, alignment, size_of]


# ---- objects -------------------------------------------------------------------------------------
def ptr_plus(p, base, off):
    return simp(base.term() + off)


def element(S):
    """a member of an object: an object of the member's type at the member's
    offset, under the member's name"""
    G = Group(S, "instantiate_struct_element")
    E = G.E
    E.contracts["instantiate_array"] = logged("array_at", "array", True, ("T_LIVE_VAR",))
    E.contracts["instantiate_struct"] = logged("struct_at", "struct", True, ("T_LIVE_COMPOUND",))
    for kind in ("T_IDENTIFIER", "T_ARRAY", "T_BITFIELD", "T_POINTER", "T_FN"):
        def c_ptr(E, st, a, k=c_ptr_type):
            r = k(E, st, a)
            x = E.load(st, a[0], PTRT)
            G.as_node(st, x, "T_IDENTIFIER", "T_ARRAY", *(["T_BITFIELD"] if kind == "T_BITFIELD" else []))
            G.operand(st, x, "tARRAY_DECL", "T_IDENTIFIER")
            return r
        E.contracts["resolve_ptr_type"] = c_ptr
        st = G.state()
        t = G.node(st, "decl", "T_DECL")
        obj = G.node(st, "object", "T_LIVE_COMPOUND")
        d = G.operand(st, t, "tDECL_DECLS", kind)
        ty = G.operand(st, t, "tDECL_TYPE")
        if kind == "T_FN":
            G.operand(st, d, "tFN_DECL", "T_POINTER")
        if kind == "T_BITFIELD":
            G.operand(st, d, "tBITFIELD_DECLARATOR", "T_IDENTIFIER")
        m = E.get(st, obj, "tLV_COMP_MEMBERS")
        for p in G.paths(G.run(st, "instantiate_struct_element", [t, obj, G.depth()]), kind + "/total", ok=("ret", "die")):
            s = strip(p, *stripped(p, d, ty))
            if not p.require(kind + "/pointers", s is not None and (s[2] == 1 or kind not in ("T_POINTER", "T_FN")), "the pointers aren't taken off"):
                continue
            why = element_path(G, p, t, obj, m, s[0], s[1], kind, d, ty)
            p.require(kind + "/member", why is None, why or "")
            if p.out.kind == "ret":
                G.frame(p, name=kind + "/frame", appends=entries(G, m))
    return G


element.group = "instantiate_struct_element"


def stripped(p, d, ty):
    if p.names(d) != {"T_FN"}:
        return d, ty
    e = order(p, "pointers")
    return (p.get(d, "tFN_DECL"), e[0][2]) if e else (d, ty)


def element_path(G, p, t, obj, m, d, ty, kind, d0, ty0):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    if kind == "T_FN":
        f = order(p, "pointers")[0][2]
        if not (p.fresh(f) and p.is_tag(f, "T_FN") is True and eq(p.get(f, "tFN_RET_TYPE"), ty0) and eq(p.get(f, "tFN_ARGS"), p.get(d0, "tFN_ARGS"))):
            return "another function type"
    ns = p.names(d)
    if len(ns) > 1 and p.out.kind != "die":
        return "a declarator's kind isn't looked at"
    if ns == {"T_BITFIELD"}:
        d = p.get(d, "tBITFIELD_DECLARATOR")
        ns = p.names(d)
    at = ptr_plus(p, p.get(obj, "tLV_COMP_BASE"), tobv(p.get(t, "tDECL_OFFSET"), 64))
    acts = order(p, "array_at", "struct_at")
    arrt = p.is_tag(ty, "T_ARRAY_TYPE")
    if p.out.kind == "die":
        # (arrays of arrays aren't supported)
        c = z3.Or(z3.Xor(tobool(p.is_tag(d, "T_ARRAY")), tobool(arrt)), tobool(p.is_tag(ty, "T_DECL_COMPOUND", *E.M.ctypes)))
        return None if valid(p, z3.Not(c)) else "a member is refused"
    new = [e for e in order(p, "append") if p.names(Ptr(e[1])) == {"E_MAP"}]
    if len(new) != 1:
        return "%d members are made" % len(new)
    v = p.get(Ptr(new[0][1]), "tEMAP_RIGHT")
    name = p.get(d, "tARRAY_DECL") if ns == {"T_ARRAY"} else d
    why = mapped(G, p, name, v, m)
    if why:
        return why
    if ns == {"T_ARRAY"} or valid(p, tobool(arrt)):
        if len(acts) != 1 or acts[0][0] != "array_at" or not eq(v, acts[0][-1]):
            return "the member isn't an array"
        a, bt, addr, ln = acts[0][1:5]
        if valid(p, tobool(arrt)):
            if not (p.fresh(a) and p.is_tag(a, "T_ARRAY") is True and eq(p.get(a, "tARRAY_DECL"), d) and eq(bt, p.get(ty, "tARRAY_TYPE_BASE_TYPE"))):
                return "another array is made"
        elif not (valid(p, z3.Not(tobool(arrt))) and eq(a, d) and eq(bt, ty)):
            return "another array is made"
        if not valid(p, addr.term() == at):
            return "the member isn't at its offset"
        return None if valid(p, tobv(ln, 64) == tobv(p.get(t, "tDECL_SZ"), 64)) else "the array has another size"
    if acts:
        if [e[0] for e in acts] != ["struct_at"] or not eq(v, acts[0][-1]) or not eq(acts[0][1], ty) or not valid(p, tobool(p.is_tag(ty, "T_DECL_COMPOUND"))):
            return "another object is made"
        return None if valid(p, acts[0][3].term() == at) else "the member isn't at its offset"
    if not (p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and eq(p.get(v, "tLV_TYPE"), ty)):
        return "not an object of the member's type"
    if not valid(p, tobool(p.is_tag(ty, *E.M.ctypes))):
        return "a member of another kind of type is made a variable"
    if not valid(p, tobv(p.get(v, "tLV_IS_ARRAY"), 8) == 0):
        return "the member is taken for an array"
    return None if valid(p, p.get(v, "tLV_VAL").term() == at) else "the member isn't at its offset"


def struct_object(S):
    """an object has every member once, in order"""
    G = Group(S, "instantiate_struct")
    E = G.E
    E.contracts["instantiate_struct_element"] = logged("member", None)
    st = G.state()
    t = G.node(st, "t", "T_DECL_COMPOUND")
    st.pc.append(tobv(E.get(st, t, "tCOMP_DECL_EXPANDED"), 8) != 0)
    ds = G.operand(st, t, "tCOMP_DECL_DECLS", "CHAIN_HEAD")
    base = E.sym_ptr(st, "base")
    for p in G.paths(G.run(st, "instantiate_struct", [t, G.depth(), base]), ok=("ret", "back")):
        G.frame(p)
        why = struct_path(G, p, t, ds, base)
        p.require("members", why is None, why or "")
    return G


struct_object.group = "instantiate_struct"


def struct_path(G, p, t, ds, base):
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    lp = [e for e in order(p, "loop") if e[6] is not None]
    if len(lp) != 1 or not valid(p, lp[0][6][1] == ds.base):
        return "not all members are gone through"
    ring = lp[0][6]
    ms = order(p, "member")
    if ring[0] == "end":
        if ms or p.out.kind != "ret":
            return "something happens after the last member"
        obj = p.val
    else:
        el = Ptr(ring[3])
        h = E_ring(p, ring)
        if p.out.kind != "back" or h is None or not h.base.eq(el.base):
            return "members are skipped"
        if len(ms) != 1 or not eq(ms[0][1], el):
            return "not each member is made once"
        obj = ms[0][2]
    if not p.fresh(obj) or p.is_tag(obj, "T_LIVE_COMPOUND") is not True:
        return "not a new object"
    if not (eq(p.get(obj, "tLV_COMP_DECL"), t) and eq(p.get(obj, "tLV_COMP_BASE"), base)):
        return "not an object of the type at the address"
    mem = p.get(obj, "tLV_COMP_MEMBERS")
    if not p.fresh(mem) or p.is_tag(mem, "CHAIN_HEAD") is not True:
        return "the object shares its members"
    return None


def E_ring(p, ring):
    b = order(p, "back")
    return p.E.ring_of(b[-1][2][ring[2]]) if b else None


def tracked(p, blk):
    """the current scope owns the block"""
    for e in order(p, "append"):
        if p.names(Ptr(e[1])) == {"E_ALLOC"} and valid(p, p.ptr_eq(p.get(Ptr(e[1]), "tALLOC_PTR"), Ptr(blk))):
            return valid(p, p.ptr_eq(Ptr(e[2]), p.get(p.st.ghost["ctx0"], "tECTX_ALLOC_CHAIN")))
    return False


def objects(S):
    """new structures and arrays have storage of their own and of their size"""
    G = Group(S, "alloc")
    E = G.E
    E.contracts["instantiate_struct"] = logged("struct_at", "struct", True, ("T_LIVE_COMPOUND",))
    E.contracts["instantiate_array"] = logged("array_at", "array", True, ("T_LIVE_VAR",))
    sz = E.fresh("arraysize", z3.BitVecSort(64))

    def c_asize(E, st, a):
        st.events.append(("asize", a[0], a[1]))
        return sz
    E.contracts["get_array_size"] = c_asize
    st = G.state()
    t = G.node(st, "t", "T_DECL_COMPOUND")
    for p in G.paths(G.run(st, "alloc_struct", [t, G.depth()]), "struct/total"):
        G.frame(p, name="struct/frame")
        m, s = order(p, "malloc"), order(p, "struct_at")
        p.require("struct/object", len(m) == 1 and len(s) == 1 and p.ptr_eq(s[0][1], t) and valid(p, p.ptr_eq(s[0][1], t)) and
                  valid(p, p.ptr_eq(s[0][3], Ptr(m[0][1]))) and valid(p, p.ptr_eq(p.val, s[0][-1])), "not an object of the type in new storage")
        p.require("struct/storage", len(m) == 1 and valid(p, tobv(m[0][2], 64) == tobv(p.get(t, "tCOMP_DECL_SZ"), 64)) and tracked(p, m[0][1]),
                  "the storage isn't the type's size or isn't owned by the scope")
    st = G.state()
    a, bt = G.node(st, "a", "T_ARRAY"), G.node(st, "type")
    for p in G.paths(G.run(st, "alloc_array", [a, bt, G.depth()]), "array/total"):
        G.frame(p, name="array/frame")
        m, s, q = order(p, "malloc"), order(p, "array_at"), order(p, "asize")
        eq = lambda x, y: valid(p, p.ptr_eq(x, y))
        p.require("array/object", len(m) == 1 and len(s) == 1 and eq(s[0][1], a) and eq(s[0][2], bt) and eq(s[0][3], Ptr(m[0][1])) and
                  valid(p, tobv(s[0][4], 64) == sz) and eq(p.val, s[0][-1]), "not an array of the type in new storage")
        p.require("array/storage", len(m) == 1 and len(q) == 1 and eq(q[0][1], a) and eq(q[0][2], bt) and valid(p, tobv(m[0][2], 64) == sz)
                  and tracked(p, m[0][1]), "the storage isn't the array's size or isn't owned by the scope")
    return G


objects.group = "alloc"


def array_object(S):
    G = Group(S, "instantiate_array")
    E = G.E
    st = G.state()
    a, bt = G.node(st, "a", "T_ARRAY"), G.node(st, "type")
    G.operand(st, a, "tARRAY_DECL", "T_IDENTIFIER")
    base, ln = E.sym_ptr(st, "base"), E.fresh("length", z3.BitVecSort(64))
    for p in G.paths(G.run(st, "instantiate_array", [a, bt, base, ln])):
        G.frame(p)
        v = p.val
        if not p.require("object", p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and G.storage(p, v), "not a new object with storage of its own"):
            continue
        ty = p.get(v, "tLV_TYPE")
        p.require("type", p.fresh(ty) and p.is_tag(ty, "D_T_PTR") is True and p.ptr_eq(p.get(ty, "tDTPTR_EXP"), bt), "not a pointer to the elements' type")
        p.require("start", E.mem_load(p.st.mem, p.get(v, "tLV_VAL").term(), 8) == base.term(), "the array isn't at its storage")
        p.require("array", tobv(p.get(v, "tLV_IS_ARRAY"), 8) == 1, "not an array")
        p.require("length", tobv(p.get(v, "tLV_ARRAY_SZ"), 64) == ln, "the array has another size")
    return G


array_object.group = "instantiate_array"


def array_size(S):
    G = Group(S, "get_array_size")
    E = G.E
    E.contracts["get_size_of_type"] = c_size
    st = G.state()
    a, bt = G.node(st, "a", "T_ARRAY"), G.node(st, "type")
    n = G.operand(st, a, "tARRAY_SZ", *[x for i, x in enumerate(E.M.names) if x == "T_INTEGER" or i not in contracts.self_tags(E)])

    def on_eval(E, st, t, r):
        G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
        G.lv(st, r, *INT_TYPES)
        return r
    E.on_eval = on_eval
    for p in G.paths(G.run(st, "get_array_size", [a, bt, G.depth()])):
        G.frame(p)
        s, evs = order(p, "size"), p.evals()
        if not p.require("operands", len(s) == 1 and valid(p, p.ptr_eq(s[0][1], bt)) and (len(evs) == 1 and evs[0][1].eq(n.base) or not evs and p.names(n) == {"T_INTEGER"}),
                         "not the element's size and the length"):
            continue
        cnt = int_val(p, evs[0][2], evs[0][4]) if evs else p.get(n, "tINT_VAL")
        p.require("size", z3.Implies(cnt >= 0, tobv(p.val, 64) == bvmul(i2b(cnt), s[0][2])), "not the length times the element's size")
    return G


array_size.group = "get_array_size"


def access(S):
    """x.m is the member m of x"""
    G = Group(S, "T_ACCESS")
    E = G.E
    E.contracts["__resolve_id"] = c_search
    st = G.state()
    t = G.node(st, "t", G.M.names[G.M.acc["tCOMP_ACCESS_OBJ"][0]] if isinstance(G.M.acc["tCOMP_ACCESS_OBJ"][0], int) else G.M.acc["tCOMP_ACCESS_OBJ"][0])
    x = G.operand(st, t, "tCOMP_ACCESS_OBJ")
    m = G.operand(st, t, "tCOMP_ACCESS_MEMBER", "T_IDENTIFIER")
    E.on_eval = lambda E, st, t, r: G.as_node(st, r)
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "die")):
        evs, s = p.evals(), order(p, "search")
        r = evs[0][2] if evs else x
        if not p.require("object", (len(evs) == 1 and evs[0][1].eq(x.base)) or (not evs and any(e[1].eq(x.base) for e in order(p, "selfeval"))),
                         "the object isn't evaluated once"):
            continue
        comp = tobool(p.is_tag(r, "T_LIVE_COMPOUND"))
        if p.out.kind == "die":
            p.require("diagnosed", z3.Or(z3.Not(comp), s[0][3].base == ZERO64) if s else z3.Not(comp), "a member's access is refused")
            continue
        G.frame(p)
        p.require("member", len(s) == 1 and valid(p, comp) and valid(p, p.ptr_eq(s[0][1], m)) and valid(p, p.ptr_eq(s[0][2], p.get(r, "tLV_COMP_MEMBERS")))
                  and z3.And(tobool(p.ptr_eq(p.val, s[0][3])), s[0][3].base != ZERO64), "not the member of that name")
    return G


access.group = "T_ACCESS"

OBJECTS = [element, struct_object, objects, array_object, array_size, access]
