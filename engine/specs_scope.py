"""C08: names and scopes."""
import re, z3
from sym import *
from spec import *
import contracts
from ir import Unsupported

MAPS = {"NORMAL": "tECTX_ID_MAP", "STRUCT": "tECTX_STRUCT_ID_MAP", "UNION": "tECTX_UNION_ID_MAP"}


def order(p, *kinds):
    return [e for e in p.st.events if e[0] in kinds]


def valid(p, c):
    return p.E.S.valid(p.st.pc, tobool(c))[0]


def enum_value(S, name):
    """the value of an enumerator of evaluate.c (from its debug information)"""
    if name not in S.tree.enums("evaluate.c"):
        raise Unsupported("no enumerator " + name)
    return S.tree.enums("evaluate.c")[name]


# ---- contracts -----------------------------------------------------------------
def c_search(E, st, a):
    """__resolve_id: what the map has under the name, or nothing (obligations
    __resolve_id/...)"""
    r = E.sym_ptr(st, "found")
    st.ghost[("tree", r.base.get_id())] = True
    st.events.append(("search", a[0], a[1], r))
    return r


def c_resolve(E, st, a):
    """__resolve_identifier: what the name denotes (obligations resolve/...)"""
    r = E.sym_ptr(st, "denoted")
    st.ghost[("tree", r.base.get_id())] = True
    st.events.append(("resolve", a[0], a[1], a[2], r))
    return r


def is_const(p, v, n):
    return valid(p, tobv(v, 32) == n)


# ---- one map ---------------------------------------------------------------------
def search_map(S):
    """the first entry of a map whose name is the one that is looked for"""
    G = Group(S, "__resolve_id")
    E = G.E
    st = G.state()
    t, m = G.node(st, "id", "T_IDENTIFIER"), G.node(st, "map", "CHAIN_HEAD")
    E.on_elem = lambda E, st, h, el: E.assume_tags(st, el, E.M.tagset("E_MAP"))
    for p in G.paths(G.run(st, "__resolve_id", [t, m]), ok=("ret", "back")):
        lp = order(p, "loop")
        G.frame(p)
        if not p.require("map", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(m.base), "the map isn't searched from its first entry on"):
            continue
        ring = lp[0][6]
        if ring[0] == "end":
            p.require("missing", p.out.kind == "ret" and p.ptr_eq(p.val, NULL), "a name that the map doesn't have is found")
            continue
        el = Ptr(ring[3])
        same = contracts.str_of(E, p.st, p.get(p.get(el, "tEMAP_LEFT"), "tID_STR")) == contracts.str_of(E, p.st, p.get(t, "tID_STR"))
        if p.out.kind == "ret":
            p.require("found", z3.And(same, tobool(p.ptr_eq(p.val, p.get(el, "tEMAP_RIGHT")))), "another entry is returned")
        else:
            h = E.ring_of(order(p, "back")[-1][2][ring[2]])
            p.require("first", z3.Not(same), "an entry with the name is passed by")
            p.require("next", h is not None and h.base.eq(el.base), "entries are skipped")
    return G


search_map.group = "__resolve_id"


# ---- all scopes ---------------------------------------------------------------------
def resolve(S):
    """A name denotes what the innermost scope has: the current one, then its
    enclosing scopes up to the function, then the file's, then the headers'"""
    G = Group(S, "__resolve_identifier")
    E = G.E
    E.contracts["__resolve_id"] = c_search
    kinds = {}
    for scope in ("CURRENT_CTX", "GLOBAL"):
        for kind, acc in MAPS.items():
            st = G.state()
            t = G.node(st, "id", "T_IDENTIFIER")
            top = G.node(st, "top", "E_CTX")
            st.glob[("toplevel_ctx", 0)] = top
            inc = G.as_tree(st, E.load(st, E.glob_ptr("include_ctx"), ('ptr',)))
            E.assume_tags(st, inc, E.M.tagset("E_CTX"))
            cur = st.ghost["ctx0"]
            n = "%s/%s/" % (scope, kind)
            outs = G.run(st, "__resolve_identifier", [t, enum_value(S, "SCOPE_" + scope), enum_value(S, kind + "_TYPE")])
            for p in G.paths(outs, n + "total", ok=("ret", "back")):
                G.frame(p, name=n + "frame")
                why = resolve_path(G, p, t, cur, top, inc, acc, scope)
                p.require(n + "order", why is None, why or "")
                kinds.setdefault((scope, kind), set()).add(p.out.kind)
    for k, v in kinds.items():
        o = G.obl("%s/%s/outward" % k)
        o.paths += 1
        if ("back" in v) != (k[0] == "GLOBAL"):
            o.failed.append(("", "outcomes %s" % sorted(v), None))
    return G


def resolve_path(G, p, t, cur, top, inc, acc, scope):
    E, st = p.E, p.st
    ev = order(p, "search", "loop", "back")
    where = cur if scope == "CURRENT_CTX" else None      # where to look next
    left = False
    ph = None
    for e in ev:
        if e[0] == "loop":
            if scope == "CURRENT_CTX" or ph is not None:
                return "unexpected loop"
            ptrs = [r for r, v in e[3].items() if isinstance(v, Ptr)]
            if len(ptrs) != 1:
                raise Unsupported("loop variables")
            if not valid(p, p.ptr_eq(e[2][ptrs[0]], cur)):
                return "the search doesn't start at the current scope"
            ph = e[3][ptrs[0]]
            if valid(p, ph.base == ZERO64):
                where, left = inc, True
            else:
                where = ph
        elif e[0] == "search":
            if where is None:
                return "a search where none is expected"
            if not (valid(p, p.ptr_eq(e[1], t)) and valid(p, p.ptr_eq(e[2], p.get(where, acc)))):
                return "not the map of the scope whose turn it is"
            if p.out.kind == "ret" and (left or scope == "CURRENT_CTX"):
                if not valid(p, p.ptr_eq(p.val, e[3])):
                    return "the last scope's result isn't the result"
                return None
            if p.out.kind == "ret":
                if not valid(p, z3.And(e[3].base != ZERO64, tobool(p.ptr_eq(p.val, e[3])))):
                    return "the innermost object isn't the result"
                return None
            if not valid(p, e[3].base == ZERO64):
                return "an object is passed by"
            where = None
        elif e[0] == "back":
            if where is not None or ph is None:
                return "a scope isn't searched"
            nxt = list(e[2].values())
            nxt = [v for v in nxt if isinstance(v, Ptr)]
            fl = tobv(p.get(ph, "tECTX_IS_FN_CALL"), 8)
            par = p.get(ph, "tECTX_PARENT_CTX")
            c = z3.If(fl != 0, tobool(p.ptr_eq(nxt[0], top)), tobool(p.ptr_eq(nxt[0], par)))
            if len(nxt) != 1 or not valid(p, c):
                return "the search doesn't go on in the enclosing scope"
            return None
    # no scope is left
    if p.out.kind == "ret" and left and valid(p, inc.base == ZERO64) and valid(p, p.ptr_eq(p.val, NULL)):
        return None
    return "the search ends early"


resolve.group = "__resolve_identifier"


def identifier(S):
    G = Group(S, "T_IDENTIFIER")
    G.E.contracts["__resolve_identifier"] = c_resolve
    st = G.state()
    t = G.node(st, "t", "T_IDENTIFIER")
    diag = G.obl("undeclared")
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "die")):
        r = order(p, "resolve")
        if not p.require("global", len(r) == 1 and valid(p, p.ptr_eq(r[0][1], t)) and is_const(p, r[0][2], enum_value(S, "SCOPE_GLOBAL"))
                         and is_const(p, r[0][3], enum_value(S, "NORMAL_TYPE")), "the name isn't looked up in all scopes"):
            continue
        if p.out.kind == "ret":
            G.frame(p)
            p.require("object", z3.And(r[0][4].base != ZERO64, tobool(p.ptr_eq(p.val, r[0][4]))), "not the object that the name denotes")
        else:
            p.require("undeclared", r[0][4].base == ZERO64, "a declared name is diagnosed")
    return G


identifier.group = "T_IDENTIFIER"


def mapped(G, p, t, what, m):
    """exactly one name is declared: t as `what' in map m"""
    E, st = p.E, p.st
    new = [e for e in order(p, "append") if p.names(Ptr(e[1])) == {"E_MAP"}]
    if len(new) != 1:
        return "%d names are declared" % len(new)
    e = new[0]
    if not p.fresh(Ptr(e[1])):
        return "not a new entry"
    if not valid(p, p.ptr_eq(Ptr(e[2]), m)):
        return "declared in another scope or name space"
    if not (valid(p, p.ptr_eq(p.get(Ptr(e[1]), "tEMAP_LEFT"), t)) and valid(p, p.ptr_eq(p.get(Ptr(e[1]), "tEMAP_RIGHT"), what))):
        return "another name or another object"
    return None


def entries(G, *maps):
    def ok(p, new, head):
        return p.names(Ptr(new)) == {"E_MAP"} and any(valid(p, p.ptr_eq(Ptr(head), m)) for m in maps)
    return ok


def declare(S):
    G = Group(S, "map_identifier")
    E = G.E
    E.contracts["__resolve_identifier"] = c_resolve
    st = G.state()
    t, x = G.node(st, "id", "T_IDENTIFIER"), G.node(st, "object")
    m = E.get(st, st.ghost["ctx0"], "tECTX_ID_MAP")
    for p in G.paths(G.run(st, "map_identifier", [t, x]), ok=("ret", "die")):
        r = order(p, "resolve")
        if not p.require("current", len(r) == 1 and valid(p, p.ptr_eq(r[0][1], t)) and is_const(p, r[0][2], enum_value(S, "SCOPE_CURRENT_CTX"))
                         and is_const(p, r[0][3], enum_value(S, "NORMAL_TYPE")), "the name isn't looked up in the current scope"):
            continue
        if p.out.kind == "ret":
            p.require("new", r[0][4].base == ZERO64, "a name is declared again in one scope")
            why = mapped(G, p, t, x, m)
            p.require("mapped", why is None, why or "")
            G.frame(p, appends=entries(G, m))
        else:
            p.require("again", r[0][4].base != ZERO64, "a first declaration is diagnosed")
    return G


declare.group = "map_identifier"


def tags(S):
    """structure and union tags have name spaces of their own"""
    G = Group(S, "tags")
    E = G.E
    E.contracts["__resolve_identifier"] = c_resolve
    for kind, ct in (("STRUCT", "sstruct"), ("UNION", "uunion")):
        for scope in ("CURRENT_CTX", "GLOBAL"):
            st = G.state()
            t = G.node(st, "t", "T_DECL_COMPOUND")
            st.pc.append(tobv(E.get(st, t, "tCOMP_DECL_TYPE"), 32) == enum_value(S, ct))
            tag = G.operand(st, t, "tCOMP_DECL_ID", "T_IDENTIFIER")
            n = "%s/%s" % (kind, scope)
            for p in G.paths(G.run(st, "resolve_compound", [t, enum_value(S, "SCOPE_" + scope)]), n):
                r = order(p, "resolve")
                G.frame(p)
                p.require(n + "/space", len(r) == 1 and valid(p, p.ptr_eq(r[0][1], tag)) and is_const(p, r[0][2], enum_value(S, "SCOPE_" + scope))
                          and is_const(p, r[0][3], enum_value(S, kind + "_TYPE")) and valid(p, p.ptr_eq(p.val, r[0][4])),
                          "the tag isn't looked up among those of its kind")
        st = G.state()
        t, x = G.node(st, "t", "T_DECL_COMPOUND"), G.node(st, "x")
        st.pc.append(tobv(E.get(st, t, "tCOMP_DECL_TYPE"), 32) == enum_value(S, ct))
        tag = G.operand(st, t, "tCOMP_DECL_ID", "T_IDENTIFIER")
        m = E.get(st, st.ghost["ctx0"], MAPS[kind])
        for p in G.paths(G.run(st, "map_compound", [t, x]), kind + "/map"):
            why = mapped(G, p, tag, x, m)
            p.require(kind + "/mapped", why is None, why or "")
            G.frame(p, appends=entries(G, m))
    return G


tags.group = "tags"


def scopes(S):
    G = Group(S, "scopes")
    E = G.E
    import specs_flow
    st = G.state()
    s = E.sym_ptr(st, "name", True)
    for p in G.paths(G.run(st, "push_ctx", [s]), "push"):
        G.frame(p, ctx_same=False)
        why = specs_flow.child_ctx(G, p, p.st.glob[("cur_ctx", 0)], p.st.ghost["ctx0"], len(p.st.events))
        p.require("push/new", why is None, why or "")
    st = G.state()
    par = E.get(st, st.ghost["ctx0"], "tECTX_PARENT_CTX")
    for p in G.paths(G.run(st, "pop_ctx", []), "pop", ok=("ret", "die")):
        if p.out.kind == "ret":
            G.frame(p, ctx_same=False)
            p.require("pop/parent", z3.And(par.base != ZERO64, tobool(p.ptr_eq(p.st.glob[("cur_ctx", 0)], par))), "not the enclosing scope")
        else:
            p.require("pop/outermost", par.base == ZERO64, "a scope can't be left")
    return G


scopes.group = "scopes"



def initial(S):
    """at first there are two scopes: the one of the file, in the one of the functions that are built in"""
    G = Group(S, "eval_init")
    E = G.E
    import specs_flow
    def builtins(E, st, a):
        st.events.append(("builtins", st.glob[("cur_ctx", 0)]))
        return 0
    E.contracts["eval_init_builtins"] = builtins
    st = G.state()
    st.glob[("cur_ctx", 0)] = NULL
    for p in G.paths(G.run(st, "eval_init", [])):
        G.frame(p, ctx_same=False, globals_=("toplevel_ctx", "include_chain"))
        cur, top = p.st.glob[("cur_ctx", 0)], p.st.glob.get(("toplevel_ctx", 0))
        if not p.require("file", top is not None and p.fresh(cur) and valid(p, tobool(p.ptr_eq(cur, top))), "the scope of the file isn't a new one, or not the outermost that programs declare in"):
            continue
        b = order(p, "builtins")
        up = p.get(cur, "tECTX_PARENT_CTX")
        p.require("builtins", len(b) == 1 and valid(p, tobool(p.ptr_eq(b[0][1], up))) and p.fresh(up), "the functions that are built in aren't in the scope around it")
        p.require("outermost", p.get(up, "tECTX_PARENT_CTX").base == ZERO64 if p.fresh(up) else False, "there is another scope around both")
        why = specs_flow.child_ctx(G, p, cur, up, len(p.st.events))
        p.require("empty", why is None, why or "")
        inc = p.st.glob.get(("include_chain", 0))
        p.require("includes", inc is not None and p.fresh(inc) and p.is_tag(inc, "CHAIN_HEAD"), "no new list of included files")
    return G


initial.group = "eval_init"

SCOPE = [search_map, resolve, identifier, declare, tags, scopes, initial]
