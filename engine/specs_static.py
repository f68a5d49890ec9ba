"""C20: objects with static storage duration."""
import z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_scope import order, valid, search_map, resolve, identifier, declare, scopes
from specs_decl import before, sym_tree, declaration_contracts, declarator, decl, chain_has
from specs_comp import objects
import specs_flow


def c_declarator(E, st, a):
    """handle_declarator (obligations handle_declarator/...): what the declarator
    declares becomes part of the current scope"""
    for x in a:
        if isinstance(x, Ptr):
            E.escape(st, x)
    r = sym_tree(E, st, "declared")
    st.events.append(("declarator", a[0], a[1], a[2], st.glob[("cur_ctx", 0)], r))
    return r


def static(form):
    """A static declaration's first execution: its declarators are declared, with
    their initialisers, in a scope of their own that becomes part of the
    declaration; what is declared then becomes part of the current scope.
    (Functions are declared in the current scope.)"""
    def run(S):
        G = Group(S, "handle_static_decl/" + form)
        E = G.E
        E.contracts["handle_declarator"] = c_declarator
        st = G.state()
        t, ty = G.node(st, "t", "T_DECL"), G.node(st, "type")
        ds = G.operand(st, t, "tDECL_DECLS")
        if form == "list":
            G.as_node(st, ds, "CHAIN_HEAD")
        else:
            st.dom[ds.base.get_id()] = frozenset(range(len(E.M.names))) - E.M.tagset("CHAIN_HEAD")
            st.pc.append(TAG(ds.base) != E.M.tag("CHAIN_HEAD"))

        def on_elem(E, st, h, el):
            # the declarators aren't new
            st.kind[el.base.get_id()] = ("sym", 0, el.base)
            G.as_node(st, el)
        E.on_elem = on_elem

        def on_loop(E, st, key, entry, phis):
            # the loop in the new scope doesn't change the current scope
            # (obligation scope)
            for r, v in phis.items():
                if isinstance(v, Ptr):
                    G.as_tree(st, v)
        E.on_loop = on_loop
        for p in G.paths(G.run(st, "handle_static_decl", [ty, t, G.depth()]), ok=("ret", "back")):
            static_path(G, p, t, ty, ds, form)
        return G
    run.group = "handle_static_decl/" + form
    return run


def static_path(G, p, t, ty, ds, form):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    caller = st.ghost["ctx0"]
    acts = order(p, "loop", "declarator", "back", "eval", "selfeval", "retag")
    made = {b.get_id(): Ptr(b) for kind, birth, b in st.kind.values() if kind == "fresh" and E.tags(st, Ptr(b)) == E.M.tagset("E_CTX")}
    ctx = list(made.values())[0] if len(made) == 1 else None
    if form == "list":
        lp = [e for e in acts if e[0] == "loop"]
        if not p.require("all", lp and all(e[6] is not None and e[6][1].eq(ds.base) for e in lp) and len(lp) <= 2, "the declarators aren't gone through from the first on"):
            return
        last = lp[-1]
        dc = [e for e in acts if e[0] == "declarator"]
        if last[6][0] == "elem":
            el = Ptr(last[6][3])
            stmts = before(p, el, "tFN_STMTS") if "T_FN" in p.names(el) else None
            fn = z3.And(tobool(p.is_tag(el, "T_FN")), stmts.base != ZERO64) if stmts is not None else z3.BoolVal(False)
            if p.out.kind == "ret":
                ok = len(dc) == 1 and eq(dc[0][1], el) and eq(dc[0][2], ty) and eq(dc[0][4], caller) and eq(p.val, dc[0][-1])
                p.require("function", z3.And(fn, z3.BoolVal(ok)), "something other than a function is declared in the current scope")
                G.frame(p)
                return
            h = E.ring_of(order(p, "back")[-1][2][last[6][2]])
            p.require("next", h is not None and h.base.eq(el.base), "declarators are skipped")
            if len(lp) == 1 and not dc:
                # the search for functions
                p.require("function", z3.Not(fn), "a function isn't declared in the current scope")
                G.frame(p)
                return
            if p.require("declarator", len(dc) == 1 and eq(dc[0][1], el) and eq(dc[0][2], ty), "not each declarator is declared once"):
                p.require("scope", ctx is not None and eq(dc[0][4], ctx) and eq(st.glob[("cur_ctx", 0)], ctx), "not in the declaration's own scope")
                p.require("result", any(eq(v, dc[0][-1]) for r, v in order(p, "back")[-1][2].items() if r != last[6][2] and isinstance(v, Ptr)), "another result")
            G.frame(p, ctx_same=False)
            return
        if not p.require("declares", p.out.kind == "ret" and len(lp) == 2 and not dc, "the declarators aren't gone through"):
            return
        res = [v for r, v in last[3].items() if isinstance(v, Ptr) and r != last[6][2]]
    else:
        dc = [e for e in acts if e[0] == "declarator"]
        if not p.require("declarator", p.out.kind == "ret" and len(dc) == 1 and eq(dc[0][1], ds) and eq(dc[0][2], ty), "not the declarator is declared once"):
            return
        p.require("scope", ctx is not None and eq(dc[0][4], ctx), "not in the declaration's own scope")
        res = [dc[0][-1]]
    p.require("result", any(eq(p.val, v) for v in res), "another result")
    if not p.require("scope", ctx is not None, "not one scope is made"):
        return
    why = specs_flow.child_ctx(G, p, ctx, caller, len(st.events))
    p.require("scope", why is None, why or "")
    p.require("kept", z3.And(tobool(p.ptr_eq(p.get(t, "tECTX_ID_MAP"), p.get(ctx, "tECTX_ID_MAP"))), tobool(p.ptr_eq(p.get(t, "tECTX_ALLOC_CHAIN"), p.get(ctx, "tECTX_ALLOC_CHAIN")))),
              "the declared objects or their storage don't become part of the declaration")
    p.require("static", z3.And(z3.BoolVal(p.names(t) == {"E_CTX"}), tobv(p.get(t, "tECTX_IS_STATIC"), 8) != 0), "the declaration would be executed again")
    p.require("no-scope", p.get(t, "tECTX_PARENT_CTX").base == ZERO64, "the declaration's scope keeps that of its first execution")
    ev = order(p, "eval", "selfeval")
    rt = order(p, "retag")
    p.require("visible", len(ev) == 1 and len(rt) == 1 and ev[0][0] == "eval" and ev[0][1].eq(t.base) and acts[-1] is ev[0] and eq(ev[0][5], caller), "what is declared isn't visible in the current scope")
    G.frame(p, stores=[(t.base, "tECTX_" + x) for x in ("ID_MAP", "ALLOC_CHAIN", "PARENT_CTX", "NAME", "IS_STATIC")], retags=[(t.base, "E_CTX")])


def again(S):
    """every execution makes the declaration's names visible in the current scope,
    as the objects that they always denoted; nothing else happens"""
    G = Group(S, "E_CTX")
    E = G.E

    def c_map(E, st, a):
        E.escape(st, a[1])
        st.events.append(("declare", a[0], a[1], st.glob[("cur_ctx", 0)]))
        return 0
    E.contracts["map_identifier"] = c_map
    st = G.state()
    t = G.node(st, "t", "E_CTX")
    st.pc.append(tobv(E.get(st, t, "tECTX_IS_STATIC"), 8) != 0)
    m = G.operand(st, t, "tECTX_ID_MAP", "CHAIN_HEAD")
    E.on_elem = lambda E, st, h, el: G.as_node(st, el, "E_MAP")
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back")):
        lp = order(p, "loop")
        G.frame(p)
        if not p.require("all", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(m.base), "not all names are gone through"):
            continue
        ds, ring = order(p, "declare"), lp[0][6]
        p.require("nothing-else", not order(p, "eval", "selfeval", "assign", "malloc_"), "something is evaluated")
        if ring[0] == "end":
            p.require("no-more", p.out.kind == "ret" and not ds, "another name becomes visible")
            continue
        el = Ptr(ring[3])
        b = order(p, "back")
        h = E.ring_of(b[-1][2][ring[2]]) if b else None
        p.require("next", h is not None and h.base.eq(el.base), "names are skipped")
        p.require("visible", z3.And(tobool(p.ptr_eq(ds[0][1], before(p, el, "tEMAP_LEFT"))), tobool(p.ptr_eq(ds[0][2], before(p, el, "tEMAP_RIGHT"))),
                                    tobool(p.ptr_eq(ds[0][3], p.st.ghost["ctx0"]))) if len(ds) == 1 else False, "not the name, as its object, in the current scope")
    return G


again.group = "E_CTX"


# ---- what is there before it is initialised -----------------------------------------------
def zeroed(S):
    """the storage of new objects is zero"""
    G = Group(S, "zero")
    E = G.E
    for k, tag in (("instantiate_struct", "T_LIVE_COMPOUND"), ("instantiate_array", "T_LIVE_VAR")):
        def h(E, st, a, tag=tag):
            r = sym_tree(E, st, "made")
            E.assume_nonnull(st, r.base)
            E.assume_tags(st, r, E.M.tagset(tag))
            return r
        E.contracts[k] = h
    E.contracts["get_array_size"] = lambda E, st, a: E.fresh("arraysize", z3.BitVecSort(64))

    def zero(p, what):
        m, z = order(p, "malloc"), order(p, "zeroed")
        p.require(what, len(m) == 1 and len(z) == 1 and z[0][1].eq(m[0][1]) and not order(p, "pstore"), "an object starts with any value")
    st = G.state()
    ty = G.node(st, "type")
    for p in G.paths(G.run(st, "make_live_var", [ty])):
        zero(p, "variable")
    st = G.state()
    t = G.node(st, "t", "T_DECL_COMPOUND")
    for p in G.paths(G.run(st, "alloc_struct", [t, G.depth()])):
        zero(p, "structure")
    st = G.state()
    a, bt = G.node(st, "a", "T_ARRAY"), G.node(st, "type")
    for p in G.paths(G.run(st, "alloc_array", [a, bt, G.depth()])):
        zero(p, "array")
    return G


zeroed.group = "zero"

STATIC = [static("one"), static("list"), again, zeroed, objects, decl, declarator, chain_has("T_STATIC"), declare, scopes]
