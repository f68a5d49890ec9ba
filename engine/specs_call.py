"""C07: calls of the program's functions."""
import z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_expr import ALL, SIZEOF, FLT_TYPES, INTS, FLTS, classes, constant_range, convert_goal
from specs_scope import order, valid
from specs_decl import logged, before, sym_tree


# ---- the conversion of a value to an object's type ------------------------------------------
def assign_value(dst):
    """assign_value(_, left, right): left's bytes become the value of right,
    converted to left's type; nothing else changes"""
    def run(S):
        G = Group(S, "assign_value/" + dst)
        E = G.E
        st = G.state()
        t, l, r = G.node(st, "t"), G.node(st, "left", "T_LIVE_VAR"), G.node(st, "right")
        G.lv(st, l, dst)
        ts, lts = classes(dst)
        G.as_node(st, r, *ts)
        G.lv(st, r, *lts)
        constant_range(E, st, r)
        m0 = st.mem
        for p in G.paths(G.run(st, "assign_value", [t, l, r])):
            addr = p.get(l, "tLV_VAL").term()
            n = FLT_TYPES[dst] // 8 if dst in FLT_TYPES else SIZEOF[dst]
            G.frame(p, lvalues=[(addr, n)])
            p.require("value", convert_goal(p, r, m0, dst, E.mem_load(p.st.mem, addr, n)), "the stored value isn't the converted one")
        return G
    run.group = "assign_value/" + dst
    return run


VALUES = [assign_value(d) for d in ALL]


# ---- arguments ---------------------------------------------------------------------------
def c_assign_value(E, st, a):
    """assign_value/...: the bytes of the object change, nothing else does"""
    m0, n = st.mem, len(st.log)
    contracts.havoc_call(E, st, "assign")
    st.events.append(("assign_value", a[1], a[2], m0, st.mem, st.glob.get(("cur_ctx", 0)), n))
    return 0


def arith(E):
    return E.M.tagset(*(INTS + FLTS))


def convert_arg(S):
    """An argument for a parameter of arithmetic type becomes a new object of that
    type that is assigned the argument; any other is passed as it is."""
    G = Group(S, "convert_arg")
    E = G.E
    E.contracts["assign_value"] = c_assign_value
    E.contracts["resolve_decl_specs_to_type"] = logged("specs", "type", True)
    E.on_eval = lambda E, st, x, r: G.as_node(st, r)
    st = G.state()
    pm, ar = G.node(st, "param"), G.node(st, "arg")
    for p in G.paths(G.run(st, "convert_arg", [pm, ar, G.depth()])):
        sp, ev, av = order(p, "specs"), order(p, "eval"), order(p, "assign_value")
        isdecl = tobool(p.is_tag(pm, "T_DECL"))
        G.frame(p)
        if not sp:
            # not a declaration, or one of a pointer, array or function
            d = before(p, pm, "tDECL_DECLS")
            plain = z3.And(isdecl, z3.Or(d.base == ZERO64, tobool(p.is_tag(d, "T_IDENTIFIER"))))
            p.require("kind", z3.Not(plain), "the parameter's type isn't looked at")
            p.require("unchanged", z3.And(tobool(p.ptr_eq(p.val, ar)), z3.BoolVal(not av and not ev)), "not the argument itself is passed")
            continue
        if not p.require("specifiers", len(sp) == 1 and valid(p, z3.And(isdecl, tobool(p.ptr_eq(sp[0][1], before(p, pm, "tDECL_SPECS"))))), "not the parameter's type"):
            continue
        ty = sp[0][-1]
        if ev:
            if not p.require("name", len(ev) == 1 and valid(p, z3.And(ev[0][1] == ty.base, tobool(p.is_tag(ty, "T_IDENTIFIER")))), "something is evaluated"):
                continue
            ty = ev[0][2]
        else:
            p.require("name", z3.Not(tobool(p.is_tag(ty, "T_IDENTIFIER"))), "the name of a type isn't resolved")
        num = z3.Or([TAG(ty.base) == x for x in sorted(arith(E))])
        if not av:
            p.require("unchanged", p.ptr_eq(p.val, ar), "not the argument itself is passed")
            p.require("converts", z3.Not(num), "an arithmetic argument isn't converted")
            continue
        v = p.val
        if p.require("result", p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and G.storage(p, v), "not a new object"):
            p.require("type", p.ptr_eq(p.get(v, "tLV_TYPE"), ty), "the object doesn't have the parameter's type")
            p.require("value", z3.And(tobool(p.ptr_eq(av[0][1], v)), tobool(p.ptr_eq(av[0][2], ar))) if len(av) == 1 else False, "the object isn't assigned the argument")
    return G


convert_arg.group = "convert_arg"


def follows(p, x):
    """the element that followed x at first"""
    log, p.st.log = p.st.log, []
    try:
        return Ptr(p.E.tree_load(p.st, x.base, p.E.M.off_chain, 8, ('ptr',)).base)
    finally:
        p.st.log = log


def fn_args(S):
    """Every argument is evaluated once, in order, in the caller's scope, and
    converted for the parameter at its place; those after the last parameter or
    an ellipsis are passed as they are.  Inductive step over the arguments: the
    running parameter steps with them."""
    G = Group(S, "eval_fn_args")
    E = G.E

    def c_conv(E, st, a):
        r = sym_tree(E, st, "converted")
        E.assume_nonnull(st, r.base)
        contracts.havoc_call(E, st, "convert")
        st.events.append(("convert", a[0], a[1], r))
        return r
    E.contracts["convert_arg"] = c_conv
    for which in ("none", "some"):
        st = G.state()
        args = NULL if which == "none" else G.node(st, "args", "CHAIN_HEAD")
        params = G.as_tree(st, E.sym_ptr(st, "params"))
        st.pc.append(z3.Or(params.base == ZERO64, TAG(params.base) == E.M.tag("CHAIN_HEAD")))

        def on_loop(E, st, key, entry, phis):
            for r, v in phis.items():
                if isinstance(v, Ptr):
                    G.as_tree(st, v)
        E.on_loop = on_loop
        for p in G.paths(G.run(st, "eval_fn_args", [args, params, G.depth()]), "total/" + which, ok=("ret", "back")):
            if which == "none":
                p.require("none", p.out.kind == "ret" and valid(p, tobv(p.val.base, 64) == 0) and not order(p, "eval", "convert", "append"), "arguments out of nothing")
                continue
            lp = order(p, "loop")
            if not p.require("all", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(args.base), "the arguments aren't gone through from the first on"):
                continue
            ring, phis, entry = lp[0][6], lp[0][3], lp[0][2]
            ptrs = [r for r, v in phis.items() if isinstance(v, Ptr) and r != ring[2]]
            if not p.require("parameter", len(ptrs) == 1 and valid(p, p.ptr_eq(entry[ptrs[0]], params)), "the parameters aren't gone through from the first on"):
                continue
            cur = phis[ptrs[0]]
            ev, cv, ap = order(p, "eval", "selfeval"), order(p, "convert"), [e for e in order(p, "append") if p.names(Ptr(e[1])) == {"T_FN_ARG"}]
            if ring[0] == "end":
                p.require("end", p.out.kind == "ret" and not ev and not ap and not cv and p.fresh(p.val) and p.is_tag(p.val, "CHAIN_HEAD") is True, "not the new chain")
                G.frame(p)
                continue
            el = Ptr(ring[3])
            if not p.require("goes-on", p.out.kind == "back", "not every argument is evaluated"):
                continue
            back = order(p, "back")[-1][2]
            h = E.ring_of(back[ring[2]])
            p.require("next", h is not None and h.base.eq(el.base), "arguments are skipped")
            if not p.require("evaluated", len(ev) == 1 and ev[0][1].eq(el.base), "an argument isn't evaluated exactly once"):
                continue
            val = ev[0][2] if ev[0][0] == "eval" else el
            if ev[0][0] == "eval":
                p.require("scope", p.ptr_eq(ev[0][5], st.ghost["ctx0"]), "not evaluated in the caller's scope")
            ispar = z3.And(cur.base != ZERO64, z3.Not(tobool(p.is_tag(cur, "T_VARIADIC"))))
            nxt = follows(p, cur) if valid(p, ispar) else None
            more = nxt is not None and valid(p, nxt.base != params.base)
            if more:
                p.require("step", p.ptr_eq(back[ptrs[0]], nxt), "not the parameter that follows")
                if not p.require("converted", len(cv) == 1 and valid(p, z3.And(tobool(p.ptr_eq(cv[0][1], nxt)), tobool(p.ptr_eq(cv[0][2], val)))), "the argument isn't converted for its parameter"):
                    continue
                val = cv[0][3]
            else:
                p.require("step", z3.Or(z3.And(z3.Not(ispar), tobool(p.ptr_eq(back[ptrs[0]], cur))),
                                        z3.And(ispar, nxt.base == params.base, tobool(p.ptr_eq(back[ptrs[0]], NULL))) if nxt is not None else False),
                          "the parameters after the last aren't none")
                p.require("unconverted", not cv, "an argument without a parameter is converted")
            if p.require("passed", len(ap) == 1 and p.fresh(Ptr(ap[0][1])), "not one value is passed for an argument"):
                p.require("value", p.ptr_eq(p.get(Ptr(ap[0][1]), "tFNARG_EXP"), val), "not the argument's value is passed")
                p.require("order", ap[0][3] == "tail" and p.E.is_fresh(p.st, ap[0][2]), "not appended to the values")
            G.frame(p, appends=None)
    return G


fn_args.group = "eval_fn_args"
ARGS = [convert_arg, fn_args]


# ---- calls of the program's functions ---------------------------------------------------------
BELOW = z3.Function("below_call", z3.BitVecSort(64), z3.BoolSort())


def c_setjmp(E, st, a):
    """setjmp returns once with 0, and possibly again when the function is left by
    longjmp (T_RETURN's contract, obligation statements/*/return): then the body
    was executing in scopes of its own below the call's, whose context has the
    returned value."""
    st.events.append(("setjmp", a[0]))
    again = st.clone()
    contracts.havoc_call(E, again, "longjmp")
    fn = again.glob[("cur_ctx", 0)]
    c = E.sym_ptr(again, "left_ctx", True)
    again.ghost[("tree", c.base.get_id())] = True
    E.assume_tags(again, c, E.M.tagset("E_CTX"))
    again.pc.append(z3.Or(c.base == fn.base, BELOW(c.base)))
    again.glob[("cur_ctx", 0)] = c
    again.events.append(("again", fn))
    r = E.fresh("jumped", z3.BitVecSort(32))
    again.pc.append(r != 0)
    return [(st, 0), (again, r)]


def c_fn_args(E, st, a):
    """eval_fn_args (obligations eval_fn_args/...)"""
    E.escape(st, a[0]), E.escape(st, a[1])
    if E.choose(st, E.icmp(st, "eq", ('ptr',), a[0], NULL)):
        st.events.append(("args", a[0], a[1], NULL, st.glob.get(("cur_ctx", 0))))
        return NULL
    contracts.havoc_call(E, st, "args")
    r = sym_tree(E, st, "values")
    E.assume_nonnull(st, r.base)
    E.assume_tags(st, r, E.M.tagset("CHAIN_HEAD"))
    st.ghost["values"] = r.base
    st.events.append(("args", a[0], a[1], r, st.glob.get(("cur_ctx", 0))))
    return r


def c_bind(E, st, t):
    """the evaluation of an assignment that the evaluator made (C03)"""
    l, r = E.get(st, t, "tASSIGN_LHS"), E.get(st, t, "tASSIGN_RHS")
    E.escape(st, t)
    contracts.havoc_call(E, st, "bind")
    st.events.append(("bind", l, r, st.glob.get(("cur_ctx", 0))))
    return sym_tree(E, st, "bound")


def logged_lookup(E, st, a):
    r = E.sym_ptr(st, "name", True)
    st.ghost[("tree", r.base.get_id())] = True
    E.assume_tags(st, r, E.M.tagset("T_IDENTIFIER"))
    return r


def defined(arity):
    def run(S):
        G = Group(S, "T_FN_CALL/defined/" + arity)
        E = G.E
        for k in ("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp"):
            E.contracts[k] = c_setjmp
        E.contracts["eval_fn_args"] = c_fn_args
        E.contracts["assign_value"] = c_assign_value
        E.contracts["get_identifier"] = logged_lookup
        E.node_contracts["T_ASSIGN"] = c_bind
        st = G.state()
        caller = st.ghost["ctx0"]
        t = G.node(st, "t", "T_FN_CALL")
        callee = G.operand(st, t, "tFNCALL_ID")
        vals = G.as_tree(st, E.get(st, t, "tFNCALL_ARGS"))
        st.pc.append(z3.Or(vals.base == ZERO64, TAG(vals.base) == E.M.tag("CHAIN_HEAD")))
        info = {}

        def on_eval(E, st, x, r):
            if x.base.eq(callee.base):
                G.as_node(st, r, "T_FN")
                G.as_node(st, E.get(st, r, "tFN_STMTS"))
                G.as_node(st, E.get(st, r, "tFN_DECL"), "T_IDENTIFIER")
                d = G.as_tree(st, E.get(st, r, "tFN_ARGS"))
                if arity == "none":
                    st.pc.append(d.base == ZERO64)
                else:
                    G.as_node(st, d, "CHAIN_HEAD")
                G.as_tree(st, E.get(st, r, "tFN_RET_TYPE"))
                G.as_node(st, E.get(st, r, "tFN_RET_TYPE"))
                st.ghost["fn"] = r
            return r
        E.on_eval = on_eval

        def on_loop(E, st, key, entry, phis):
            ring = st.events[-1][6]
            fn = st.ghost["fn"]
            decls = E.get(st, fn, "tFN_ARGS")
            for r, v in phis.items():
                if isinstance(v, Ptr):
                    G.as_tree(st, v)
                    if ring is not None and r != ring[2] and isinstance(entry[r], Ptr) and entry[r].base.eq(decls.base):
                        # an element of the parameter list, which isn't new
                        # (obligations pairs and next)
                        st.kind[v.base.get_id()] = ("sym", 0, v.base)
                elif ring is not None and ring[0] == "end" and ring[1].eq(decls.base):
                    # a parameter list isn't empty
                    st.pc.append(tobv(v, 64) != tobv(entry[r], 64))
            c = st.glob[("cur_ctx", 0)]
            st.ghost[("leaving", key)] = c
            if ring is None and E.kindof(st, c.base)[0] != "fresh":
                # leaving scopes: the current one is the call's or below it
                new = made_ctx(G, st)
                G.as_node(st, c, "E_CTX")
                if new is not None:
                    par = initially(E, st, c, "tECTX_PARENT_CTX")
                    st.pc.append(z3.Or(c.base == new.base, z3.And(par.base != ZERO64, z3.Or(par.base == new.base, BELOW(par.base)))))
        E.on_loop = on_loop

        def on_elem(E, st, head, el):
            # obligations eval_fn_args/.../passed
            if E.tags(st, head) == E.M.tagset("CHAIN_HEAD") and st.ghost.get("values") is not None and head.base.eq(st.ghost["values"]):
                G.as_node(st, el, "T_FN_ARG")
        E.on_elem = on_elem
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back", "die")):
            call_path(G, p, t, callee, vals, caller, arity)
        return G
    run.group = "T_FN_CALL/defined/" + arity
    return run


def initially(E, st, x, acc):
    """the initial value of a pointer member of a node that isn't new"""
    return Ptr(E.initial(st, x.base, E.M.off(acc), 8, ('ptr',), 0).base)


def made_ctx(G, st):
    new = [Ptr(b) for kind, birth, b in st.kind.values() if kind == "fresh" and G.E.tags(st, Ptr(b)) == G.E.M.tagset("E_CTX")]
    return new[0] if len(new) == 1 else None


def counted(p, lp):
    """the number that a loop over a list counts: the variable that starts at 0"""
    return [r for r, v in loop_ints(lp) if valid(p, tobv(lp[2][r], 64) == 0)]


def call_path(G, p, t, callee, vals, caller, arity):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    evs = order(p, "eval", "selfeval", "args", "bind", "setjmp", "again", "stmts", "assign_value", "loop", "back")
    e0 = evs[0] if evs else None
    if not p.require("callee", e0 is not None and e0[0] in ("eval", "selfeval") and e0[1].eq(callee.base) and len([e for e in evs if e[0] == "eval" and e[1].eq(callee.base)]) == 1,
                     "what is called isn't evaluated first and once"):
        return
    fn = st.ghost.get("fn")
    if not p.require("function", fn is not None, "no function"):
        return
    decls = before(p, fn, "tFN_ARGS")
    loops = [e for e in evs if e[0] == "loop"]
    ring_at = lambda base: [e for e in loops if e[6] is not None and e[6][1].eq(base)]
    new = made_ctx(G, st)
    args = order(p, "args")
    binds = order(p, "bind")
    # the numbers of arguments and parameters
    nd = nv = None
    if arity == "some":
        for which, base in (("parameters", decls.base), ("arguments", vals.base)):
            ls = ring_at(base)
            if which == "arguments" and not ls:
                if valid(p, vals.base == ZERO64):
                    nv = 0
                continue
            if not ls:
                continue
            l = ls[0]
            c = counted(p, l)
            if not p.require("count", len(c) == 1, "the %s aren't counted" % which):
                return
            if l[6][0] == "elem":
                back = order(p, "back")[-1][2] if p.out.kind == "back" else None
                h = E.ring_of(back[l[6][2]]) if back else None
                p.require("count/step", back is not None and h is not None and h.base.eq(l[6][3]) and valid(p, tobv(back[c[0]], 64) == tobv(l[3][c[0]], 64) + 1),
                          "the %s aren't counted one by one" % which)
                p.require("count/first", not args and new is None, "something happens before the %s are counted" % which)
                return
            if which == "parameters":
                nd = tobv(l[3][c[0]], 64)
            else:
                nv = tobv(l[3][c[0]], 64)
        if not p.require("counts", nd is not None and nv is not None, "the numbers of parameters and arguments aren't compared"):
            return
        same = nd == nv
        if p.out.kind == "die":
            p.require("arity", z3.And(z3.Not(same), z3.BoolVal(not args and new is None)), "a call is refused whose number of arguments is right")
            return
        p.require("arity", same, "a call with a wrong number of arguments isn't diagnosed")
        ok = len(args) == 1 and eq(args[0][1], vals) and eq(args[0][4], caller)
        if not p.require("arguments", ok, "the arguments aren't evaluated once in the caller's scope"):
            return
        chain = args[0][3]
        i_args = evs.index(args[0])
    else:
        if p.out.kind == "die":
            p.require("arity", False, "the call is refused")
            return
        chain, i_args = None, 0
    # the scope
    if not p.require("scope", new is not None and valid(p, p.ptr_eq(p.get(new, "tECTX_PARENT_CTX"), caller)), "the body's scope isn't a new one below the caller's"):
        return
    p.require("boundary", tobv(p.get(new, "tECTX_IS_FN_CALL"), 8) != 0, "the scope isn't marked as a function's: it sees the caller's objects")
    cur = st.glob[("cur_ctx", 0)]
    if arity == "some":
        ls = ring_at(chain.base)
        if not p.require("binding", len(ls) == 1, "the parameters aren't bound one after the other"):
            return
        l = ls[0]
        others = [r for r, v in l[3].items() if isinstance(v, Ptr) and r != l[6][2]]
        if not p.require("pairs", len(others) == 1 and eq(l[2][others[0]], decls), "parameters and arguments aren't gone through side by side"):
            return
        d = l[3][others[0]]
        if l[6][0] == "elem":
            el = Ptr(l[6][3])
            nxt = follows(p, d)
            i = evs.index(l)
            rest = [e for e in evs[i + 1:] if e[0] not in ("back",)]
            ok = len(rest) in (1, 2) and rest[0][0] in ("eval", "selfeval") and valid(p, rest[0][1] == nxt.base)
            if not p.require("declares", ok and (rest[0][0] == "selfeval" or eq(rest[0][5], new)), "the parameter isn't declared in the function's scope"):
                return
            var = rest[0][2] if rest[0][0] == "eval" else nxt
            ok = len(rest) == 2 and rest[1][0] == "bind" and eq(rest[1][1], var) and eq(rest[1][2], before(p, el, "tFNARG_EXP")) and eq(rest[1][3], new)
            p.require("initialises", ok, "the parameter isn't initialised with its argument")
            back = order(p, "back")
            if p.require("goes-on", p.out.kind == "back" and len(back) == 1, "not every parameter is bound"):
                h = E.ring_of(back[0][2][l[6][2]])
                p.require("next", h is not None and h.base.eq(el.base) and eq(back[0][2][others[0]], nxt), "parameters and arguments don't step together")
                p.require("in", p.ptr_eq(cur, new), "the scope changes")
            G.frame(p, ctx_same=False, appends=None)
            return
    # the body
    rest = [e for e in evs[i_args + 1:] if e[0] != "loop" or e[6] is None]
    sj = [e for e in rest if e[0] == "setjmp"]
    if not p.require("return-point", len(sj) == 1 and sj[0][1].base.eq(new.base) and sj[0][1].off == E.M.off("tECTX_JMP_BUF"), "a return in the body doesn't lead back to the call"):
        return
    j = rest.index(sj[0])
    p.require("binding-only", not [e for e in rest[:j] if e[0] != "loop"], "something else is executed before the body")
    after = rest[j + 1:]
    again = bool(after) and after[0][0] == "again"
    if not again:
        ok = bool(after) and after[0][0] == "stmts" and eq(after[0][1], before(p, fn, "tFN_STMTS")) and eq(after[0][5], new)
        if not p.require("body", ok, "the body isn't executed in the function's scope"):
            return
        after = after[1:]
    else:
        p.require("return-scope", eq(after[0][1], new), "not the function's scope is returned to")
        after = after[1:]
        lv = [e for e in after if e[0] == "loop"]
        after = [e for e in after if e[0] not in ("loop", "back")]
        if not p.require("leaves", len(lv) <= 1, "the scopes aren't left one by one"):
            return
        if p.out.kind == "back":
            b = lv[0]
            c0 = b[5] if False else None
            pre = leaving(G, p, b)
            if p.require("leaves", pre is not None, "not the current scope is left"):
                p.require("leaves", z3.And(pre.base != new.base, tobool(p.ptr_eq(cur, p.get(pre, "tECTX_PARENT_CTX")))), "a scope is left that isn't the body's")
            G.frame(p, ctx_same=False)
            return
    if not p.require("returns", p.out.kind == "ret", "the call doesn't return"):
        return
    G.frame(p)
    rt = values(p, fn, "tFN_RET_TYPE")
    av = [e for e in after if e[0] == "assign_value"]
    p.require("nothing-else", len(after) == len(av), "something is executed after the body")
    if not again:
        p.require("no-value", not av and (eq(p.val, NULL)), "a value without a return")
        return
    left = leaving(G, p, lv[0]) if lv else new
    p.require("left", p.ptr_eq(left, new), "the scope that is left isn't the function's")
    log = st.log
    if av:
        # when it was assigned
        st.log = log[:av[0][6]]
    rv = p.get(left, "tECTX_RETVAL")
    st.log = log
    ctype = lambda x: z3.And(x.base != ZERO64, z3.Or([TAG(x.base) == k for k in sorted(E.M.tagset(*E.M.ctypes))]))
    v = p.val
    if not av:
        p.require("unconverted", z3.Or(rv.base == ZERO64, *[z3.Not(ctype(x)) for x in rt]), "the returned value isn't converted to the function's type")
        p.require("value", p.ptr_eq(v, rv), "not the returned value")
        return
    if p.require("result", p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and G.storage(p, v), "the result isn't a new object"):
        p.require("type", z3.Or([tobool(p.ptr_eq(p.get(v, "tLV_TYPE"), x)) for x in rt]), "the result doesn't have the function's type")
        p.require("value", len(av) == 1 and eq(av[0][1], v) and eq(av[0][2], rv), "the result isn't the returned value")
        own = [e for e in order(p, "append") if p.names(Ptr(e[1])) == {"E_ALLOC"} and p.get(Ptr(e[1]), "tALLOC_PTR").base.eq(p.get(v, "tLV_VAL").base)]
        p.require("owner", len(own) == 1 and valid(p, own[0][2] == before(p, caller, "tECTX_ALLOC_CHAIN").base), "the result's memory isn't owned by the caller's scope")


def values(p, x, acc):
    """the values that a member had"""
    st, r = p.st, {}
    log = st.log
    try:
        for i in range(len(log) + 1):
            st.log = log[:i]
            v = p.get(x, acc)
            r[v.base.get_id()] = v
    finally:
        st.log = log
    return list(r.values())


def leaving(G, p, loop):
    """the current scope at the start of the iteration"""
    return p.st.ghost.get(("leaving", loop[1]))


CALLS = [defined("none"), defined("some")]


# ---- calls of external functions ------------------------------------------------------------
FFI = {"D_T_CHAR": "sint8", "D_T_SHORT": "sint16", "D_T_INT": "sint32", "D_T_LONG": "sint64", "D_T_LONGLONG": "sint64",
       "D_T_UCHAR": "uint8", "D_T_USHORT": "uint16", "D_T_UINT": "uint32", "D_T_ULONG": "uint64", "D_T_ULONGLONG": "uint64",
       "D_T_FLOAT": "float", "D_T_DOUBLE": "double", "D_T_LONGDOUBLE": "longdouble", "D_T_PTR": "pointer"}
# C's default argument promotions; an int and an unsigned int of the same bits
# are passed alike
PROMOTED = {"D_T_CHAR": "D_T_INT", "D_T_UCHAR": "D_T_INT", "D_T_SHORT": "D_T_INT", "D_T_USHORT": "D_T_INT", "D_T_FLOAT": "D_T_DOUBLE"}


def ffi(E, st, ctype):
    return E.glob_ptr("ffi_type_" + FFI[ctype])


def is_ffi(E, st, v, *ctypes):
    """v is libffi's descriptor of one of the types"""
    v = Ptr(tobv(v, 64)) if not isinstance(v, Ptr) else v
    return z3.Or([v.term() == ffi(E, st, c).term() for c in ctypes])


def recorded(kind, ret=0):
    def h(E, st, a):
        st.events.append((kind,) + tuple(a) + (st.mem,))
        return ret
    return h


def slots(E, st, key):
    """the scalars on the stack that a loop changes: (address, value before it)"""
    out = []
    for k, v in st.ghost.get(("stack0", key), {}).items():
        if k not in st.stack and k[0] in st.kind and isinstance(v, int):
            out.append((Ptr(st.kind[k[0]][2], k[1]), v))
    return out


INT32 = ('int', 32)


def counters(p, lp):
    """(value in the loop's state, value at the end) of each 32 bit variable that
    starts with 0"""
    E, st = p.E, p.st
    out = []
    back = order(p, "back")
    for r, v in loop_ints(lp):
        if z3.is_bv(v) and v.size() == 32 and valid(p, tobv(lp[2][r], 32) == 0):
            out.append((tobv(v, 32), tobv(back[-1][2][r], 32) if back else None))
    for a, sym in st.ghost.get(("slots", lp[1]), []):
        out.append((sym, tobv(E.load(st, a, INT32), 32)))
    return out


RETURNED = {"value": INTS + FLTS + ["D_T_PTR"], "integer": INTS[:5], "unsigned": INTS[5:], "other": FLTS + ["D_T_PTR"]}


def ext_call(form, returns):
    def run(S):
        G = Group(S, "do_ext_call/%s/%s" % (form, returns))
        E = G.E
        for f in ("ffi_prep_cif", "ffi_prep_cif_var", "ffi_call"):
            E.contracts[f] = recorded(f)
        st = G.state()
        args = G.node(st, "args", "CHAIN_HEAD") if form != "none" else NULL
        ret = NULL
        if returns in RETURNED:
            ret = G.node(st, "ret", "T_LIVE_VAR")
            G.lv(st, ret, *RETURNED[returns])
        fn = E.sym_ptr(st, "address", True)
        vp = E.sym_ptr(st, "variadic_pos", True) if form == "ellipsis" else NULL
        npos = None
        if form == "ellipsis":
            # a variable of the caller's
            contracts.note_addr(E, st, vp.term())
            npos = tobv(E.mem_load(st.mem, vp.term(), 4), 32)
            st.pc.append(npos >= 0)

        def on_elem(E, st, head, el):
            G.as_node(st, el, "T_FN_ARG")
            x = G.as_node(st, E.get(st, el, "tFNARG_EXP"), "T_INTEGER", "T_LIVE_VAR", "T_STRING", "T_FLOAT")
            constant_range(E, st, x)
            G.lv(st, x, *(INTS + FLTS + ["D_T_PTR"]))
        E.on_elem = on_elem

        def on_loop(E, st, key, entry, phis):
            out = []
            for a, v in slots(E, st, key):
                if v == 0:
                    out.append((a, tobv(E.load(st, a, INT32), 32)))
            for r, v in phis.items():
                if not isinstance(v, Ptr) and valid_now(E, st, tobv(entry[r], 32) == 0):
                    out.append((None, tobv(v, 32)))
            for a, k in out:
                # obligations room and counts
                st.pc.append(z3.And(k >= 0, k <= room(st)))
            st.ghost[("slots", key)] = [x for x in out if x[0] is not None]
            st.ghost[("mem", key)] = st.mem
            if npos is not None:
                # obligation frame
                st.pc.append(tobv(E.mem_load(st.mem, vp.term(), 4), 32) == npos)
        E.on_loop = on_loop
        arrays = {}
        for p in G.paths(G.run(st, "do_ext_call", [fn, args, ret, vp]), ok=("ret", "back", "die")):
            ext_path(G, p, fn, args, ret, npos, arrays)
        return G
    run.group = "do_ext_call/%s/%s" % (form, returns)
    return run


def valid_now(E, st, c):
    return E.S.valid(st.pc, c)[0]


def room(st):
    """how many arguments there is room for"""
    sizes = [e[2] for e in st.events if e[0] == "malloc"]
    n = [s if isinstance(s, int) else s.as_long() for s in map(simp, sizes) if isinstance(s, int) or z3.is_bv_value(s)]
    return min(n[:2]) // 8 if len(n) > 1 else 0


def ext_path(G, p, fn, args, ret, npos, arrays):
    E, st = p.E, p.st
    evs = order(p, "loop", "back", "ffi_prep_cif", "ffi_prep_cif_var", "ffi_call")
    lp = [e for e in evs if e[0] == "loop"]
    K = z3.BitVecVal(0, 32)
    blocks = [e for e in order(p, "malloc")]
    if args is not NULL:
        if not p.require("all", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(args.base), "the arguments aren't gone through from the first on"):
            return
        ring = lp[0][6]
        cs = counters(p, lp[0])
        if ring[0] == "elem":
            ext_arg(G, p, lp[0], cs, npos, arrays)
            return
        p.require("counts", len(cs) == 1, "the arguments aren't counted")
        K = cs[0][0] if len(cs) == 1 else K
    if not p.require("total", p.out.kind == "ret", "the call isn't made"):
        return
    pr = [e for e in evs if e[0].startswith("ffi_prep")]
    ca = [e for e in evs if e[0] == "ffi_call"]
    if not p.require("call", len(pr) == 1 and len(ca) == 1 and evs.index(pr[0]) < evs.index(ca[0]), "the function isn't called once"):
        return
    pr, ca = pr[0], ca[0]
    if npos is None:
        ok = pr[0] == "ffi_prep_cif"
        n, rt, ts = (pr[3], pr[4], pr[5]) if ok else (0, NULL, NULL)
    else:
        ok = pr[0] == "ffi_prep_cif_var"
        n, rt, ts = (pr[4], pr[5], pr[6]) if ok else (0, NULL, NULL)
        p.require("fixed", tobv(pr[3], 32) == npos if ok else False, "not the number of the parameters before the ellipsis")
    if not p.require("interface", ok, "the wrong kind of call is prepared"):
        return
    p.require("number", tobv(n, 32) == K, "not all arguments are passed")
    p.require("prepared", z3.And(tobool(p.ptr_eq(pr[1], ca[1])), tobv(pr[2], 32) == 2), "not the prepared interface is used")
    p.require("function", p.ptr_eq(ca[2], fn), "not the function is called")
    for which, v in (("types", ts), ("values", ca[4])):
        want = arrays.setdefault(which, v)
        if args is not NULL:
            p.require(which, p.ptr_eq(v, want), "not the arguments' " + which)
    if ret is NULL:
        p.require("result", rt.term() == E.glob_ptr("ffi_type_void").term(), "a result is expected of a function that has none")
    else:
        t = p.get(ret, "tLV_TYPE")
        p.require("result", z3.And([z3.Implies(TAG(t.base) == E.M.tag(c), is_ffi(E, st, rt, c)) for c in FFI]), "the result isn't passed back with its type")
        p.require("result", p.ptr_eq(ca[3], p.get(ret, "tLV_VAL")), "the result doesn't get into the object")
    G.frame(p)


def bits_at(E, st, v, n):
    """the n bytes at v"""
    x = None
    if E.kindof(st, v.base)[0] == "malloc":
        # blocks are apart from each other (and all is written within them:
        # obligations room and frame)
        for e in reversed(st.events):
            if e[0] == "pstore" and (e[5].eq(v.base) or E.kindof(st, e[5])[0] not in ("malloc", "stack", "fresh")):
                if tobv(e[1], 64).eq(v.term()) and e[2] == n:
                    x = e[3]
                break
    if x is None:
        x = E.load(st, v, ('int', 8 * n))
    x = x.t if isinstance(x, FP) else x.term() if isinstance(x, Ptr) else tobv(x, 8 * n)
    # of what was stored with another size there are no bytes to speak of
    return x if x.size() == 8 * n else E.fresh("other_bytes", z3.BitVecSort(8 * n))


def ext_arg(G, p, lp, cs, npos, arrays):
    """one iteration: the argument's type and value are put at its place"""
    E, st = p.E, p.st
    el = Ptr(lp[6][3])
    i = st.events.index(lp)
    N = room(st)
    if p.out.kind == "die":
        p.require("refused", z3.Or([k == N for k, _ in cs]) if N >= 16 else False, "a call with few arguments is refused")
        return
    if not p.require("goes-on", p.out.kind == "back", "not every argument is passed"):
        return
    back = order(p, "back")[-1][2]
    h = E.ring_of(back[lp[6][2]])
    p.require("next", h is not None and h.base.eq(el.base), "arguments are skipped")
    cs = [(k, e) for k, e in cs if valid(p, e == k + 1)]
    if not p.require("counts", len(cs) == 1, "the arguments aren't counted one by one"):
        return
    k = cs[0][0]
    p.require("room", k + 1 <= N, "too many arguments")
    at = {}
    stray = []
    ma = {e[1].get_id() for e in st.events[:i] if e[0] == "malloc"}
    for n, e in enumerate(st.events[i:]):
        if e[0] != "pstore":
            continue
        kd = st.kind.get(e[5].get_id()) or E.kindof(st, e[5])
        if kd[0] in ("malloc", "stack", "fresh") and kd[1] >= i:
            continue
        hit = [b for kind, birth, b in st.kind.values() if kind == "malloc" and birth < i and
               valid(p, tobv(e[1], 64) == b + 8 * z3.SignExt(32, k))]
        if hit and tobv(e[2], 32).eq(z3.BitVecVal(8, 32)):
            at.setdefault(hit[0].get_id(), []).append((hit[0], e[3]))
        else:
            stray.append(e)
    p.require("frame", not stray, "memory that existed before is changed")
    G.frame(p, lvalues=[(b + 8 * z3.SignExt(32, k), 8) for v in at.values() for b, _ in v])
    one = [v[0] for v in at.values() if len(v) == 1]
    if not p.require("places", len(at) == 2 and len(one) == 2, "not a type and a value are put at the argument's place"):
        return
    # which of the two are the types
    ty = [x for x in one if valid(p, is_ffi(E, st, x[1], *FFI))]
    if not p.require("types", len(ty) == 1, "not a type and a value are put at the argument's place"):
        return
    ty = ty[0]
    va = [x for x in one if x is not ty][0]
    for which, b in (("types", ty[0]), ("values", va[0])):
        want = arrays.setdefault(which, Ptr(b))
        p.require(which, want.base.eq(b), "not the arguments' " + which)
    v = Ptr(tobv(va[1], 64)) if not isinstance(va[1], Ptr) else va[1]
    own = E.stack_names.get(v.base.get_id())
    p.require("outlives", own is None or own[0] == "do_ext_call", "the value is gone when the function is called")
    x = before(p, el, "tFNARG_EXP")
    T = p.names(x)
    m0 = st.ghost[("mem", lp[1])]
    if T == {"T_STRING"}:
        p.require("type", is_ffi(E, st, ty[1], "D_T_PTR"), "a string isn't passed as a pointer")
        own = v.term() == Ptr(x.base, E.M.off("tSTRING_VAL")).term()
        p.require("value", True if valid(p, own) else bits_at(E, st, v, 8) == before(p, x, "tSTRING_VAL").term(), "not the string is passed")
        return
    if T in ({"T_INTEGER"}, {"T_FLOAT"}):
        as_ = ["D_T_LONG", "D_T_ULONG"] if T == {"T_INTEGER"} else ["D_T_DOUBLE"]
        p.require("type", is_ffi(E, st, ty[1], *as_), "a constant isn't passed with its type")
        p.require("value", convert_goal(p, x, m0, as_[0], bits_at(E, st, v, 8)), "not the constant's value is passed")
        return
    if not p.require("kind", T == {"T_LIVE_VAR"}, "what is passed isn't an object"):
        return
    lt = before(p, x, "tLV_TYPE")
    names = p.names(lt)
    if not p.require("kind", len(names) == 1 and set(names) <= set(FFI), "an object's type isn't looked at"):
        return
    c = list(names)[0]
    addr = before(p, x, "tLV_VAL").term()
    beyond = z3.BoolVal(False) if npos is None else k >= npos
    plain = z3.And(is_ffi(E, st, ty[1], c), v.term() == addr)
    if c in PROMOTED:
        w = PROMOTED[c]
        if valid(p, beyond):
            p.require("promoted", is_ffi(E, st, ty[1], *([w] if w == "D_T_DOUBLE" else [w, "D_T_UINT"])), "an argument for the ellipsis isn't promoted")
            p.require("value", convert_goal(p, x, m0, w, bits_at(E, st, v, 8 if w == "D_T_DOUBLE" else 4)), "not the promoted value is passed")
            return
        p.require("promoted", z3.Not(beyond), "an argument for the ellipsis isn't promoted")
    p.require("passed", plain, "not the object's value is passed with its type")


EXTERNAL = [ext_call(f, r) for f in ("none", "fixed", "ellipsis")
            for r in (("nothing", "value") if f != "ellipsis" else ("nothing", "integer", "unsigned", "other"))]


def c_ext_call(E, st, a):
    """do_ext_call (obligations do_ext_call/...).  The called function may change
    the program's memory and call the program's functions."""
    n = tobv(E.load(st, a[3], INT32), 32) if not E.choose(st, E.icmp(st, "eq", ('ptr',), a[3], NULL)) else None
    m = st.mem
    E.escape(st, a[1]), E.escape(st, a[2])
    contracts.havoc_call(E, st, "extcall")
    st.events.append(("ext_call", a[0], a[1], a[2], n, m, st.glob.get(("cur_ctx", 0))))
    return 0


def c_dlsym(E, st, a):
    r = E.sym_ptr(st, "symbol")
    st.events.append(("dlsym", a[0], a[1], r))
    return r


def external(kind, params):
    def run(S):
        G = Group(S, "T_FN_CALL/%s/%s" % (kind, params))
        E = G.E
        E.contracts["eval_fn_args"] = c_fn_args
        E.contracts["do_ext_call"] = c_ext_call
        E.contracts["dlsym"] = c_dlsym
        st = G.state()
        t = G.node(st, "t", "T_FN_CALL")
        callee = G.operand(st, t, "tFNCALL_ID")
        vals = G.as_tree(st, E.get(st, t, "tFNCALL_ARGS"))
        st.pc.append(z3.Or(vals.base == ZERO64, TAG(vals.base) == E.M.tag("CHAIN_HEAD")))
        rtypes = INTS + FLTS + ["D_T_PTR", "D_T_VOID"]

        def on_eval(E, st, x, r):
            last = {"function": "T_FN"}.get(kind, "T_LIVE_VAR")
            if x.base.eq(callee.base) and kind == "declared":
                # the first use of a declared function (obligations T_EXT_FUNC/...)
                G.as_node(st, r, "T_EXT_FUNC")
                return r
            if x.base.eq(callee.base) or (kind == "declared" and st.ghost.get("fn") is None):
                G.as_node(st, r, last)
                fn = r
                if last == "T_LIVE_VAR":
                    G.lv(st, r, "D_T_PTR")
                    fn = G.as_node(st, E.get(st, E.get(st, r, "tLV_TYPE"), "tDTPTR_EXP"), "T_FN")
                else:
                    st.pc.append(E.get(st, fn, "tFN_STMTS").base == ZERO64)
                    G.as_node(st, E.get(st, fn, "tFN_DECL"), "T_IDENTIFIER")
                d = G.as_tree(st, E.get(st, fn, "tFN_ARGS"))
                if params == "none":
                    st.pc.append(d.base == ZERO64)
                else:
                    G.as_node(st, d, "CHAIN_HEAD")
                G.as_node(st, E.get(st, fn, "tFN_RET_TYPE"), *rtypes)
                st.ghost["fn"], st.ghost["obj"] = fn, r
            return r
        E.on_eval = on_eval

        def on_loop(E, st, key, entry, phis):
            for r, v in phis.items():
                if isinstance(v, Ptr):
                    G.as_tree(st, v)
            out = []
            for a, v in slots(E, st, key):
                if v == 0:
                    out.append((a, tobv(E.load(st, a, INT32), 32)))
            st.ghost[("slots", key)] = out
        E.on_loop = on_loop
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back", "die")):
            external_path(G, p, t, callee, vals, kind, params)
        return G
    run.group = "T_FN_CALL/%s/%s" % (kind, params)
    return run


def external_path(G, p, t, callee, vals, kind, params):
    E, st = p.E, p.st
    eq = lambda a, b: valid(p, p.ptr_eq(a, b))
    caller = st.ghost["ctx0"]
    evs = order(p, "eval", "selfeval", "args", "dlsym", "ext_call", "loop", "back")
    first = [e for e in evs if e[0] in ("eval", "selfeval")]
    want = 2 if kind == "declared" else 1
    if not p.require("callee", len(first) == want and first[0][1].eq(callee.base) and (want == 1 or eq(Ptr(first[1][1]), first[0][2])), "what is called isn't evaluated once"):
        return
    fn, obj = st.ghost.get("fn"), st.ghost.get("obj")
    decls = before(p, fn, "tFN_ARGS")
    loops = [e for e in evs if e[0] == "loop" and e[6] is not None and e[6][1].eq(decls.base)]
    ds = order(p, "dlsym")
    npos = None
    if p.out.kind == "die":
        ok = kind == "function" and len(ds) == 1 and valid(p, ds[0][3].base == ZERO64)
        p.require("refused", ok, "the call is refused")
        return
    if params == "some":
        if not p.require("ellipsis", len(loops) >= 1, "an ellipsis isn't looked for"):
            return
        lp = loops[0]
        ks = [(k, e) for k, e in counters(p, lp)]
        if lp[6][0] == "elem":
            el = Ptr(lp[6][3])
            dots = tobool(p.is_tag(el, "T_VARIADIC"))
            if p.out.kind == "back":
                p.require("ellipsis", z3.Not(dots), "an ellipsis isn't noticed")
                p.require("counted", any(valid(p, e == k + 1) for k, e in ks), "the parameters aren't counted")
                h = E.ring_of(order(p, "back")[-1][2][lp[6][2]])
                p.require("next", h is not None and h.base.eq(el.base), "parameters are skipped")
                p.require("first", not order(p, "ext_call"), "something happens while the parameters are counted")
                return
            p.require("ellipsis", dots, "something else is taken for an ellipsis")
            npos = ks
    if not p.require("returns", p.out.kind == "ret", "the call doesn't return"):
        return
    a, c = order(p, "args"), order(p, "ext_call")
    if not p.require("call", len(c) == 1 and len(a) == 1 and evs.index(a[0]) < evs.index(c[0]), "the function isn't called once"):
        return
    a, c = a[0], c[0]
    p.require("arguments", eq(a[1], vals) and eq(a[2], decls) and eq(a[4], caller), "not the arguments are evaluated, for the parameters")
    p.require("passed", p.ptr_eq(c[2], a[3]), "not the arguments' values are passed")
    p.require("variadic", (c[4] is None) if npos is None else c[4] is not None and any(valid(p, c[4] == k) for k, _ in npos), "not the place of the ellipsis")
    if kind == "function":
        ok = len(ds) == 1 and eq(ds[0][2], before(p, before(p, fn, "tFN_DECL"), "tID_STR")) and valid(p, z3.And(ds[0][1].term() == 0, ds[0][3].base != ZERO64))
        p.require("address", ok and eq(c[1], ds[0][3]), "not the function of that name is called")
    else:
        addr = before(p, obj, "tLV_VAL").term()
        ms = [first[-1][4] if first[-1][0] == "eval" else None, a and c[5]]
        p.require("address", z3.Or([c[1].term() == tobv(E.mem_load(m, addr, 8), 64) for m in ms if m is not None]), "not the function that is pointed to is called")
    rt = values(p, fn, "tFN_RET_TYPE")
    void = lambda x: z3.And(x.base != ZERO64, TAG(x.base) == E.M.tag("D_T_VOID"))
    r = c[3]
    if valid(p, r.base == ZERO64):
        p.require("result", z3.And(z3.Or([void(x) for x in rt]), tobool(p.ptr_eq(p.val, NULL))), "the result is dropped")
    elif p.require("result", p.fresh(r) and p.is_tag(r, "T_LIVE_VAR") is True and G.storage(p, r) and eq(p.val, r), "the result isn't a new object"):
        p.require("type", z3.Or([z3.And(tobool(p.ptr_eq(p.get(r, "tLV_TYPE"), x)), z3.Not(void(x))) for x in rt]), "the result doesn't have the function's type")
    G.frame(p)


EXTERNAL += [external(k, n) for k in ("function", "pointer", "declared") for n in ("none", "some")]


def ext_func(S):
    """the first use of a declared function: a pointer to the function of that
    name (atexit, at_quick_exit and alloca have stand-ins)"""
    G = Group(S, "T_EXT_FUNC")
    E = G.E
    E.contracts["dlsym"] = c_dlsym
    st = G.state()
    t = G.node(st, "t", "T_EXT_FUNC")
    fn = G.as_node(st, E.get(st, t, "tEXT_FUNC_FN"), "T_FN")
    G.as_node(st, E.get(st, fn, "tFN_DECL"), "T_IDENTIFIER")
    own = set()
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "die")):
        name = before(p, before(p, fn, "tFN_DECL"), "tID_STR")
        ds = order(p, "dlsym")
        same = {n: contracts.str_of(E, p.st, name) == literal(E, n) for n in STAND_INS}
        if ds:
            p.require("name", len(ds) == 1 and valid(p, z3.And(tobool(p.ptr_eq(ds[0][2], name)), ds[0][1].term() == 0, z3.Not(z3.Or(list(same.values()))))), "not the function of that name is looked for")
        if p.out.kind == "die":
            p.require("refused", len(ds) == 1 and valid(p, ds[0][3].base == ZERO64), "a function isn't found")
            continue
        r = p.val
        G.frame(p)
        if not p.require("result", p.fresh(r) and p.is_tag(r, "T_LIVE_VAR") is True and G.storage(p, r), "not a new object"):
            continue
        ty = p.get(r, "tLV_TYPE")
        p.require("type", p.fresh(ty) and p.is_tag(ty, "D_T_PTR") is True and valid(p, p.ptr_eq(p.get(ty, "tDTPTR_EXP"), fn)), "not a pointer to the function")
        got = tobv(E.mem_load(p.st.mem, p.get(r, "tLV_VAL").term(), 8), 64)
        if ds:
            p.require("address", z3.And(got == ds[0][3].term(), ds[0][3].base != ZERO64), "not the function's address")
        else:
            p.require("address", z3.Or([z3.And(c, z3.Or([got == E.glob_ptr(g).term() for g in (STAND_INS[n] or list(E.global_ids))])) for n, c in same.items()]), "a stand-in is called for another function")
            own |= {g for g in E.global_ids if g in E.fns and valid(p, got == E.glob_ptr(g).term())}
    # alloca's own: memory of that size, which stays
    G.paths_ok("alloca", [], len(own) == 1, str(own))
    for f in own:
        st = G.state()
        sz = E.fresh("size")
        for p in G.paths(G.run(st, f, [sz])):
            m = order(p, "malloc")
            p.require("alloca", z3.And(tobool(p.ptr_eq(p.val, Ptr(m[0][1]))), tobv(m[0][2], 64) == sz) if len(m) == 1 and not order(p, "free") else False, "no memory of that size")
    return G


STAND_INS = {"alloca": [], "atexit": ["atexit"], "at_quick_exit": ["at_quick_exit"]}


def literal(E, s):
    """the identity of a string literal's contents"""
    for c, n in E.strings.items():
        if c in (s, 'c"%s\\00"' % s):
            return z3.IntVal(-n)
    E.strings[s] = len(E.strings) + 1
    return z3.IntVal(-E.strings[s])


ext_func.group = "T_EXT_FUNC"
EXTERNAL += [ext_func]


def addr_ext(S):
    """the address of an external function is what its use evaluates to"""
    G = Group(S, "T_ADDR/external")
    E = G.E
    st = G.state()
    t = G.node(st, "t", "T_ADDR")
    x = G.operand(st, t, "tADDR_EXP")
    def on_eval(E, st, y, r):
        if y.base.eq(x.base):
            G.as_node(st, r, "T_EXT_FUNC")
        return r
    E.on_eval = on_eval
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        ev = order(p, "eval", "selfeval")
        if p.require("operand", len(ev) == 2 and ev[0][1].eq(x.base), "the operand isn't evaluated once"):
            p.require("value", ev[1][0] == "eval" and valid(p, z3.And(ev[1][1] == ev[0][2].base, tobool(p.ptr_eq(p.val, ev[1][2])))), "not a pointer to the function")
        G.frame(p)
    return G


addr_ext.group = "T_ADDR/external"
EXTERNAL += [addr_ext]


BUILTINS = {"__builtin___strcpy_chk": "strcpy", "__builtin___strcat_chk": "strcat"}


def builtins(S):
    """the compiler's checking functions are calls of those without the check, and its last argument"""
    G = Group(S, "T_BUILTIN")
    E = G.E
    E.contracts["map_identifier"] = lambda E, st, a: (st.events.append(("map", a[0], a[1])), 0)[1]
    handlers = {}
    st = G.state()
    for p in G.paths(G.run(st, "eval_init_builtins", [])):
        for e in order(p, "map"):
            if not (p.fresh(e[2]) and p.is_tag(e[2], "T_BUILTIN") is True):
                continue
            s = contracts.str_of(E, p.st, p.get(e[1], "tID_STR"))
            h = p.get(e[2], "tBUILTIN_HANDLER")
            for n in BUILTINS:
                if valid(p, s == literal(E, n)):
                    handlers[n] = E.glob_name(h.base)
    G.paths_ok("known", [], sorted(handlers) == sorted(BUILTINS) and all(handlers.values()), str(handlers))
    E.contracts.pop("map_identifier")
    for n, h in sorted(handlers.items()):
        st = G.state()
        args = G.node(st, "args", "CHAIN_HEAD")
        def on_loop(E, st, key, entry, phis):
            for v in phis.values():
                if isinstance(v, Ptr):
                    G.as_tree(st, v)
        E.on_loop = on_loop
        def c_eval(E, st, a):
            r = G.as_tree(st, Ptr(E.fresh("value")))
            st.events.append(("called", a[0].base, r))
            return r
        E.contracts["__evaluate_1"] = c_eval
        kinds = set()
        done = list(G.paths(G.run(st, h, [args]), ok=("ret", "back", "die")))
        # the counter goes up or down by one from any number
        down = False
        for p in done:
            lp = order(p, "loop")
            if p.out.kind == "back" and len(lp) == 1 and lp[0][6] is not None:
                c = [r for r, v in loop_ints(lp[0]) if r != lp[0][6][2]]
                down = len(c) == 1 and valid(p, tobv(order(p, "back")[-1][2][c[0]], 32) == tobv(lp[0][3][c[0]], 32) - 1)
        for p in done:
            lp, un, ev = order(p, "loop"), p.ev("unlink"), order(p, "called")
            if not p.require("all", len(lp) == 1 and lp[0][6] is not None and valid(p, lp[0][6][1] == args.base), "not the arguments are gone through"):
                continue
            ring = lp[0][6]
            c = [r for r, v in loop_ints(lp[0]) if r != ring[2]]
            if not p.require("counted", len(c) == 1 and (z3.is_bv_value(z3.simplify(tobv(lp[0][2][c[0]], 32)))), "the arguments aren't counted"):
                continue
            start = tobv(lp[0][2][c[0]], 32)
            number = lambda v: start - tobv(v, 32) if down else tobv(v, 32) - start
            k = number(lp[0][3][c[0]])
            kinds.add((p.out.kind, ring[0]))
            if p.out.kind == "back":
                b = order(p, "back")[-1][2]
                hd = E.ring_of(b[ring[2]])
                p.require("next", z3.And(k != 2, number(b[c[0]]) == k + 1, z3.BoolVal(hd is not None and hd.base.eq(ring[3]) and not un and not ev)), "an argument is skipped")
                continue
            if ring[0] == "elem":
                p.require("dropped", z3.And(k == 2, un[0][1] == ring[3]) if len(un) == 1 else False, "not the third argument is left out")
            else:
                p.require("kept", not un, "an argument is left out")
            # the call it stands for
            if not p.require("call", len(ev) == 1 and p.fresh(Ptr(ev[0][1])) and p.is_tag(Ptr(ev[0][1]), "T_FN_CALL") is True and valid(p, tobool(p.ptr_eq(p.val, ev[0][2]))), "not a call"):
                continue
            f = Ptr(ev[0][1])
            p.require("arguments", tobool(p.ptr_eq(p.get(f, "tFNCALL_ARGS"), args)), "not its arguments")
            id = p.get(f, "tFNCALL_ID")
            p.require("name", contracts.str_of(E, p.st, p.get(id, "tID_STR")) == literal(E, BUILTINS[n]) if p.is_tag(id, "T_IDENTIFIER") is True else False, "not the function that is meant")
        G.paths_ok("reach", [], {("ret", "end"), ("ret", "elem"), ("back", "elem")} <= kinds, str(kinds))
    return G


builtins.group = "T_BUILTIN"


def builtin_call(S):
    """a builtin's handler gets the call's arguments"""
    G = Group(S, "T_FN_CALL/builtin")
    E = G.E
    st = G.state()
    t = G.node(st, "t", "T_FN_CALL")
    callee = G.operand(st, t, "tFNCALL_ID")
    def on_eval(E, st, x, r):
        if x.base.eq(callee.base):
            G.as_node(st, r, "T_BUILTIN")
            st.ghost["fn"] = r
        return r
    E.on_eval = on_eval
    def indirect(E, st, a, p):
        st.events.append(("handler", list(a), p))
        r = Ptr(E.fresh("result"))
        st.ghost["result"] = r
        return r
    E.contracts["(indirect)"] = indirect
    n = 0
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        n += 1
        hs = order(p, "handler")
        if p.require("handler", len(hs) == 1 and len(hs[0][1]) == 1 and valid(p, tobool(p.ptr_eq(hs[0][2], before(p, p.st.ghost["fn"], "tBUILTIN_HANDLER")))), "its handler isn't called"):
            p.require("arguments", tobool(p.ptr_eq(hs[0][1][0], before(p, t, "tFNCALL_ARGS"))), "not the call's arguments")
            p.require("value", tobool(p.ptr_eq(p.val, p.st.ghost["result"])), "not the handler's result")
        G.frame(p)
    return G


builtin_call.group = "T_FN_CALL/builtin"
EXTERNAL += [builtins, builtin_call]
