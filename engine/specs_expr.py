"""C01, C02, C05, C11 ...: contracts of the expression nodes of the evaluator."""
import z3
from sym import *
from spec import *
import contracts

INTS = list(INT_TYPES)


def int_operands(G, also=()):
    """precondition: operands evaluate to integer values"""
    E = G.E

    def on_eval(E, st, t, r):
        G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
        G.lv(st, r, *(INTS + list(also)))
        return r
    E.on_eval = on_eval


def fresh_integer(G, p, name="result"):
    r = p.val
    ok = p.fresh(r) and p.is_tag(r, "T_INTEGER") is True
    p.require(name, ok, "the result isn't a new integer")
    return ok


def binary(tag, acc, op, pre=None, also=(), allow_crash=None):
    """result = op(lhs, rhs), mathematically"""
    def run(S):
        G = Group(S, tag)
        int_operands(G, also)
        st = G.state()
        t = G.node(st, "t", tag)
        G.operand(st, t, acc + "_LHS")
        G.operand(st, t, acc + "_RHS")
        outs = G.run(st, "__evaluate_1", [t, G.depth()])
        for o in outs:
            if allow_crash and o.kind == "crash":
                # defined only where pre holds
                pass
        live = []
        for o in outs:
            if pre is not None:
                c = side(G, o, t, acc, pre)
                if c is not None:
                    o.st.pc.append(c)
                    if not G.E.S.feasible(o.st.pc, z3.BoolVal(True)):
                        continue
            live.append(o)
        for p in G.paths(live):
            res = G.results(p, t, [acc + "_LHS", acc + "_RHS"])
            if res is None:
                continue
            if fresh_integer(G, p):
                v = p.get(p.val, "tINT_VAL")
                goals = []
                for ml in G.mems_after(p, res[0][1]):
                    for mr in G.mems_after(p, res[1][1]):
                        l, r = int_val(p, res[0][0], ml), int_val(p, res[1][0], mr)
                        goals.append(v == op(l, r))
                p.require("value", goals[0] if len(goals) == 1 else z3.Or(goals),
                          "the result isn't the C value")
            G.frame(p)
        return G
    run.group = tag
    return run


def side(G, o, t, acc, pre):
    p = Path(G, o)
    evs = p.evals()
    w = [p.get(t, acc + "_LHS"), p.get(t, acc + "_RHS")]
    vals = []
    for x in w:
        hit = [i for i, e in enumerate(evs) if e[1].eq(x.base)]
        if not hit:
            return None
        vals.append(int_val(p, evs[hit[0]][2], o.st.mem))
    return pre(*vals)


def shift_amount(r):
    b = i2b(r)
    return z3.If(r < 0, -b, b)


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


ARITH = [
    binary("T_ADD", "tADD", lambda l, r: l + r),
    binary("T_SUB", "tSUB", lambda l, r: l - r),
    binary("T_MUL", "tMUL", lambda l, r: l * r),
    binary("T_DIV", "tDIV", lambda l, r: opz("TDIV", l, r), pre=lambda l, r: r != 0),
    binary("T_MOD", "tMOD", lambda l, r: opz("TMOD", l, r), pre=lambda l, r: r != 0),
    binary("T_I_AND", "tI_AND", lambda l, r: opz("AND", l, r)),
    binary("T_I_OR", "tI_OR", lambda l, r: opz("IOR", l, r)),
    binary("T_X_OR", "tX_OR", lambda l, r: opz("XOR", l, r)),
    binary("T_LSHIFT", "tLSHIFT", lambda l, r: SHL(l, i2b(r)), pre=lambda l, r: r >= 0),
    binary("T_RSHIFT", "tRSHIFT", lambda l, r: FSHR(l, i2b(r)), pre=lambda l, r: r >= 0),
]
COMPARE = [
    binary("T_LT", "tLT", lambda l, r: b2i(l < r)),
    binary("T_GT", "tGT", lambda l, r: b2i(l > r)),
    binary("T_LTEQ", "tLTEQ", lambda l, r: b2i(l <= r)),
    binary("T_GTEQ", "tGTEQ", lambda l, r: b2i(l >= r)),
    binary("T_EQ", "tEQ", lambda l, r: b2i(l == r), also=("D_T_PTR",)),
    binary("T_N_EQ", "tN_EQ", lambda l, r: b2i(l != r), also=("D_T_PTR",)),
]


# ---- conversions -------------------------------------------------------------------
FLTS = list(FLT_TYPES)
ALL = INTS + FLTS + ["D_T_PTR"]


def float_of(p, o, mem, src):
    """bits of the floating point value o of type src (T_FLOAT: a constant)"""
    E, st = p.E, p.st
    if src == "T_FLOAT":
        return FP(64, uf("mpf_get_d", INT, z3.BitVecSort(64))(MPF(o.base)))
    w = FLT_TYPES[src]
    return FP(w, E.mem_load(mem, E.get(st, o, "tLV_VAL").term(), w // 8))


def converted(p, o, mem, src, dst):
    """o (of type src, a type name, T_INTEGER, T_FLOAT or T_STRING), converted to
    the C type dst: the bits of the resulting object"""
    E, st = p.E, p.st
    if dst in INT_TYPES:
        n, signed = INT_TYPES[dst]
        if src in FLT_TYPES or src == "T_FLOAT":
            return fpcast("fptosi" if signed else "fptoui", float_of(p, o, mem, src), None, ('int', 8 * n))
        return trunc(i2b(int_of(p, o, mem, src)), 8 * n)
    if dst in FLT_TYPES:
        w = FLT_TYPES[dst]
        if src in FLT_TYPES or src == "T_FLOAT":
            f = float_of(p, o, mem, src)
            if f.bits == w:
                return f.t
            return fpcast("fpext" if f.bits < w else "fptrunc", f, None, ('fp', w)).t
        v = int_of(p, o, mem, src)
        b = i2b(v)
        s, u = (uf("%s_%d" % (k, w), BV64, z3.BitVecSort(w))(b) for k in ("sitofp", "uitofp"))
        return z3.If(v < 0, s, u)
    if src == "T_STRING":
        return E.get(st, o, "tSTRING_VAL").term()
    return i2b(int_of(p, o, mem, src))


def int_of(p, o, mem, src):
    if src == "T_INTEGER":
        return p.get(o, "tINT_VAL")
    return lv_int(p.E, p.st, o, mem, src)


def bits_of(x):
    return tobv(x, 64) if isinstance(x, int) else x


def source_types(p, o):
    """the types that the value o can have on this path, with their conditions"""
    E, st = p.E, p.st
    out = []
    for t in sorted(E.tags(st, o)):
        n = E.M.names[t]
        c = p.is_tag(o, n)
        if n == "T_LIVE_VAR":
            lt = p.get(o, "tLV_TYPE")
            for t2 in sorted(E.tags(st, lt)):
                n2 = E.M.names[t2]
                c2 = p.is_tag(lt, n2)
                out.append((n2, z3.And(tobool(c), tobool(c2))))
        else:
            out.append((n, tobool(c)))
    return out


def convert_goal(p, o, mem, dst, got):
    """got are the bits of o converted to dst"""
    gs = []
    for src, c in source_types(p, o):
        want = converted(p, o, mem, src, dst)
        gs.append(z3.Implies(c, bits_of(got) == want))
    return z3.And(gs)


def classes(dst, string=True):
    """which source types C converts implicitly to dst"""
    if dst == "D_T_PTR":
        return (["T_INTEGER", "T_LIVE_VAR"] + (["T_STRING"] if string else [])), INTS + ["D_T_PTR"]
    if dst in FLT_TYPES:
        return ["T_INTEGER", "T_FLOAT", "T_LIVE_VAR"], INTS + FLTS
    return ["T_INTEGER", "T_FLOAT", "T_LIVE_VAR"], INTS + FLTS + ["D_T_PTR"]


def constant_range(E, st, r):
    """integer constants are representable in some C integer type"""
    v = MPZ(r.base)
    st.pc.append(z3.Implies(TAG(r.base) == E.M.tag("T_INTEGER"), z3.And(v >= -2 ** 63, v < 2 ** 64)))


def assign(dst):
    def run(S):
        G = Group(S, "T_ASSIGN/" + dst)
        E = G.E
        st = G.state()
        t = G.node(st, "t", "T_ASSIGN")
        lhs, rhs = G.operand(st, t, "tASSIGN_LHS"), G.operand(st, t, "tASSIGN_RHS")

        def on_eval(E, st, x, r):
            if x.base.eq(lhs.base):
                G.as_node(st, r, "T_LIVE_VAR")
                G.lv(st, r, dst)
            else:
                ts, lts = classes(dst)
                G.as_node(st, r, *ts)
                G.lv(st, r, *lts)
                constant_range(E, st, r)
            return r
        E.on_eval = on_eval
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            res = G.results(p, t, [lhs, rhs])
            if res is None:
                continue
            (l, li), (r, ri) = res
            addr = p.get(l, "tLV_VAL").term()
            n = FLT_TYPES[dst] // 8 if dst in FLT_TYPES else SIZEOF[dst]
            G.frame(p, lvalues=[(addr, n)])
            got = E.mem_load(p.st.mem, addr, n)
            # the value is that of the right operand, read before the store
            m = p.evals()[-1][4]
            p.require("value", convert_goal(p, r, m, dst, got), "the stored value isn't the converted one")
            p.require("result", p.ptr_eq(p.val, l), "an assignment's value isn't the assigned object")
        return G
    run.group = "T_ASSIGN/" + dst
    return run


def cast(dst, src_kind):
    def run(S):
        G = Group(S, "T_CAST/%s/%s" % (dst, src_kind))
        E = G.E
        st = G.state()
        t = G.node(st, "t", "T_CAST")
        ty, ex = G.operand(st, t, "tCAST_NEWTYPE"), G.operand(st, t, "tCAST_EXP")

        def on_eval(E, st, x, r):
            if x.base.eq(ty.base):
                G.as_node(st, r, dst)
            elif src_kind == "const":
                G.as_node(st, r, *(["T_INTEGER"] + (["T_FLOAT"] if dst != "D_T_PTR" else [])))
                constant_range(E, st, r)
            else:
                G.as_node(st, r, "T_LIVE_VAR")
                lts = INTS if dst in FLT_TYPES else INTS + ["D_T_PTR"]
                if dst != "D_T_PTR":
                    lts = lts + FLTS
                G.lv(st, r, *lts)
            return r
        E.on_eval = on_eval
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            res = G.results(p, t, [ty, ex])
            if res is None:
                continue
            (ty_, ti), (r, ri) = res
            G.frame(p)
            v = p.val
            if not p.require("result", p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and G.storage(p, v),
                             "a cast yields a new value"):
                continue
            p.require("type", p.ptr_eq(p.get(v, "tLV_TYPE"), ty_), "the result doesn't have the type of the cast")
            n = FLT_TYPES[dst] // 8 if dst in FLT_TYPES else SIZEOF[dst]
            got = E.mem_load(p.st.mem, p.get(v, "tLV_VAL").term(), n)
            goals = [convert_goal(p, r, m, dst, got) for m in G.mems_after(p, ri)]
            p.require("value", goals[0] if len(goals) == 1 else z3.Or(goals), "the value isn't the converted one")
        return G
    run.group = "T_CAST/%s/%s" % (dst, src_kind)
    return run


ASSIGN = [assign(d) for d in ALL]
CAST = [cast(d, k) for d in ALL for k in ("const", "var")]


# ---- logic, conditional, unary -----------------------------------------------------
CMP = INTS + ["D_T_PTR"]


def seen(p):
    """the operands evaluated, in order: [(operand base, result, index)]"""
    return [(e[1], e[2], i) for i, e in enumerate(p.evals())]


def any_mem(G, p, i, f):
    gs = [f(m) for m in G.mems_after(p, i)]
    return gs[0] if len(gs) == 1 else z3.Or(gs)


def truth(p, r, mem):
    return int_val(p, r, mem) != 0


def logic(tag, acc, is_or):
    def run(S):
        G = Group(S, tag)
        int_operands(G, ("D_T_PTR",))
        st = G.state()
        t = G.node(st, "t", tag)
        l, r = G.operand(st, t, acc + "_LHS"), G.operand(st, t, acc + "_RHS")
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            s = seen(p)
            order = len(s) in (1, 2) and s[0][0].eq(l.base) and (len(s) == 1 or s[1][0].eq(r.base))
            if not p.require("order", order, "the left operand is evaluated first, then the right"):
                continue
            lv = truth(p, s[0][1], p.evals()[0][4])
            need_right = z3.Not(lv) if is_or else lv
            p.require("short-circuit", need_right if len(s) == 2 else z3.Not(need_right),
                      "the right operand is evaluated exactly if the left one doesn't decide")
            if fresh_integer(G, p):
                v = p.get(p.val, "tINT_VAL")
                if len(s) == 1:
                    want = v == (1 if is_or else 0)
                else:
                    want = any_mem(G, p, 1, lambda m: v == b2i(truth(p, s[1][1], m)))
                p.require("value", want, "the result isn't the truth value")
            G.frame(p)
        return G
    run.group = tag
    return run


def infix(S):
    G = Group(S, "T_INFIX")
    E = G.E
    st = G.state()
    t = G.node(st, "t", "T_INFIX")
    c, a, b = (G.operand(st, t, "tINFIX_" + x) for x in ("COND", "TRUE_STMT", "FALSE_STMT"))

    def on_eval(E, st, x, r):
        if x.base.eq(c.base):
            G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
            G.lv(st, r, *CMP)
        return r
    E.on_eval = on_eval
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        s = seen(p)
        if not p.require("order", len(s) == 2 and s[0][0].eq(c.base) and (s[1][0].eq(a.base) or s[1][0].eq(b.base)),
                         "the condition is evaluated, then one of the two operands"):
            continue
        cv = truth(p, s[0][1], p.evals()[0][4])
        p.require("choice", cv if s[1][0].eq(a.base) else z3.Not(cv), "the wrong operand is evaluated")
        p.require("value", p.ptr_eq(p.val, s[1][1]), "the result isn't that of the chosen operand")
        G.frame(p)
    return G


infix.group = "T_INFIX"


def unary(tag, acc, op, also=()):
    def run(S):
        G = Group(S, tag)
        int_operands(G, also)
        st = G.state()
        t = G.node(st, "t", tag)
        x = G.operand(st, t, acc)
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            res = G.results(p, t, [x])
            if res is None:
                continue
            if fresh_integer(G, p):
                v = p.get(p.val, "tINT_VAL")
                p.require("value", any_mem(G, p, 0, lambda m: v == op(int_val(p, res[0][0], m))), "the result isn't the C value")
            G.frame(p)
        return G
    run.group = tag
    return run


def comma(S):
    G = Group(S, "T_COMMA")
    st = G.state()
    t = G.node(st, "t", "T_COMMA")
    l, r = G.operand(st, t, "tCOMMA_LHS"), G.operand(st, t, "tCOMMA_RHS")
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        s = seen(p)
        if p.require("order", len(s) == 2 and s[0][0].eq(l.base) and s[1][0].eq(r.base), "left, then right"):
            p.require("value", p.ptr_eq(p.val, s[1][1]), "the result isn't the right operand's")
        G.frame(p)
    return G


comma.group = "T_COMMA"


def expr_list(S):
    """what the parser makes of an expression, with or without the comma operator: the expressions are
    evaluated once each, from the first on, and the last one's value is the result"""
    G = Group(S, "T_EXPR_LIST")
    E = G.E
    st = G.state()
    t = G.node(st, "t", "T_EXPR_LIST")
    h = G.operand(st, t, "tEXPR_LIST_CHAIN", "CHAIN_HEAD")
    kinds, carried, last = set(), set(), []
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back")):
        ring = [e for e in p.ev("loop") if e[6] is not None]
        kinds.add(p.out.kind)
        if not p.require("chain", len(ring) == 1 and ring[0][6][1].eq(h.base), "the expressions aren't those of the list, from the first on"):
            continue
        key, entry, phis, rg = ring[0][1], ring[0][2], ring[0][3], ring[0][6]
        ev = p.ev("eval", "selfeval", "stmts")
        if p.out.kind == "ret":
            if not p.require("end", rg[0] == "end" and not ev, "something else is evaluated"):
                continue
            # the result is what the loop carries from the last expression on
            mine = [r for r, v in phis.items() if r != rg[2] and isinstance(v, Ptr) and isinstance(p.val, Ptr) and v.base.eq(p.val.base) and p.val.off == 0]
            p.require("carried", bool(mine), "the result isn't that of an expression")
            carried |= set(mine)
            G.frame(p)
            continue
        if not p.require("once", len(ev) == 1 and ev[0][0] == "eval" and ev[0][1].eq(rg[3]), "an expression isn't evaluated exactly once"):
            continue
        back = p.ev("back")[-1][2]
        hd = E.ring_of(back[rg[2]])
        p.require("next", hd is not None and hd.base.eq(rg[3]), "an expression is skipped")
        last.append({r for r, v in back.items() if isinstance(v, Ptr) and r != rg[2] and v.off == 0 and v.base.eq(ev[0][2].base)})
        G.frame(p)
    G.paths_ok("value", [], len(carried) == 1 and bool(last) and all(carried <= x for x in last), "the result isn't the last expression's value")
    G.paths_ok("reach", [], kinds == {"ret", "back"}, "outcomes %s" % sorted(kinds))
    return G


expr_list.group = "T_EXPR_LIST"

LOGIC = [logic("T_L_OR", "tL_OR", True), logic("T_L_AND", "tL_AND", False), infix,
         unary("T_NEGATE", "tNEGATE_EXP", lambda v: b2i(v == 0), ("D_T_PTR",)), comma, expr_list]
ARITH.append(unary("T_ONES_COMP", "tONES_COMP_EXP", lambda v: -v - 1))


# ---- self-evaluating nodes ---------------------------------------------------------
def selfeval(S):
    G = Group(S, "self")
    for n in contracts.SELF + list(G.M.ctypes):
        st = G.state()
        t = G.node(st, "t_" + n, n)
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), "total/" + n):
            p.require("value/" + n, p.ptr_eq(p.val, t), "%s doesn't evaluate to itself" % n)
            p.require("effects/" + n, not p.evals() and not p.ev("stmts", "malloc"), "evaluating has an effect")
            G.frame(p)
    st = G.state()
    for p in G.paths(G.run(st, "__evaluate_1", [NULL, G.depth()]), "total/null"):
        p.require("value/null", p.ptr_eq(p.val, NULL), "nothing doesn't evaluate to nothing")
        G.frame(p)
    return G


selfeval.group = "self"


# ---- increment and decrement -------------------------------------------------------
def pointee_size(p, ptr_type):
    """size of what a pointer type points to, with its condition: the oracle is
    the ABI's table for C types, the recorded size for a complete struct or union"""
    exp = p.get(ptr_type, "tDTPTR_EXP")
    out = []
    for t in sorted(p.E.tags(p.st, exp)):
        n = p.E.M.names[t]
        c = tobool(p.is_tag(exp, n))
        if n in SIZEOF:
            s = z3.BitVecVal(SIZEOF[n], 64)
        elif n in ("D_T_VOID", "T_FN"):
            s = z3.BitVecVal(1, 64)
        elif n == "T_DECL_COMPOUND":
            s = uf_field(p, exp, "tCOMP_DECL_SZ")
        else:
            raise Unsupported("size of " + n)
        out.append((c, s))
    return out


def uf_field(p, o, acc):
    return tobv(p.get(o, acc), 64)


POINTEES = list(SIZEOF) + ["D_T_VOID", "T_FN", "T_DECL_COMPOUND"]


def pointee(G, E, st, ty, *tags):
    """assume: the pointer type's target is a complete type"""
    ex = E.get(st, ty, "tDTPTR_EXP")
    G.as_node(st, ex, *tags)
    if "T_DECL_COMPOUND" in tags:
        sz = E.get(st, ex, "tCOMP_DECL_SZ")
        st.pc.append(z3.Implies(TAG(ex.base) == E.M.tag("T_DECL_COMPOUND"), tobv(E.get(st, ex, "tCOMP_DECL_EXPANDED"), 8) != 0))
        st.pc.append(z3.Implies(TAG(ex.base) == E.M.tag("T_DECL_COMPOUND"), tobv(sz, 64) != 0))
    return ex


def incdec(tag, acc, sign, post, ty, target=None):
    name = "%s/%s%s" % (tag, ty, "/" + target if target else "")

    def run(S):
        G = Group(S, name)
        E = G.E
        st = G.state()
        t = G.node(st, "t", tag)
        x = G.operand(st, t, acc)

        def on_eval(E, st, a, r):
            if a.base.eq(x.base):
                G.as_node(st, r, "T_LIVE_VAR")
                lt = G.lv(st, r, ty, storage=True)
                if ty == "D_T_PTR":
                    pointee(G, E, st, lt, target)
            return r
        E.on_eval = on_eval
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            res = G.results(p, t, [x])
            if res is None:
                continue
            lv = res[0][0]
            addr = p.get(lv, "tLV_VAL").term()
            n = SIZEOF[ty]
            G.frame(p, lvalues=[(addr, n)])
            old = E.mem_load(p.evals()[0][4], addr, n)
            new = E.mem_load(p.st.mem, addr, n)
            step = z3.BitVecVal(1, 8 * n)
            if ty == "D_T_PTR":
                (c, step), = pointee_size(p, p.get(lv, "tLV_TYPE"))
            want = old + step if sign > 0 else old - step
            p.require("update", new == want, "the object isn't changed by one")
            v = p.val
            val = old if post else want
            if ty == "D_T_PTR":
                if p.require("result", p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and G.storage(p, v), "the value is a new one"):
                    p.require("type", p.ptr_eq(p.get(v, "tLV_TYPE"), p.get(lv, "tLV_TYPE")), "the value's type")
                    p.require("value", E.mem_load(p.st.mem, p.get(v, "tLV_VAL").term(), 8) == val, "the value isn't the C value")
            elif fresh_integer(G, p):
                s = INT_TYPES[ty][1]
                b = val if n == 8 else ext(z3.simplify(val), 64, s)
                p.require("value", p.get(v, "tINT_VAL") == num(tobv(b, 64), s), "the value isn't the C value")
        return G
    run.group = name
    return run


INCDEC = []
for tag, acc, sg, post in (("T_INC", "tINC_EXP", 1, False), ("T_DEC", "tDEC_EXP", -1, False),
                           ("T_P_INC", "tPINC_EXP", 1, True), ("T_P_DEC", "tPDEC_EXP", -1, True)):
    for ty in INTS:
        INCDEC.append(incdec(tag, acc, sg, post, ty))
    for tg in POINTEES:
        INCDEC.append(incdec(tag, acc, sg, post, "D_T_PTR", tg))


# ---- pointers ------------------------------------------------------------------------
def new_pointer(G, p, name="result"):
    v = p.val
    return p.require(name, p.fresh(v) and p.is_tag(v, "T_LIVE_VAR") is True and G.storage(p, v),
                     "the result isn't a new value")


def ptr_value(p, lv, mem):
    return p.E.mem_load(mem, p.get(lv, "tLV_VAL").term(), 8)


def ptr_arith(tag, acc, sign, ptr_left, target):
    name = "%s/%s/%s" % (tag, "ptr,int" if ptr_left else "int,ptr", target)

    def run(S):
        G = Group(S, name)
        E = G.E
        st = G.state()
        t = G.node(st, "t", tag)
        l, r = G.operand(st, t, acc + "_LHS"), G.operand(st, t, acc + "_RHS")
        pe, ie = (l, r) if ptr_left else (r, l)

        def on_eval(E, st, a, r):
            if a.base.eq(pe.base):
                G.as_node(st, r, "T_LIVE_VAR")
                lt = G.lv(st, r, "D_T_PTR", storage=True)
                pointee(G, E, st, lt, target)
            else:
                G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
                G.lv(st, r, *INTS, storage=True)
            return r
        E.on_eval = on_eval
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            res = G.results(p, t, [pe, ie])
            if res is None:
                continue
            (pv, pi), (iv, ii) = res
            G.frame(p)
            if not new_pointer(G, p):
                continue
            v = p.val
            p.require("type", p.ptr_eq(p.get(v, "tLV_TYPE"), p.get(pv, "tLV_TYPE")), "the result's type isn't the pointer's")
            (c, size), = pointee_size(p, p.get(pv, "tLV_TYPE"))
            got = ptr_value(p, v, p.st.mem)
            gs = []
            for m in G.mems_after(p, max(pi, ii)):
                d = bvmul(i2b(int_val(p, iv, m)), size)
                pb = ptr_value(p, pv, m)
                gs.append(got == (pb + d if sign > 0 else pb - d))
            p.require("value", gs[0] if len(gs) == 1 else z3.Or(gs), "the pointer isn't moved by whole objects")
        return G
    run.group = name
    return run


PTRARITH = [ptr_arith(t, a, s, left, tg) for t, a, s, left in
            (("T_ADD", "tADD", 1, True), ("T_ADD", "tADD", 1, False), ("T_SUB", "tSUB", -1, True)) for tg in POINTEES]


def deref_result(G, p, v, pointer_type, where):
    """v designates the object of the pointed-to type at address `where'"""
    ty = p.get(pointer_type, "tDTPTR_EXP")
    made = p.ev("struct_at")
    if p.names(ty) == {"T_DECL_COMPOUND"}:
        # an object with all members (instantiate_struct/...)
        if p.require("result", len(made) == 1 and p.ptr_eq(p.val, made[0][-1]), "not an object"):
            p.require("type", p.ptr_eq(made[0][1], ty), "the object's type isn't the pointed-to one")
            p.require("address", made[0][3].term() == where, "not the object that is pointed to")
        return
    if p.require("result", p.is_tag(v, "T_LIVE_VAR") is True and p.fresh(v), "not an object"):
        p.require("type", p.ptr_eq(p.get(v, "tLV_TYPE"), ty), "the object's type isn't the pointed-to one")
        p.require("address", p.get(v, "tLV_VAL").term() == where, "not the object that is pointed to")
        p.require("array", tobv(p.get(v, "tLV_IS_ARRAY"), 8) == 0, "the object is an array")


OBJECTS = list(SIZEOF) + ["T_FN", "T_DECL_COMPOUND"]


def c_struct(E, st, a):
    r = E.sym_ptr(st, "struct", True)
    st.ghost[("tree", r.base.get_id())] = True
    E.assume_tags(st, r, E.M.tagset("T_LIVE_COMPOUND"))
    st.events.append(("struct_at",) + tuple(a) + (r,))
    return r


def deref(target):
    name = "T_DEREF/" + target

    def run(S):
        G = Group(S, name)
        E = G.E
        st = G.state()
        E.contracts["instantiate_struct"] = c_struct
        t = G.node(st, "t", "T_DEREF")
        x = G.operand(st, t, "tDEREF_EXP")

        def on_eval(E, st, a, r):
            G.as_node(st, r, "T_LIVE_VAR")
            pointee(G, E, st, G.lv(st, r, "D_T_PTR"), target)
            return r
        E.on_eval = on_eval
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            res = G.results(p, t, [x])
            if res is None:
                continue
            pv = res[0][0]
            G.frame(p)
            where = ptr_value(p, pv, p.evals()[0][4])
            deref_result(G, p, p.val, p.get(pv, "tLV_TYPE"), where)
        return G
    run.group = name
    return run


def array_access(target):
    name = "T_ARRAY_ACCESS/" + target

    def run(S):
        G = Group(S, name)
        E = G.E
        st = G.state()
        E.contracts["instantiate_struct"] = c_struct
        t = G.node(st, "t", "T_ARRAY_ACCESS")
        l, r = G.operand(st, t, "tARR_ACCESS_OBJ"), G.operand(st, t, "tARR_ACCESS_IDX")

        def on_eval(E, st, a, r):
            if a.base.eq(l.base):
                G.as_node(st, r, "T_LIVE_VAR")
                pointee(G, E, st, G.lv(st, r, "D_T_PTR", storage=True), target)
            else:
                G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
                G.lv(st, r, *INTS, storage=True)
            return r
        E.on_eval = on_eval
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
            res = G.results(p, t, [l, r])
            if res is None:
                continue
            (pv, pi), (iv, ii) = res
            G.frame(p)
            (c, size), = pointee_size(p, p.get(pv, "tLV_TYPE"))
            m = p.evals()[-1][4]
            where = ptr_value(p, pv, m) + bvmul(i2b(int_val(p, iv, m)), size)
            deref_result(G, p, p.val, p.get(pv, "tLV_TYPE"), where)
        return G
    run.group = name
    return run


def addr(S):
    G = Group(S, "T_ADDR")
    E = G.E
    st = G.state()
    t = G.node(st, "t", "T_ADDR")
    x = G.operand(st, t, "tADDR_EXP")

    def on_eval(E, st, a, r):
        G.as_node(st, r, "T_LIVE_VAR", "T_LIVE_COMPOUND")
        G.as_node(st, E.get(st, r, "tLV_TYPE"), *ALL)
        return r
    E.on_eval = on_eval
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        res = G.results(p, t, [x])
        if res is None:
            continue
        o = res[0][0]
        G.frame(p)
        if not new_pointer(G, p):
            continue
        ty = p.get(p.val, "tLV_TYPE")
        if not p.require("pointer", p.is_tag(ty, "D_T_PTR") is True, "the result isn't a pointer"):
            continue
        to = p.get(ty, "tDTPTR_EXP")
        got = ptr_value(p, p.val, p.st.mem)
        m = p.evals()[0][4]
        if p.is_tag(o, "T_LIVE_COMPOUND") is True:
            p.require("type", p.ptr_eq(to, p.get(o, "tLV_COMP_DECL")), "the pointer's type")
            p.require("value", got == p.get(o, "tLV_COMP_BASE").term(), "not the address of the object")
        else:
            p.require("type", p.ptr_eq(to, p.get(o, "tLV_TYPE")), "the pointer's type")
            a = p.get(o, "tLV_VAL").term()
            arr = tobv(p.get(o, "tLV_IS_ARRAY"), 8) != 0
            p.require("value", got == z3.If(arr, E.mem_load(m, a, 8), a), "not the address of the object")
    return G


addr.group = "T_ADDR"


def expression_tags(E):
    """node types of expressions: what is neither a type nor a value already,
    and integer constants"""
    selfs = contracts.self_tags(E)
    return ["T_INTEGER"] + [n for i, n in enumerate(E.M.names) if i not in selfs]


def any_int(p, o, mem):
    return int_val(p, o, mem)


# ---- sizeof ----------------------------------------------------------------------------
def sizeof_(S, kind):
    G = Group(S, "T_SIZEOF/" + kind)
    E = G.E
    st = G.state()
    t = G.node(st, "t", "T_SIZEOF")
    x = G.operand(st, t, "tSZOF_EXP")
    if kind == "ctype":
        # a type that is written out is its own value
        pass

    def on_eval(E, st, a, r):
        if a.base.eq(x.base):
            if kind == "ctype":
                G.as_node(st, r, *SIZEOF)
            else:
                G.as_node(st, r, kind)
            if kind == "T_LIVE_VAR":
                G.as_node(st, E.get(st, r, "tLV_TYPE"), *SIZEOF)
            elif kind == "T_LIVE_COMPOUND":
                complete(G, E, st, E.get(st, r, "tLV_COMP_DECL"))
            elif kind == "T_DECL_COMPOUND":
                complete(G, E, st, r)
            elif kind == "T_ARRAY_TYPE":
                G.as_node(st, E.get(st, r, "tARRAY_TYPE_SZ"), *expression_tags(E))
                bt = E.get(st, r, "tARRAY_TYPE_BASE_TYPE")
                G.as_node(st, bt, "T_DECL_COMPOUND", *SIZEOF)
                complete(G, E, st, bt, True)
        else:
            G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
            G.lv(st, r, *INTS, storage=True)
        return r
    E.on_eval = on_eval
    refusable = kind in ("T_INTEGER", "T_FLOAT", "T_FN")
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "die") if refusable else ("ret",)):
        if p.out.kind == "die":
            # refused with a message
            p.require("refused", True)
            continue
        s = seen(p)
        selfs = [e for e in p.ev("selfeval") if e[1].eq(x.base)]
        if s and s[0][0].eq(x.base):
            o = s[0][1]
        elif selfs:
            o = x
        else:
            p.require("operand", False, "the operand isn't looked at")
            continue
        G.frame(p)
        if not new_pointer(G, p):
            continue
        v = p.val
        p.require("type", p.is_tag(p.get(v, "tLV_TYPE"), "D_T_ULONG") is True, "the result isn't an unsigned long")
        got = ptr_value(p, v, p.st.mem)
        for n in sorted(p.names(o)):
            c = tobool(p.is_tag(o, n))
            if n == "T_LIVE_VAR":
                ty = p.get(o, "tLV_TYPE")
                arr = z3.And(tobool(p.is_tag(ty, "D_T_PTR")), tobv(p.get(o, "tLV_IS_ARRAY"), 8) != 0)
                w = z3.And([z3.Implies(tobool(p.is_tag(ty, k)), got == SIZEOF[k]) for k in p.names(ty) if k in SIZEOF])
                w = z3.If(arr, got == uf_field(p, o, "tLV_ARRAY_SZ"), w)
            elif n == "T_LIVE_COMPOUND":
                w = got == uf_field(p, p.get(o, "tLV_COMP_DECL"), "tCOMP_DECL_SZ")
            elif n == "T_DECL_COMPOUND":
                w = got == uf_field(p, o, "tCOMP_DECL_SZ")
            elif n == "T_POINTER":
                w = got == 8
            elif n in SIZEOF:
                w = got == SIZEOF[n]
            elif n in ("T_INTEGER", "T_FLOAT"):
                # today refused; a literal's size would do as well
                w = z3.Or(got == 4, got == 8)
            elif n == "T_FN":
                w = got == 1
            elif n == "T_ARRAY_TYPE":
                bt, sz = p.get(o, "tARRAY_TYPE_BASE_TYPE"), p.get(o, "tARRAY_TYPE_SZ")
                hit = [(e[1], e[2], i) for i, e in enumerate(p.evals()) if e[1].eq(sz.base)]
                if hit:
                    cnt = any_int(p, hit[0][1], p.evals()[hit[0][2]][4])
                elif any(e[1].eq(sz.base) for e in p.ev("selfeval")):
                    cnt = any_int(p, sz, p.st.mem)
                else:
                    p.require("count", z3.Not(c), "the array's length isn't evaluated")
                    continue
                w = z3.And([z3.Implies(tobool(p.is_tag(bt, k)),
                                       got == bvmul(i2b(cnt), z3.BitVecVal(SIZEOF[k], 64) if k in SIZEOF else uf_field(p, bt, "tCOMP_DECL_SZ")))
                            for k in p.names(bt)])
                w = z3.Implies(cnt >= 0, w)
            else:
                continue
            p.require("value", z3.Implies(c, w), "not the size of the operand (%s)" % n)
    return G


def complete(G, E, st, d, cond=False):
    """assume: the struct or union type d is complete"""
    G.as_node(st, d)
    if not cond:
        G.as_node(st, d, "T_DECL_COMPOUND")
    c = TAG(d.base) == E.M.tag("T_DECL_COMPOUND")
    st.pc.append(z3.Implies(c, tobv(E.get(st, d, "tCOMP_DECL_EXPANDED"), 8) != 0))
    st.pc.append(z3.Implies(c, tobv(E.get(st, d, "tCOMP_DECL_SZ"), 64) != 0))


def sizeof(kind):
    f = lambda S: sizeof_(S, kind)
    f.group = "T_SIZEOF/" + kind
    return f

POINTERS = [deref(o) for o in OBJECTS] + [array_access(o) for o in OBJECTS if o != "T_FN"] + [addr]
SELF = [selfeval]
SIZE = [sizeof(k) for k in ("T_LIVE_VAR", "T_LIVE_COMPOUND", "T_DECL_COMPOUND", "T_POINTER", "T_ARRAY_TYPE", "ctype", "T_INTEGER", "T_FLOAT", "T_FN")]
