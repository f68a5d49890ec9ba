"""C06: statements, loops, break and return."""
import z3
from sym import *
from spec import *
from specs_expr import int_val, CMP, truth, INTS
import contracts

VISIBLE = ("eval", "selfeval", "stmts", "loop", "back")


class Ev:
    """what a path has executed: kind, node, result, memory before and after, context"""
    def __init__(self, e, i):
        self.kind, self.raw, self.i = e[0], e, i
        self.node = self.res = self.m0 = self.m1 = self.ctx = None
        if e[0] == "eval":
            self.node, self.res, self.m0, self.m1, self.ctx = Ptr(e[1]), e[2], e[3], e[4], e[5]
        elif e[0] == "stmts":
            self.node, self.res, self.m0, self.m1, self.ctx = e[1], e[2], e[3], e[4], e[5]
        elif e[0] == "selfeval":
            self.node = self.res = Ptr(e[1])


def visible(p):
    """executed nodes; the evaluation of what is a value already has no effect
    and is left out when it is that of an earlier result"""
    out, results = [], []
    for i, e in enumerate(p.st.events):
        if e[0] not in VISIBLE:
            continue
        v = Ev(e, i)
        if e[0] == "selfeval" and any(r.base.eq(e[1]) for r in results):
            continue
        if v.res is not None:
            results.append(v.res)
        out.append(v)
    return out


def child_ctx(G, p, c, parent, upto=None, fn_call=False):
    """c is a new scope inside `parent', with nothing in it"""
    E, st = p.E, p.st
    if not (p.fresh(c) and p.is_tag(c, "E_CTX") is True):
        return "not a new scope"
    if not E.S.valid(st.pc, p.ptr_eq(p.get(c, "tECTX_PARENT_CTX"), parent))[0]:
        return "the enclosing scope isn't the current one"
    fl = tobv(p.get(c, "tECTX_IS_FN_CALL"), 8)
    if not E.S.valid(st.pc, (fl != 0) if fn_call else (fl == 0))[0]:
        return "wrong kind of scope"
    maps = [p.get(c, "tECTX_" + x) for x in ("ID_MAP", "STRUCT_ID_MAP", "UNION_ID_MAP", "ALLOC_CHAIN")]
    for i, m in enumerate(maps):
        if not (p.fresh(m) and p.is_tag(m, "CHAIN_HEAD") is True):
            return "the scope's map isn't a new one"
        if any(m.base.eq(x.base) for x in maps[:i]):
            return "two maps of the scope are the same"
    if upto is not None:
        for e in st.events[:upto]:
            if e[0] == "append" and any(e[2].eq(m.base) for m in maps):
                return "the scope isn't empty"
    return None


def is_break(p, r):
    """True/False: does this result say that a break was executed?"""
    if z3.is_bv_value(r.base) and r.base.as_long() == 0:
        return False
    n = p.is_tag(r, "T_BREAK")
    if isinstance(n, bool):
        return n
    return p.E.decide(p.st, n)


def null(p):
    return p.E.S.valid(p.st.pc, p.ptr_eq(p.val, NULL))[0]


def cond_operand(G, st, c):
    E = G.E

    def on_eval(E, st, x, r):
        if x.base.eq(c.base):
            G.as_node(st, r, "T_INTEGER", "T_LIVE_VAR")
            G.lv(st, r, *CMP)
        return r
    E.on_eval = on_eval


def decided(p, c):
    c = tobool(c)
    if p.E.S.valid(p.st.pc, c)[0]:
        return True
    if p.E.S.valid(p.st.pc, z3.Not(c))[0]:
        return False
    return None


def value_of(p, e):
    """the truth of the condition that e evaluated"""
    ms = e.m1 if e.m1 is not None else p.st.mem
    return decided(p, int_val(p, e.res, ms) != 0)


def if_stmt(S):
    G = Group(S, "T_IF")
    st = G.state()
    t = G.node(st, "t", "T_IF")
    c = G.operand(st, t, "tIF_COND", *condition_tags(G.E))
    a, b = G.operand(st, t, "tIF_TRUE_STMTS"), G.E.get(st, t, "tIF_ELSE_STMTS")
    cond_operand(G, st, c)
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        v = visible(p)
        G.frame(p)
        if not p.require("condition", bool(v) and v[0].node.base.eq(c.base) and v[0].kind != "stmts", "the condition is evaluated first"):
            continue
        tr = value_of(p, v[0])
        rest = v[1:]
        if not p.require("branches", tr is not None, "the branch doesn't depend on the condition"):
            continue
        if tr:
            ok = len(rest) == 1 and rest[0].kind == "stmts" and rest[0].node.base.eq(a.base)
            p.require("then", ok, "a true condition executes the first branch, once")
        else:
            ok = len(rest) == 1 and rest[0].kind == "stmts" and rest[0].node.base.eq(b.base)
            if not rest:
                # nothing to execute
                p.require("else", p.ptr_eq(b, NULL), "a false condition executes the else branch")
                p.require("result", null(p), "the result")
                continue
            p.require("else", ok, "a false condition executes the else branch, once")
        if ok:
            why = child_ctx(G, p, rest[0].ctx, p.st.ghost["ctx0"], rest[0].i)
            p.require("scope", why is None, why or "")
            p.require("break", p.ptr_eq(p.val, rest[0].res) if is_break(p, rest[0].res) else null(p),
                      "a break isn't passed on")
    return G


if_stmt.group = "T_IF"


def condition_tags(E):
    selfs = contracts.self_tags(E)
    return ["T_INTEGER"] + [n for i, n in enumerate(E.M.names) if i not in selfs and n not in ("T_EMPTY",)]


def block(S):
    G = Group(S, "T_BLOCK")
    st = G.state()
    t = G.node(st, "t", "T_BLOCK")
    a = G.E.get(st, t, "tBLOCK_STMTS")
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        v = visible(p)
        G.frame(p)
        if p.require("body", len(v) == 1 and v[0].kind == "stmts" and v[0].node.base.eq(a.base), "the statements are executed once"):
            why = child_ctx(G, p, v[0].ctx, p.st.ghost["ctx0"], v[0].i)
            p.require("scope", why is None, why or "")
            p.require("break", p.ptr_eq(p.val, v[0].res) if is_break(p, v[0].res) else null(p), "a break isn't passed on")
    return G


block.group = "T_BLOCK"


def iterations(G, t, paths, *a):
    """what's wrong with each path.  A local variable may tell whether the loop is to
    be left: which one does is found by trying."""
    whys = [loop(G, t, p, *a) for p in paths]
    if not any(whys):
        return whys
    names = set()
    for p in paths:
        for e in p.ev("loop"):
            names |= {r for r, v in e[3].items() if r in e[2] and not isinstance(v, Ptr) and not isinstance(e[2][r], Ptr)
                      and z3.is_bv(v) and z3.is_bv_value(z3.simplify(tobv(e[2][r], v.size())))}
    for r in sorted(names, key=str):
        for same_ in (lambda v, w: v == w, lambda v, w: (v == 0) == (w == 0), lambda v, w: z3.Extract(0, 0, v) == z3.Extract(0, 0, w)):
            if not any(told(G, t, p, r, same_, *a) for p in paths):
                return [None for p in paths]
    return whys


def told(G, t, p, r, same_, *a):
    """the same, where the loop goes on as long as r has the value (or truth) that it began with"""
    on = [[]]
    for k, e in [(3, e) for e in p.ev("loop")] + [(2, e) for e in p.ev("back")]:
        start = p.ev("loop")[0][2]
        if r not in start or r not in e[k]:
            return "the variable isn't there"
        v = e[k][r]
        if isinstance(v, Ptr):
            return "no such variable"
        n = v.size() if z3.is_bv(v) else 8
        c = same_(tobv(v, n), tobv(start[r], n))
        on = [x + [y] for x in on for y in (c, z3.Not(c))]
    n = len(p.st.pc)
    for cs in on:
        p.st.pc.extend(cs)
        try:
            if not p.E.S.valid(p.st.pc, z3.BoolVal(False))[0]:
                why = loop(G, t, p, *a, on=[not z3.is_not(c) for c in cs])
                if why:
                    return why
        finally:
            del p.st.pc[n:]
    return None


def loop(G, t, p, cond, body, init=None, after=None, outer=None, on=None):
    """The path follows the loop's automaton.  C: the condition is next, S: the
    body, A: the iteration's last expression, X: the loop is left."""
    st = p.st
    q = "I" if init is not None else "C"
    mark = None
    empty = None
    for e in visible(p):
        if e.kind == "loop":
            if mark is not None:
                return "more than one loop"
            mark = q
            if on is not None and not on[0]:
                q = "X"
            continue
        if e.kind == "back":
            if q != (mark if on is None or on[-1] else "X"):
                return "an iteration is incomplete"
            continue
        if q == "C" and after is not None and p.is_tag(cond, "T_EMPTY") is True:
            q = "S"
        if q == "I":
            if e.kind == "stmts" or not e.node.base.eq(init.base):
                return "the first thing executed isn't the initialisation"
            q = "C"
            if e.ctx is not None and not same_ctx(p, e.ctx, outer):
                return "the initialisation isn't in the loop's scope"
        elif q == "C":
            if e.kind == "stmts" or not e.node.base.eq(cond.base):
                return "the condition isn't evaluated before every iteration"
            if e.ctx is not None and outer is not None and not same_ctx(p, e.ctx, outer):
                return "the condition isn't in the loop's scope"
            tr = value_of(p, e)
            if tr is None:
                return "the condition's value doesn't matter"
            q = "S" if tr else "X"
        elif q == "S":
            if e.kind != "stmts" or not e.node.base.eq(body.base):
                return "the body isn't executed after a true condition"
            why = child_ctx(G, p, e.ctx, outer(p) if outer else st.ghost["ctx0"], e.i)
            if why:
                return why
            q = "X" if is_break(p, e.res) else ("A" if after is not None else "C")
        elif q == "A":
            if e.kind == "stmts" or not e.node.base.eq(after.base):
                return "an iteration doesn't end with the last expression"
            if e.ctx is not None and not same_ctx(p, e.ctx, outer):
                return "the last expression isn't in the loop's scope"
            q = "C"
        else:
            return "something is executed after the loop is left"
    if p.out.kind == "ret":
        if q != "X":
            return "the loop is left early (%s)" % q
        if not null(p):
            return "a loop has no value"
    return None


def same_ctx(p, c, outer):
    o = outer(p)
    return o is not None and p.E.S.valid(p.st.pc, p.ptr_eq(c, o))[0]


def while_loop(S):
    G = Group(S, "T_LOOP_WHILE")
    st = G.state()
    t = G.node(st, "t", "T_LOOP_WHILE")
    c, b = G.operand(st, t, "tWLOOP_COND", *condition_tags(G.E)), G.operand(st, t, "tWLOOP_STMTS")
    cond_operand(G, st, c)
    kinds = set()
    paths = list(G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back")))
    for p, why in zip(paths, iterations(G, t, paths, c, b)):
        kinds.add(p.out.kind)
        p.require("iterations", why is None, why or "")
        G.frame(p)
    G.obl("repeats").paths += 1
    if "back" not in kinds:
        G.obl("repeats").failed.append(("", "the body is executed at most once", None))
    return G


while_loop.group = "T_LOOP_WHILE"


def for_loop(S):
    G = Group(S, "T_LOOP_FOR")
    E = G.E
    st = G.state()
    t = G.node(st, "t", "T_LOOP_FOR")
    i, c, a, b = (G.operand(st, t, "tFLOOP_" + x) for x in ("INIT", "COND", "AFTER", "STMTS"))
    E.assume_tags(st, c, E.M.tagset("T_EMPTY", *condition_tags(E)))
    cond_operand(G, st, c)

    def outer(p):
        for e in visible(p):
            if e.kind in ("eval",) and e.node.base.eq(i.base):
                return e.ctx
        # the initialisation is a value: the scope is the one that is current
        for e in p.st.events:
            if e[0] == "gstore" and e[1] == "cur_ctx":
                return e[2]
        return None
    kinds = set()
    paths = list(G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back")))
    for p, why in zip(paths, iterations(G, t, paths, c, b, i, a, outer)):
        if why is None:
            why = child_ctx(G, p, outer(p), p.st.ghost["ctx0"])
        kinds.add(p.out.kind)
        p.require("iterations", why is None, why or "")
        G.frame(p, ctx_same=p.out.kind == "ret")
        if p.out.kind == "back":
            p.require("context-iteration", same_ctx(p, p.st.glob[("cur_ctx", 0)], outer), "an iteration doesn't end in the loop's scope")
    G.obl("repeats").paths += 1
    if "back" not in kinds:
        G.obl("repeats").failed.append(("", "the body is executed at most once", None))
    return G


for_loop.group = "T_LOOP_FOR"


def return_stmt(S):
    G = Group(S, "T_RETURN")
    st = G.state()
    t = G.node(st, "t", "T_RETURN")
    x = G.E.get(st, t, "tRET_EXP")
    G.as_tree(st, x)
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        v = visible(p)
        G.frame(p)
        r = p.val
        if not p.require("result", p.fresh(r) and p.is_tag(r, "T_RETURN") is True, "not a new return"):
            continue
        got = p.get(r, "tRET_EXP")
        if not v:
            p.require("value", z3.And(p.ptr_eq(x, NULL), p.ptr_eq(got, NULL)), "the expression isn't evaluated")
        elif p.require("once", len(v) == 1 and v[0].node.base.eq(x.base), "the expression is evaluated once"):
            p.require("value", p.ptr_eq(got, v[0].res), "the value isn't the expression's")
    return G


return_stmt.group = "T_RETURN"


def leave(G, p, result):
    """the path ends as a return demands: the value is handed to the innermost
    function call's context (or ends the program when there is none)"""
    E, st = p.E, p.st
    rv = p.get(result, "tRET_EXP")
    loops = p.ev("loop")
    ctxloop = [e for e in loops if e[6] is None]
    if p.out.kind == "back":
        bk = p.ev("back")[-1]
        if bk[3]["ring"] is not None:
            return "a return doesn't end the execution of statements"
    cur = None
    if ctxloop:
        lp = ctxloop[-1]
        ptrs = [r for r, v in lp[3].items() if isinstance(v, Ptr)]
        if len(ptrs) != 1:
            return "unexpected loop"
        ph = lp[3][ptrs[0]]
        if not E.S.valid(st.pc, p.ptr_eq(lp[2][ptrs[0]], st.ghost["ctx0"]))[0]:
            return "the search doesn't start at the current scope"
        cur = ph
        if p.out.kind == "back":
            bk = p.ev("back")[-1]
            fl = tobv(p.get(ph, "tECTX_IS_FN_CALL"), 8)
            if not E.S.valid(st.pc, z3.And(ph.base != ZERO64, fl == 0))[0]:
                return "the innermost function call is passed by"
            if not E.S.valid(st.pc, p.ptr_eq(bk[2][ptrs[0]], p.get(ph, "tECTX_PARENT_CTX")))[0]:
                return "the search doesn't go from scope to enclosing scope"
            if p.ev("store"):
                return "something is written"
            return None
    if p.out.kind == "exit":
        if cur is None or not E.S.valid(st.pc, cur.base == ZERO64)[0]:
            return "the program is ended in a function"
        if not E.S.valid(st.pc, p.ptr_eq(p.ev("cscript_exit")[-1][1], rv))[0]:
            return "the program's value isn't the returned one"
        return None
    if p.out.kind == "longjmp":
        e = p.ev("longjmp")[-1]
        if cur is None:
            return "no search for the function call"
        fl = tobv(p.get(cur, "tECTX_IS_FN_CALL"), 8)
        if not E.S.valid(st.pc, z3.And(cur.base != ZERO64, fl != 0))[0]:
            return "not a function call's context"
        if not (e[1].base.eq(cur.base) and e[1].off == E.M.off("tECTX_JMP_BUF")):
            return "not the function call's jump buffer"
        n = e[2]
        if not E.S.valid(st.pc, tobv(n, 32) != 0)[0]:
            return "longjmp(, 0)"
        if not E.S.valid(st.pc, p.ptr_eq(p.get(cur, "tECTX_RETVAL"), rv))[0]:
            return "the returned value isn't handed over"
        return None
    return "a return doesn't leave the function (%s)" % p.out.kind


def statements(S):
    G = Group(S, "statements")
    E = G.E
    # nothing
    st = G.state()
    for p in G.paths(G.run(st, "__evaluate", [NULL, G.depth()]), "total/none"):
        p.require("none", null(p) and not visible(p), "nothing to execute")
    # one statement
    for which in ("one", "chain"):
        st = G.state()
        h = G.node(st, "head")
        if which == "one":
            E.assume_tags(st, h, frozenset(range(len(G.M.names))) - G.M.tagset("CHAIN_HEAD"))
        else:
            E.assume_tags(st, h, G.M.tagset("CHAIN_HEAD"))
        kinds = set()
        for p in G.paths(G.run(st, "__evaluate", [h, G.depth()]), "total/" + which, ok=("ret", "back", "longjmp", "exit")):
            v = visible(p)
            kinds.add(p.out.kind)
            ring = [e for e in p.ev("loop") if e[6] is not None]
            todo = h
            if which == "chain":
                if not p.require("chain", len(ring) == 1 and ring[0][6][1].eq(h.base), "the statements are those of the chain, from the first on"):
                    continue
                if ring[0][6][0] == "end":
                    p.require("end", p.out.kind == "ret" and null(p) and not [e for e in v if e.kind != "loop"],
                              "at the end of the chain nothing more is executed")
                    continue
                todo = Ptr(ring[0][6][3])
            x = [e for e in v if e.kind not in ("loop", "back")]
            if not p.require(which + "/once", len(x) == 1 and x[0].node.base.eq(todo.base) and x[0].kind != "stmts",
                             "a statement isn't executed exactly once"):
                continue
            r = x[0].res
            ctx = p.st.glob[("cur_ctx", 0)]
            stores = []
            if p.is_tag(r, "T_RETURN") is True:
                why = leave(G, p, r)
                p.require(which + "/return", why is None, why or "")
                stores = [(e[1], "tECTX_RETVAL") for e in p.ev("store")]
            elif is_break(p, r):
                p.require(which + "/break", p.out.kind == "ret" and p.ptr_eq(p.val, r), "a break ends the execution and is reported")
            else:
                if which == "chain":
                    bk = p.ev("back")
                    nxt = False
                    if bk:
                        name = ring[0][6][2]
                        hh = E.ring_of(bk[-1][2][name])
                        nxt = hh is not None and hh.base.eq(todo.base)
                    p.require("chain/next", p.out.kind == "back" and nxt, "the next statement is the one that follows")
                else:
                    p.require("one/result", p.out.kind == "ret" and null(p), "the result")
            G.frame(p, stores=stores)
            # __evaluate's contract, as its callers use it: nothing or a break
        G.obl("reach/" + which).paths += 1
        want = {"one": {"ret", "longjmp", "exit"}, "chain": {"ret", "back", "longjmp", "exit"}}[which]
        if not want <= kinds:
            G.obl("reach/" + which).failed.append(("", "outcomes %s" % sorted(kinds), None))
    return G


statements.group = "statements"

FLOW = [if_stmt, block, while_loop, for_loop, return_stmt, statements]
