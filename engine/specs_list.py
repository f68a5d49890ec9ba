"""C18: list operations keep rings well formed.

A ring is a sequence e(0) .. e(n-1) of distinct elements, e(0) being the head,
in which every element's successor is the next one (the first after the last)
and every element's predecessor the one before it.  Rings of every length n
are covered: the code touches a bounded number of elements, the rest of the
argument is arithmetic on positions, for which the ring's definition is
instantiated at the positions that matter.
"""
import z3
from sym import *
from spec import Group, Path
from ir import Unsupported

SEQ = {}


class Ring:
    """a ring that exists before the call"""
    def __init__(self, G, st, name, minlen=1):
        self.e = uf("seq_" + name, INT, BV64)
        self.pos = uf("pos_" + name, BV64, INT)
        self.n = G.E.fresh("n_" + name, INT)
        st.pc.append(self.n >= minlen)
        self.name = name
        self.st = st

    def inst(self, NEXT, PREV, ix):
        """the definition, at position ix"""
        e, n = self.e, self.n
        inr = z3.And(ix >= 0, ix < n)
        nx = z3.If(ix + 1 == n, z3.IntVal(0), ix + 1)
        pv = z3.If(ix == 0, n - 1, ix - 1)
        return z3.Implies(inr, z3.And(NEXT(e(ix)) == e(nx), PREV(e(ix)) == e(pv), self.pos(e(ix)) == ix,
                                      self.pos(e(nx)) == nx, self.pos(e(pv)) == pv, e(ix) != ZERO64))


def links(p):
    """the successor and predecessor functions after the call"""
    E, st = p.E, p.st
    oc = E.M.off_chain
    N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)

    def final(off, f0):
        def f(x):
            v = f0(x)
            for e in st.log:
                if e[0] is None:
                    raise Unsupported("unknown changes of a list")
                b, o, sz, val = e
                if o == off:
                    if not isinstance(val, Ptr):
                        raise Unsupported("list link")
                    t = val.base if val.off == oc else (ZERO64 if z3.is_bv_value(val.base) and val.base.as_long() == 0 and val.off == 0 else None)
                    if t is None:
                        raise Unsupported("a link to something that isn't a list element")
                    v = z3.If(x == b, t, v)
            return v
        return f
    return final(oc, N0), final(oc + 8, P0)


def engine(G):
    for n in ("list_add", "list_add_tail", "list_del", "list_splice", "list_empty"):
        G.E.contracts.pop(n, None)


def elem(E, st, term):
    """a pointer to the list element `term'"""
    st.kind.setdefault(term.get_id(), ("sym", 0, term))
    st.ghost[("tree", term.get_id())] = True
    E.assume_nonnull_once(st, term)
    return Ptr(term, E.M.off_chain)


def check_ring(p, name, seq, n, rings, extra=()):
    """after the call, seq(0) .. seq(n-1) is a ring"""
    E = p.E
    N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)
    N1, P1 = links(p)
    j = E.fresh("j", INT)
    k = E.fresh("k", INT)
    nx = z3.If(j + 1 == n, z3.IntVal(0), j + 1)
    pv = z3.If(j == 0, n - 1, j - 1)
    goal = z3.And(N1(seq(j)) == seq(nx), P1(seq(j)) == seq(pv), z3.Implies(k != j, seq(k) != seq(j)))
    ax = [j >= 0, j < n, k >= 0, k < n]
    for R in rings:
        ixs = [z3.IntVal(0), z3.IntVal(1), R.n - 1, R.n - 2]
        for b in [j, k] + list(extra):
            ixs += [b, b - 1, b + 1, b - 2, b + 2]
        for m in [r.n for r in rings if r is not R]:
            for b in (j, k):
                ixs += [b - m, b - m + 1, b - m + 2, b - m - 1]
        for i in ixs:
            ax.append(R.inst(N0, P0, i))
    for a in range(len(rings)):
        for b in range(a):
            # rings have no elements in common
            A, B = rings[a], rings[b]
            for x in ixs:
                for y in ixs:
                    ax.append(z3.Implies(z3.And(x >= 0, x < A.n, y >= 0, y < B.n), A.e(x) != B.e(y)))
    p.require(name, z3.Implies(z3.And(ax), goal))


def others(p, name, mine, pre=()):
    """elements that aren't concerned keep their links"""
    E = p.E
    N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)
    N1, P1 = links(p)
    x = E.fresh("other")
    p.require(name, z3.Implies(z3.And([x != m for m in mine] + list(pre)), z3.And(N1(x) == N0(x), P1(x) == P0(x))))


def clean(p, name="frame"):
    oc = p.E.M.off_chain
    bad = [e for e in p.st.events if e[0] == "store" and e[2] not in (oc, oc + 8)] + p.ev("pstore", "gstore", "free")
    p.require(name, not bad, "something other than links is changed")


def add(fn, where):
    def rule(S):
        G = Group(S, fn)
        engine(G)
        E = G.E
        st = G.state()
        R = Ring(G, st, "h")
        h, new = R.e(z3.IntVal(0)), E.fresh("new")
        k = E.fresh("k", INT)
        N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)
        # the new element isn't in the ring
        for i in (z3.IntVal(0), z3.IntVal(1), R.n - 1):
            st.pc += [R.inst(N0, P0, i), z3.Implies(z3.And(i >= 0, i < R.n), R.e(i) != new)]
        for p in G.paths(G.run(st, fn, [elem(E, st, new), elem(E, st, h)])):
            if where == "head":
                seq = lambda i: z3.If(i == 0, h, z3.If(i == 1, new, R.e(i - 1)))
            else:
                seq = lambda i: z3.If(i == R.n, new, R.e(i))
            j2 = []
            # new is in none of the positions that are looked at
            old = p.require

            def req(name, g, p=p):
                return old(name, g)
            js = E.fresh("jj", INT)
            check_ring_new(p, "ring", seq, R, new)
            others(p, "others", [h, new, N0(h) if where == "head" else P0(h)])
            clean(p)
        return G
    rule.group = fn
    return rule


def check_ring_new(p, name, seq, R, new):
    E = p.E
    N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)
    N1, P1 = links(p)
    n = R.n + 1
    j, k = E.fresh("j", INT), E.fresh("k", INT)
    nx = z3.If(j + 1 == n, z3.IntVal(0), j + 1)
    pv = z3.If(j == 0, n - 1, j - 1)
    goal = z3.And(N1(seq(j)) == seq(nx), P1(seq(j)) == seq(pv), z3.Implies(k != j, seq(k) != seq(j)))
    ax = [j >= 0, j < n, k >= 0, k < n]
    for i in [z3.IntVal(0), z3.IntVal(1), R.n - 1, R.n - 2, j, j - 1, j + 1, j - 2, k, k - 1]:
        ax += [R.inst(N0, P0, i), z3.Implies(z3.And(i >= 0, i < R.n), R.e(i) != new)]
    p.require(name, z3.Implies(z3.And(ax), goal))


def delete(S):
    G = Group(S, "list_del")
    engine(G)
    E = G.E
    st = G.state()
    R = Ring(G, st, "h", 2)
    k = E.fresh("k", INT)
    st.pc += [k >= 1, k < R.n]
    x = R.e(k)
    N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)
    for i in (z3.IntVal(0), k - 1, k, k + 1, R.n - 1):
        st.pc.append(R.inst(N0, P0, i))
    for p in G.paths(G.run(st, "list_del", [elem(E, st, x)])):
        check_ring(p, "ring", lambda i: z3.If(i < k, R.e(i), R.e(i + 1)), R.n - 1, [R], [k])
        others(p, "others", [x, N0(x), P0(x)])
        clean(p)
    return G


delete.group = "list_del"


def splice(S):
    G = Group(S, "list_splice")
    engine(G)
    E = G.E
    st = G.state()
    A, B = Ring(G, st, "from"), Ring(G, st, "h")
    N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)
    f, h = A.e(z3.IntVal(0)), B.e(z3.IntVal(0))
    ix = lambda R: (z3.IntVal(0), z3.IntVal(1), R.n - 1)
    for R in (A, B):
        for i in ix(R):
            st.pc.append(R.inst(N0, P0, i))
    for i in ix(A):
        for j in ix(B):
            st.pc.append(z3.Implies(z3.And(i >= 0, i < A.n, j >= 0, j < B.n), A.e(i) != B.e(j)))
    for p in G.paths(G.run(st, "list_splice", [elem(E, st, f), elem(E, st, h)])):
        m = A.n - 1
        seq = lambda i: z3.If(i == 0, h, z3.If(i <= m, A.e(i), B.e(i - m)))
        check_ring(p, "ring", seq, B.n + m, [A, B])
        clean(p)
    return G


splice.group = "list_splice"


def empty(S):
    G = Group(S, "list_empty")
    engine(G)
    E = G.E
    st = G.state()
    R = Ring(G, st, "h")
    N0, P0 = uf("NEXT", BV64, BV64), uf("PREV", BV64, BV64)
    for i in (z3.IntVal(0), z3.IntVal(1)):
        st.pc.append(R.inst(N0, P0, i))
    for p in G.paths(G.run(st, "list_empty", [elem(E, st, R.e(z3.IntVal(0)))])):
        v = tobv(p.val, 32)
        p.require("result", (v != 0) == (R.n == 1))
        p.require("frame", not p.ev("store", "pstore", "gstore"))
    return G


empty.group = "list_empty"

def chain(S):
    G = Group(S, "tree_chain")
    E = G.E
    st = G.state()
    new, head = G.node(st, "new"), G.node(st, "head")
    for p in G.paths(G.run(st, "tree_chain", [new, head]), "total/tree_chain"):
        a = p.ev("append")
        p.require("tail", len(a) == 1 and a[0][1].eq(new.base) and a[0][2].eq(head.base) and a[0][3] == "tail",
                  "the element isn't appended to the chain")
        clean(p, "frame")
    st = G.state()
    x = G.node(st, "x")
    for p in G.paths(G.run(st, "tree_unchain", [x]), "total/tree_unchain"):
        p.require("unchain", [e[0] for e in p.ev("append", "unlink")] == ["unlink"] and p.ev("unlink")[0][1].eq(x.base),
                  "the element isn't removed")
        clean(p, "frame")
    st = G.state()
    first = G.node(st, "first")
    for p in G.paths(G.run(st, "tree_chain_head", [first]), "total/tree_chain_head"):
        a = p.ev("append")
        r = p.val
        ok = p.fresh(r) and p.is_tag(r, "CHAIN_HEAD") is True
        p.require("head", ok, "not a new chain")
        p.require("first", len(a) == 1 and a[0][1].eq(first.base) and a[0][2].eq(r.base), "the element isn't in the new chain")
        clean(p, "frame")
    st = G.state()
    ty = E.fresh("type", z3.BitVecSort(32))
    for p in G.paths(G.run(st, "tree_make", [ty]), "total/tree_make"):
        r = p.val
        oc = E.M.off_chain
        n, v = (E.tree_load(p.st, r.base, o, 8, ('ptr',)) for o in (oc, oc + 8))
        p.require("alone", p.fresh(r) and n.base.eq(r.base) and n.off == oc and v.base.eq(r.base) and v.off == oc,
                  "a new object isn't a ring of its own")
        t = E.tag(p.st, r)
        p.require("type", tobv(t, 32) == ty)
    return G


chain.group = "tree_chain"

LIST = [chain, add("list_add", "head"), add("list_add_tail", "tail"), delete, splice, empty]
