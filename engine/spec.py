"""Specification vocabulary: what the contracts of the evaluator are written in.

Nothing here is taken from the code under verification; sizes and signedness of
the C types, for instance, are those of the x86-64 System V ABI.
"""
import time, z3
import sym, contracts
from sym import *
from ir import Unsupported

INT_TYPES = {"D_T_CHAR": (1, True), "D_T_SHORT": (2, True), "D_T_INT": (4, True),
             "D_T_LONG": (8, True), "D_T_LONGLONG": (8, True),
             "D_T_UCHAR": (1, False), "D_T_USHORT": (2, False), "D_T_UINT": (4, False),
             "D_T_ULONG": (8, False), "D_T_ULONGLONG": (8, False)}
FLT_TYPES = {"D_T_FLOAT": 32, "D_T_DOUBLE": 64, "D_T_LONGDOUBLE": 80}
SIZEOF = {k: v[0] for k, v in INT_TYPES.items()}
SIZEOF.update({"D_T_FLOAT": 4, "D_T_DOUBLE": 8, "D_T_LONGDOUBLE": 16, "D_T_PTR": 8})
C_NAMES = {"D_T_CHAR": "char", "D_T_SHORT": "short", "D_T_INT": "int", "D_T_LONG": "long",
           "D_T_LONGLONG": "long long", "D_T_UCHAR": "unsigned char", "D_T_USHORT": "unsigned short",
           "D_T_UINT": "unsigned int", "D_T_ULONG": "unsigned long", "D_T_ULONGLONG": "unsigned long long",
           "D_T_FLOAT": "float", "D_T_DOUBLE": "double", "D_T_LONGDOUBLE": "long double", "D_T_PTR": "void *"}


class Obl:
    """One named obligation; it collects the verdicts of all paths."""
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.failed = []      # (path description, detail, model)

    @property
    def ok(self):
        return self.paths > 0 and not self.failed


class Path:
    """A finished path, with the operations specifications need."""

    def __init__(self, grp, out):
        self.G, self.E, self.out, self.st, self.val = grp, grp.E, out, out.st, out.val

    # -- events
    def ev(self, *kinds):
        return [e for e in self.st.events if e[0] in kinds]

    def evals(self):
        return self.ev("eval")

    # -- requirement
    def require(self, name, cond, detail=""):
        o = self.G.obl(name)
        o.paths += 1
        if isinstance(cond, (bool, int)):
            if cond:
                return True
            r, m = self.E.S.check(self.st.pc + axioms(self.st.pc))
            if r == "unsat":
                return True
            o.failed.append((self.describe(), detail, m))
            return False
        ok, m = self.E.S.valid(self.st.pc, cond)
        if not ok:
            o.failed.append((self.describe(), detail or str(z3.simplify(cond))[:400], m))
        return ok

    def describe(self):
        d = []
        for e in self.st.events:
            if e[0] == "eval":
                r = e[2]
                ts = self.E.tags(self.st, r)
                s = "/".join(self.E.M.names[x] for x in sorted(ts)[:3]) + ("..." if len(ts) > 3 else "")
                if ts == self.E.M.tagset("T_LIVE_VAR"):
                    lt = self.E.get(self.st, r, "tLV_TYPE")
                    l2 = self.E.tags(self.st, lt)
                    s += ":" + "/".join(self.E.M.names[x] for x in sorted(l2)[:3])
                d.append(s)
        return self.out.kind + "(" + ", ".join(d) + ")" + (" " + self.out.info if self.out.info else "")

    # -- views
    def names(self, p):
        return {self.E.M.names[t] for t in self.E.tags(self.st, p)}

    def is_tag(self, p, *names):
        """condition: p's node type is one of names"""
        t = self.E.tag(self.st, p)
        vals = [self.E.M.tag(n) for n in names]
        if isinstance(t, int):
            return t in vals
        d = self.E.tags(self.st, p)
        if d <= set(vals):
            return True
        if not d & set(vals):
            return False
        return z3.Or([t == v for v in vals])

    def get(self, p, acc):
        return self.E.get(self.st, p, acc)

    def ptr_eq(self, a, b):
        return tobool(self.E.ptr_eq(self.st, a, b))

    def fresh(self, p):
        return isinstance(p, Ptr) and p.off == 0 and self.E.kindof(self.st, p.base)[0] == "fresh"


def load_int(E, mem, addr, tname):
    n, signed = INT_TYPES[tname]
    v = E.mem_load(mem, addr, n)
    if n < 8:
        v = ext(v, 64, signed)
        v = tobv(v, 64)
    return v, signed


def num(v, signed):
    return (contracts.si if signed else contracts.ui)(v)


def lv_int(E, st, lv, mem, tname):
    """the number stored in a live variable of integer type tname"""
    addr = E.get(st, lv, "tLV_VAL").term()
    if tname == "D_T_PTR":
        return num(E.mem_load(mem, addr, 8), True)
    v, s = load_int(E, mem, addr, tname)
    return num(v, s)


def int_val(path, o, mem, types=None):
    """the integer that the value o denotes, as a term over o's node type"""
    E, st = path.E, path.st
    M = E.M
    ts = E.tags(st, o)
    acc = None
    for t in sorted(ts):
        n = M.names[t]
        if n == "T_INTEGER":
            v = E.get(st, o, "tINT_VAL")
        elif n == "T_LIVE_VAR":
            lt = E.get(st, o, "tLV_TYPE")
            v = None
            for t2 in sorted(E.tags(st, lt)):
                n2 = M.names[t2]
                if n2 not in INT_TYPES and n2 != "D_T_PTR":
                    continue
                x = lv_int(E, st, o, mem, n2)
                v = x if v is None else z3.If(TAG(lt.base) == t2, x, v)
            if v is None:
                continue
        else:
            continue
        acc = v if acc is None else z3.If(TAG(o.base) == t, v, acc)
    if acc is None:
        raise Unsupported("integer value of " + str(path.names(o)))
    return acc


def loop_ints(lp):
    """the numbers that a loop changes: (name, value in the loop) of a "loop" event"""
    return [(r, v) for r, v in lp[3].items() if not isinstance(v, Ptr) and v is not lp[2].get(r)]


class Group:
    """Obligations about one function or node type."""

    def __init__(self, session, name, prop=None):
        self.S = session
        self.E = session.engine()
        self.M = session.meta
        self.name = name
        self.obls = {}
        self.errors = []
        self.notes = []
        self.npaths = 0
        self.reached = 0

    def obl(self, name):
        n = self.name + "/" + name
        if n not in self.obls:
            self.obls[n] = Obl(n)
        return self.obls[n]

    # -- set up
    def state(self):
        st = State()
        self.E.new_mem(st)
        E = self.E
        st.ghost["mem0"] = st.mem
        c = self.node(st, "ctx", "E_CTX")
        st.glob[("cur_ctx", 0)] = c
        st.ghost["ctx0"] = c
        for a in ("tECTX_ALLOC_CHAIN", "tECTX_ID_MAP", "tECTX_STRUCT_ID_MAP", "tECTX_UNION_ID_MAP"):
            if a in E.M.acc:
                h = E.get(st, c, a)
                self.as_node(st, h, "CHAIN_HEAD")
        return st

    def node(self, st, name, *tags):
        p = self.E.sym_ptr(st, name, True)
        return self.as_node(st, p, *tags)

    def as_node(self, st, p, *tags):
        """assume: p refers to an object of one of the node types"""
        self.E.assume_nonnull_once(st, p.base)
        st.ghost[("tree", p.base.get_id())] = True
        if tags:
            self.E.assume_tags(st, p, self.M.tagset(*tags))
        return p

    def as_tree(self, st, p):
        st.ghost[("tree", p.base.get_id())] = True
        return p

    def operand(self, st, t, acc, *tags):
        """assume: t's operand is there"""
        return self.as_node(st, self.E.get(st, t, acc), *tags)

    def lv(self, st, p, *types, storage=False):
        """assume about a live variable: its type, and that it has storage"""
        lt = self.E.get(st, p, "tLV_TYPE")
        self.as_node(st, lt, *types)
        if storage:
            # its storage is live: allocations don't overlap it
            contracts.note_addr(self.E, st, self.E.get(st, p, "tLV_VAL").term())
        return lt

    def depth(self):
        return self.E.fresh("depth", z3.BitVecSort(32))

    def run(self, st, fn, args):
        self.E.call(st, fn, args)
        outs = self.E.run(st)
        self.npaths += len(outs)
        return outs

    def dead(self, o):
        """an outcome that must not happen: is it impossible?"""
        r, m = self.E.S.check(o.st.pc + axioms(o.st.pc))
        return r == "unsat", m

    def paths(self, outs, total="total", ok=("ret",)):
        """the returning paths; all others must be impossible"""
        ob = self.obl(total)
        res = []
        for o in outs:
            ob.paths += 1
            p = Path(self, o)
            if o.kind in ok:
                res.append(p)
                continue
            imp, m = self.dead(o)
            if not imp:
                ob.failed.append((p.describe(), "%s %s" % (o.kind, o.info), m))
        self.reached += len(res)
        if res:
            # the assumptions aren't contradictory
            live = self.obl("reachable")
            live.paths += 1
            for p in res:
                if self.E.S.check(p.st.pc + axioms(p.st.pc), 3000)[0] != "unsat":
                    break
            else:
                live.failed.append(("", "no execution satisfies the assumptions", None))
        return res

    # -- common obligations ------------------------------------------------------
    def paths_ok(self, name, paths, cond, detail=""):
        """an obligation about all paths together"""
        o = self.obl(name)
        o.paths += 1
        if not cond:
            o.failed.append(("all paths", detail, None))
        return cond

    def frame(self, p, lvalues=(), stores=(), name="frame", appends=None, ctx_same=True, globals_=(), retags=()):
        """Nothing that existed before is changed but what is listed.

        lvalues: list of (address term, size); stores: list of (base, accessor)
        """
        E, st = self.E, p.st
        bad = []
        blocks = {b.get_id(): n for b, n in st.blocks}
        for e in st.events:
            if e[0] == "store":
                b, off = e[1], e[2]
                okk = False
                for sb, acc in stores:
                    if E.M.off(acc) == off and (sb.eq(b) or E.S.valid(st.pc, sb == b)[0]):
                        okk = True
                if not okk:
                    bad.append("writes member %s of an existing object" % E.M.at.get(off, off))
            elif e[0] == "treecopy":
                bad.append("overwrites an existing object")
            elif e[0] == "retag":
                if not any(b.eq(e[1]) and E.M.tag(n) == e[2] for b, n in retags):
                    bad.append("changes what kind of object an existing one is")
            elif e[0] == "pstore":
                a, n, base = e[1], e[2], e[5]
                okk = False
                for bl, bn in st.blocks:
                    if a.eq(bl):
                        if z3.is_bv_value(bn):
                            okk = bn.as_long() >= n
                        else:
                            okk = E.S.valid(st.pc, z3.UGE(bn, n))[0]
                for la, ln in lvalues:
                    if okk:
                        break
                    if ln == n and (la.eq(a) or E.S.valid(st.pc, la == a)[0]):
                        okk = True
                if not okk:
                    bad.append("writes %d bytes of program memory" % n)
            elif e[0] == "gstore":
                if e[1] != "cur_ctx" and e[1] not in globals_:
                    bad.append("writes " + e[1])
            elif e[0] == "append":
                new, head = e[1], e[2]
                if E.is_fresh(st, head):
                    continue
                okk = False
                if E.is_fresh(st, new):
                    nt = p.names(Ptr(new))
                    if nt == {"E_ALLOC"}:
                        okk = True
                    if appends and appends(p, new, head):
                        okk = True
                if not okk:
                    bad.append("changes a chain")
            elif e[0] == "unlink":
                bad.append("changes a chain")
            elif e[0] == "free":
                # memory of the path's own that nothing refers to
                b = e[1].base if isinstance(e[1], Ptr) and e[1].off == 0 else None
                if b is None or E.kindof(st, b)[0] != "malloc" or any(x[0] is not None and isinstance(x[3], Ptr) and x[3].base.eq(b) for x in st.log):
                    bad.append("frees memory")
        p.require(name, not bad, "; ".join(sorted(set(bad))))
        self.invariants(p)
        if ctx_same:
            p.require("context", p.ptr_eq(st.glob[("cur_ctx", 0)], st.ghost["ctx0"]), "the evaluator's context isn't restored")

    def invariants(self, p):
        """the objects that the path made satisfy the objects' invariants"""
        E, st = self.E, p.st
        bad = []
        seen = set()
        for k, (kind, birth, b) in list(st.kind.items()):
            if kind != "fresh" or k in seen or not any(i == k for i, _ in st.escaped):
                continue
            seen.add(k)
            t = E.tags(st, Ptr(b))
            if len(t) != 1:
                continue
            t = next(iter(t))
            for off, by in E.invariants.items():
                if t in by:
                    self.check_inv(p, b, off, by[t], bad)
        for e in p.ev("store"):
            if e[2] in E.invariants:
                for t in E.tags(st, Ptr(e[1])):
                    if t in E.invariants[e[2]]:
                        self.check_inv(p, e[1], e[2], E.invariants[e[2]][t], bad)
        p.require("invariants", not bad, "; ".join(sorted(set(bad))))

    def check_inv(self, p, b, off, inv, bad):
        E, st = self.E, p.st
        v = E.tree_load(st, b, off, 8, ('ptr',))
        tags, nullable = inv
        null = E.decide(st, E.icmp(st, "eq", ('ptr',), v, NULL))
        if null is True and nullable:
            return
        if null is not True and (null is False or nullable) and E.tags(st, v) <= tags:
            return
        bad.append("invariant of %s.%s" % ("/".join(p.names(Ptr(b))), E.M.at.get(off)))

    def storage(self, p, lv):
        """A new live variable has storage of its own, which the current scope
        owns: it is neither freed early nor shared."""
        E, st = self.E, p.st
        a = p.get(lv, "tLV_VAL")
        if a.off != 0 or not any(b.eq(a.base) for b, n in st.blocks):
            return False
        for e in st.events:
            if e[0] == "append" and p.names(Ptr(e[1])) == {"E_ALLOC"}:
                ap = p.get(Ptr(e[1]), "tALLOC_PTR")
                if ap.off == 0 and ap.base.eq(a.base):
                    return True
        return False

    # -- operands that have been evaluated
    def mems_after(self, p, i):
        """program memory at any time after the i-th evaluation"""
        evs = p.evals()
        ms = [e[4] for e in evs[i:]]
        out = []
        for m in ms:
            if not any(m.eq(x) for x in out):
                out.append(m)
        return out

    def results(self, p, t, accs, name="operands", exactly=True):
        """the values of t's operands: each is evaluated once"""
        E, st = self.E, p.st
        evs = p.evals()
        res = []
        for a in accs:
            want = a if isinstance(a, Ptr) else p.get(t, a)
            hits = [i for i, e in enumerate(evs) if e[1].eq(want.base)]
            if len(hits) != 1:
                p.require(name, False, "operand %s is evaluated %d times" % (a, len(hits)))
                return None
            res.append((evs[hits[0]][2], hits[0]))
        if exactly and len(evs) != len(accs):
            p.require(name, False, "%d evaluations" % len(evs))
            return None
        p.require(name, True)
        return res
