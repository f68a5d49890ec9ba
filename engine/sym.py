"""Path-wise symbolic execution of the repository's code (LLVM IR) against contracts.

All values are symbolic, every feasible path is followed, and every call of a
function under contract is replaced with its contract, so an obligation that is
discharged here holds for all inputs.  See DESIGN.md for the memory model.
"""
import itertools, time
import z3
from ir import Unsupported

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
INT = z3.IntSort()
BOOL = z3.BoolSort()


class Incomplete(Exception):
    """The engine could not finish (budget); never counted as a proof."""


class Fork(Exception):
    """The instruction needs to know whether `cond` holds."""
    def __init__(self, cond):
        self.cond = cond


class Widen(Exception):
    """A loop changes something that its first analysis took to be constant."""


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off=0):
        self.base, self.off = base, off

    def term(self):
        if self.off == 0:
            return self.base
        return self.base + z3.BitVecVal(self.off & (2 ** 64 - 1), 64)

    def __repr__(self):
        return "Ptr(%s%+d)" % (self.base, self.off)


class FP:
    """A floating point value: its bits, as a bit vector term."""
    __slots__ = ("bits", "t")

    def __init__(self, bits, t):
        self.bits, self.t = bits, t

    def __repr__(self):
        return "FP%d(%s)" % (self.bits, self.t)


ZERO64 = z3.BitVecVal(0, 64)
NULL = Ptr(ZERO64, 0)

# ---- mathematical integers ---------------------------------------------------
# SI/UI: value of a 64 bit word as a signed/unsigned number, I2B: a number
# modulo 2^64.  Axioms for the terms in a query are added by `axioms'.
SI = z3.Function("SI", BV64, INT)
UI = z3.Function("UI", BV64, INT)
I2B = z3.Function("I2B", INT, BV64)
MPZ = z3.Function("MPZ", BV64, INT)
MPF = z3.Function("MPF", BV64, INT)
TAG = z3.Function("TAG", BV64, z3.BitVecSort(32))
STR = z3.Function("STR", BV64, INT)
OPS = {}
for n in ("XOR", "IOR", "AND", "TDIV", "TMOD", "FDIV", "FMOD", "CDIV", "CMOD", "GCD", "POW"):
    OPS[n] = z3.Function("Z" + n, INT, INT, INT)
SHL = z3.Function("ZSHL", INT, BV64, INT)
FSHR = z3.Function("ZFSHR", INT, BV64, INT)
TSHR = z3.Function("ZTSHR", INT, BV64, INT)
COM = z3.Function("ZCOM", INT, INT)
_uf = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


def opz(name, a, b):
    if name in ("XOR", "IOR", "AND", "GCD") and a.get_id() > b.get_id():
        a, b = b, a
    return OPS[name](a, b)


def is_app(e, f):
    return z3.is_app(e) and e.decl().eq(f)


def i2b(e):
    if is_app(e, SI) or is_app(e, UI):
        return e.arg(0)
    if z3.is_int_value(e):
        return z3.BitVecVal(e.as_long() % 2 ** 64, 64)
    if z3.is_add(e):
        r = i2b(e.arg(0))
        for c in e.children()[1:]:
            r = r + i2b(c)
        return r
    if z3.is_sub(e):
        r = i2b(e.arg(0))
        for c in e.children()[1:]:
            r = r - i2b(c)
        return r
    if z3.is_mul(e):
        r = i2b(e.arg(0))
        for c in e.children()[1:]:
            r = r * i2b(c)
        return r
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
        return -i2b(e.arg(0))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), i2b(e.arg(1)), i2b(e.arg(2)))
    return I2B(e)


def get_ui(v):
    b = i2b(v)
    return z3.If(v < 0, -b, b)


def get_si(v):
    b = i2b(v)
    mx = z3.BitVecVal(2 ** 63 - 1, 64)
    return z3.If(z3.And(v >= -2 ** 63, v < 2 ** 63), b,
                 z3.If(v < 0, ~((-b - 1) & mx), b & mx))


def subterms(es):
    seen, out, st = set(), [], list(es)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(e)
        if z3.is_app(e):
            st.extend(e.children())
        elif z3.is_quantifier(e):
            st.append(e.body())
    return out


def ground(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return False
        st.extend(x.children())
    return True


TWO64 = 2 ** 64


def axioms(es, extra=None):
    """Instances of the integer axioms for the terms in a query."""
    ax = []
    sis, i2bs, strc = [], [], []
    done = set()
    for e in subterms(es):
        if not z3.is_app(e) or e.num_args() == 0:
            continue
        d = e.decl().name()
        if d == "MUL64" and ground(e):
            ax.append(e == MUL64(e.arg(1), e.arg(0)))
        if d.startswith("sitofp_") and ground(e):
            w = e.arg(0)
            ax.append(z3.Implies(w >= 0, e == uf("ui" + d[2:], BV64, e.sort())(w)))
        if d in ("SI", "UI", "I2B", "ZSHL", "ZFSHR", "ZTDIV", "ZTMOD", "STRCMP") and ground(e):
            if d in ("SI", "UI"):
                x = e.arg(0)
                if x.get_id() not in done:
                    done.add(x.get_id())
                    sis.append(x)
            elif d == "I2B":
                i2bs.append(e)
            elif d == "ZSHL":
                ax.append(z3.Implies(e.arg(1) == 0, e == e.arg(0)))
            elif d == "STRCMP":
                strc.append(e)
    for e in i2bs:
        v = e.arg(0)
        x = e
        if x.get_id() not in done:
            done.add(x.get_id())
            sis.append(x)
        ax.append(z3.Implies(z3.And(v >= -2 ** 63, v < 2 ** 63), SI(x) == v))
        ax.append(z3.Implies(z3.And(v >= 0, v < TWO64), UI(x) == v))
    for x in sis:
        s, u = SI(x), UI(x)
        ax += [s >= -2 ** 63, s < 2 ** 63, (s < 0) == (x < 0), (s == 0) == (x == 0),
               u == z3.If(s < 0, s + TWO64, s)]
        if z3.is_bv_value(x):
            ax.append(s == z3.BitVecVal(x.as_long(), 64).as_signed_long())
        for y in ():
            pass
    # order and injectivity, and constants
    if len(sis) <= 12:
        for x, y in itertools.combinations(sis, 2):
            ax.append((SI(x) < SI(y)) == (x < y))
            ax.append((SI(x) == SI(y)) == (x == y))
    for e in strc:
        ax.append((e == 0) == (STR(e.arg(0)) == STR(e.arg(1))))
    return ax


# ---- solver --------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.max = 0.0


class Solver:
    def __init__(self, timeout=5000):
        self.timeout = timeout
        self.stats = Stats()
        self.cache = {}

    def check(self, assertions, timeout=None):
        """'sat' / 'unsat' / 'unknown', and the model"""
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for a in assertions:
            s.add(a)
        r = s.check()
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        self.stats.max = max(self.stats.max, dt)
        return str(r), (s.model() if r == z3.sat else None)

    def feasible(self, pc, cond):
        r, _ = self.check(pc + [cond] + axioms(pc + [cond]), 3000)
        return r != "unsat"

    def valid(self, pc, goal, timeout=None):
        """(True, None), or (False, model or None)"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, None
        q = list(pc) + [z3.Not(g)]
        r, m = self.check(q + axioms(q), timeout or 20000)
        return r == "unsat", m if r == "sat" else None


# ---- state ---------------------------------------------------------------------
def bvmul(a, b):
    """a product of two unknown words is left uninterpreted"""
    if a.size() != 64 or z3.is_bv_value(a) or z3.is_bv_value(b):
        return a * b
    return MUL64(a, b)


MUL64 = z3.Function("MUL64", BV64, BV64, BV64)


class Frame:
    __slots__ = ("fn", "block", "prev", "idx", "regs", "parent", "res", "after", "loops")

    def __init__(self, fn, parent, res):
        self.fn, self.parent, self.res = fn, parent, res
        self.block, self.prev, self.idx, self.regs = fn.entry, None, 0, {}
        self.after = None
        self.loops = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, self_parent = self.fn, self.parent
        f.parent, f.res, f.block, f.prev, f.idx = self_parent, self.res, self.block, self.prev, self.idx
        f.regs = dict(self.regs)
        f.after = self.after
        f.loops = self.loops
        return f


class State:
    def __init__(self):
        self.pc = []
        self.dom = {}        # id of a base term -> frozenset of possible tags
        self.nonnull = {}    # id of a base term -> bool (True: known non-null)
        self.kind = {}       # id of a base term -> dict (kind, birth ...)
        self.log = []        # tree field stores
        self.mpz = []        # mpz stores
        self.glob = {}
        self.mem = None      # payload memory (array term)
        self.mems = []       # payload memory versions, for contracts
        self.stack = {}
        self.events = []
        self.frame = None
        self.blocks = []     # malloc'd blocks
        self.epoch = 0
        self.ghost = {}
        self.escaped = frozenset()
        self.steps = 0

    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.dom = dict(self.dom)
        s.nonnull = dict(self.nonnull)
        s.kind = dict(self.kind)
        s.log = list(self.log)
        s.mpz = list(self.mpz)
        s.glob = dict(self.glob)
        s.mem = self.mem
        s.mems = list(self.mems)
        s.stack = dict(self.stack)
        s.events = list(self.events)
        s.frame = self.frame.clone() if self.frame else None
        s.blocks = list(self.blocks)
        s.epoch = self.epoch
        s.ghost = dict(self.ghost)
        s.escaped = self.escaped
        s.steps = self.steps
        return s


class Outcome:
    def __init__(self, kind, st, val=None, info=""):
        self.kind, self.st, self.val, self.info = kind, st, val, info


def mask(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    v = mask(v, w)
    return v - (1 << w) if v >> (w - 1) else v


def tobv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    return v


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def tobool(c):
    if isinstance(c, (int, bool)):
        return z3.BoolVal(bool(c))
    return c


class Engine:
    def __init__(self, mods, meta, layout, solver=None):
        self.mods = mods
        self.fns = {}
        self.globals = {}
        for m in mods:
            for n, f in m.functions.items():
                self.fns.setdefault(n, f)
            for n, g in m.globals.items():
                if n not in self.globals or (self.globals[n][3] and not g[3]):
                    self.globals[n] = g
        self.M = meta
        self.L = layout
        self.S = solver or Solver()
        self.contracts = {}
        self.counter = itertools.count()
        self.max_paths = 20000
        self.max_steps = 200000
        self.used_contracts = set()
        self.inlined = set()
        self.deadline = None
        self.unroll = set()
        self.disjoint = set()
        self.keep = []
        self.widen = {}
        self.constants = True       # numbers that no iteration changes are those from before the loop
        self.on_loop = None
        self.on_elem = None
        self.on_pload = None
        self.mutable = lambda E: {}
        self.may_change = None
        self.stack_names = {}
        self.invariants = {}
        self.field_kinds = {}
        self.global_ids = {}
        self.strings = {}
        self.incall = None      # the call that is being executed, symbols that it has made

    # -- symbols
    def fresh(self, name, sort=BV64):
        # a call that is executed again after a case distinction makes the same symbols
        if self.incall is not None:
            self.incall[1] += 1
            return z3.Const("%s!c%d.%d" % (name, self.incall[0], self.incall[1]), sort)
        return z3.Const("%s!%d" % (name, next(self.counter)), sort)

    def sym_ptr(self, st, name, nonnull=False, kind="sym"):
        b = self.fresh(name)
        st.kind[b.get_id()] = (kind, len(st.events), b)
        if nonnull:
            self.assume_nonnull(st, b)
        return Ptr(b)

    def assume_nonnull(self, st, b):
        st.nonnull[b.get_id()] = True
        st.pc.append(b != ZERO64)

    def assume_tags(self, st, p, tags):
        b = p.base
        old = st.dom.get(b.get_id())
        tags = frozenset(tags)
        new = tags if old is None else old & tags
        st.dom[b.get_id()] = new
        st.kind.setdefault(b.get_id(), ("sym", len(st.events), b))
        st.pc.append(z3.Or([TAG(b) == t for t in sorted(new)]) if new else z3.BoolVal(False))

    def glob_ptr(self, name):
        if name not in self.global_ids:
            self.global_ids[name] = z3.BitVecVal(0x7f0000000000 + 0x1000 * (1 + len(self.global_ids)), 64)
        return Ptr(self.global_ids[name])

    def glob_name(self, base):
        for n, b in self.global_ids.items():
            if b.eq(base):
                return n
        return None

    def cstring(self, name):
        """contents of a constant string global"""
        g = self.globals.get(name)
        if g and g[1] and g[1][0] == 'cstr':
            return g[1][1]
        if g and g[1] and g[1][0] == 'zero' and g[2] and g[0][0] == 'array':
            return 'c"\\00"'
        return None

    def str_id(self, st, p):
        """abstract identity of the string's contents"""
        n = self.glob_name(p.base) if p.off == 0 else None
        if n is not None:
            c = self.cstring(n)
            if c is not None:
                if c not in self.strings:
                    self.strings[c] = len(self.strings) + 1
                return z3.IntVal(-self.strings[c])
        return STR(p.term())

    # -- decisions
    def kindof(self, st, base):
        return st.kind.get(base.get_id(), (None, 0, base))

    def is_fresh(self, st, base):
        return self.kindof(st, base)[0] in ("fresh", "malloc")

    def decide(self, st, cond):
        """True / False / None (both possible); cond: python bool, int or z3 Bool"""
        if isinstance(cond, (int, bool)):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        q = self.quick(st, c)
        if q is not None:
            return q
        if self.tag_only(st, c):
            return None
        if not self.S.feasible(st.pc, c):
            return False
        if not self.S.feasible(st.pc, z3.Not(c)):
            return True
        return None

    def quick(self, st, c):
        """Tag and null tests, from the domains alone."""
        if z3.is_not(c):
            r = self.quick(st, c.arg(0))
            return None if r is None else not r
        if z3.is_or(c) or z3.is_and(c):
            disj = z3.is_or(c)
            rs = [self.quick(st, x) for x in c.children()]
            if disj in rs:
                return disj
            if None not in rs:
                return not disj
            return None
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                if is_app(a, TAG):
                    d = st.dom.get(a.arg(0).get_id())
                    if d is not None:
                        v = b.as_long()
                        if v not in d:
                            return False
                        if len(d) == 1:
                            return True
                        return None
                elif b.as_long() == 0 and b.size() == 64:
                    nn = st.nonnull.get(a.get_id())
                    if nn is True:
                        return False
        return None

    def tag_only(self, st, c):
        """Tests of a node's type that its domain leaves open: both branches
        are followed without asking the solver (more paths, never fewer)."""
        if z3.is_not(c):
            return self.tag_only(st, c.arg(0))
        if z3.is_or(c) or z3.is_and(c):
            ids = set()
            for x in c.children():
                while z3.is_not(x):
                    x = x.arg(0)
                if not self.tag_only(st, x):
                    return False
                ids.add(self.tag_subject(x))
            return len(ids) == 1
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
            return z3.is_bv_value(b) and is_app(a, TAG) and a.arg(0).get_id() in st.dom
        return False

    def tag_subject(self, c):
        while not z3.is_eq(c):
            c = c.arg(0)
        a = c.arg(0) if is_app(c.arg(0), TAG) else c.arg(1)
        return a.arg(0).get_id()

    def assume(self, st, cond):
        c = z3.simplify(tobool(cond))
        if z3.is_true(c):
            return
        st.pc.append(c)
        self.learn(st, c, True)

    def learn(self, st, c, pos):
        if z3.is_not(c):
            return self.learn(st, c.arg(0), not pos)
        if z3.is_and(c) and pos or z3.is_or(c) and not pos:
            for x in c.children():
                self.learn(st, x, pos)
            return
        if z3.is_or(c):
            # a tag is one of several
            k, vs = None, set()
            for x in c.children():
                if not z3.is_eq(x):
                    return
                a, b = x.arg(0), x.arg(1)
                if z3.is_bv_value(a):
                    a, b = b, a
                if not (z3.is_bv_value(b) and is_app(a, TAG)) or (k is not None and a.arg(0).get_id() != k):
                    return
                k = a.arg(0).get_id()
                vs.add(b.as_long())
            if k is not None:
                d = st.dom.get(k)
                st.dom[k] = frozenset(vs) if d is None else d & frozenset(vs)
            return
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                if is_app(a, TAG):
                    k = a.arg(0).get_id()
                    d = st.dom.get(k)
                    if d is None:
                        d = frozenset(range(len(self.M.names)))
                    v = b.as_long()
                    st.dom[k] = frozenset([v]) if pos else d - {v}
                elif b.size() == 64 and b.as_long() == 0:
                    st.nonnull[a.get_id()] = not pos
                    st.kind.setdefault(a.get_id(), ("sym", 0, a))
            elif pos and b.sort() == BV64:
                pass

    def choose(self, st, cond):
        """Decide cond or fork on it."""
        r = self.decide(st, cond)
        if r is None:
            raise Fork(cond)
        return r

    # -- pointers
    def ptr_eq(self, st, a, b):
        if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
            if a.base.eq(b.base):
                return True
            d = self.alias(st, a.base, b.base)
            if d is not None:
                return d
            return a.base == b.base
        ka, kb = self.kindof(st, a.base)[0], self.kindof(st, b.base)[0]
        return a.term() == b.term()

    def alias(self, st, a, b):
        """True/False/None for equality of two base terms, without the solver"""
        if a.eq(b):
            return True
        za, zb = z3.is_bv_value(a), z3.is_bv_value(b)
        if za and zb:
            return a.as_long() == b.as_long()
        ka, kb = self.kindof(st, a), self.kindof(st, b)
        fa, fb = ka[0] in ("fresh", "malloc"), kb[0] in ("fresh", "malloc")
        if fa and fb:
            return False
        if zb:
            a, b, ka, kb, fa, fb, za, zb = b, a, kb, ka, fb, fa, zb, za
        if za:
            if fb:
                return False
            if a.as_long() == 0 and st.nonnull.get(b.get_id()) is True:
                return False
            return None
        if fb:
            a, b, ka, kb, fa, fb = b, a, kb, ka, fb, fa
        if fa:
            # b is some other symbol: it can only be a fresh object if that
            # object had escaped before the symbol came into being.
            esc = [n for (i, n) in st.escaped if i == a.get_id()]
            if not esc:
                return False
            if kb[0] is not None and kb[1] < min(esc):
                return False
            d = st.dom.get(b.get_id())
            if d is not None and len(d) < len(self.M.names) and ka[0] == "fresh" and not d & self.tags(st, Ptr(a)):
                # objects of different types
                return False
            return None
        return None

    def escape(self, st, v):
        """v has become reachable from memory that other code can see"""
        if not isinstance(v, Ptr):
            return
        todo = [v.base]
        while todo:
            b = todo.pop()
            if not self.is_fresh(st, b):
                continue
            if any(i == b.get_id() for i, _ in st.escaped):
                continue
            st.escaped = st.escaped | {(b.get_id(), len(st.events))}
            for e in st.log:
                if e[0] is not None and e[0].eq(b) and isinstance(e[3], Ptr):
                    todo.append(e[3].base)

    def field_kind(self, off):
        n = self.M.at.get(off)
        if n is None:
            if off in (self.M.off_chain, self.M.off_chain + 8):
                return "list"
            return "other"
        ct = self.M.field[n][2]
        if ct == "tree":
            return "tree"
        return "other"

    # -- tree memory
    def tree_load(self, st, base, off, size, ty):
        if off == self.M.off_type and not self.is_fresh(st, base):
            rt = st.ghost.get(("retag", base.get_id()))
            return rt if rt is not None else self.initial(st, base, off, size, ty, 0)
        for i in range(len(st.log) - 1, -1, -1):
            e = st.log[i]
            if e[0] is None:
                # havoc: e[1](st, base, off) -> True when the field may have changed
                if e[1](self, st, base, off):
                    return self.initial(st, base, off, size, ty, e[2])
                continue
            b, o, sz, v = e
            if o + sz <= off or off + size <= o:
                continue
            al = self.alias(st, b, base)
            if al is False:
                continue
            if al is None:
                # fields of different node types can't be the same memory cell
                if not self.choose(st, b == base):
                    continue
            if o == off and sz == size:
                return self.retype(st, v, ty)
            if v == 'zero' or v == 'copy':
                pass
            raise Unsupported("partial overlap of tree fields at %d" % off)
        if self.kindof(st, base)[0] == "fresh":
            src = st.ghost.get(("copyof", base.get_id()))
            if src is not None:
                sbase, logpos = src
                saved = st.log
                st.log = st.log[:logpos]
                try:
                    return self.tree_load(st, sbase, off, size, ty)
                finally:
                    st.log = saved
            return self.zero(ty)
        return self.initial(st, base, off, size, ty, 0)

    def zero(self, ty):
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'int':
            return 0
        raise Unsupported("zero of %r" % (ty,))

    def retype(self, st, v, ty):
        if ty[0] == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return Ptr(z3.BitVecVal(v, 64))
            return Ptr(v)
        if ty[0] == 'int' and isinstance(v, Ptr):
            return v.term()
        return v

    def initial(self, st, base, off, size, ty, epoch):
        tag = "" if not epoch else "@%s" % epoch
        if off == self.M.off_type:
            d = st.dom.get(base.get_id())
            if d is not None and len(d) == 1:
                return next(iter(d))
            return TAG(base)
        name = self.M.at.get(off)
        k = self.field_kind(off)
        if k == "list":
            f = uf(("NEXT" if off == self.M.off_chain else "PREV") + tag, BV64, BV64)
            r = f(base)
            self.note(st, r, base)
            self.assume_nonnull_once(st, r)
            return Ptr(r, self.M.off_chain)
        f = uf((name or "f%d" % off) + tag, BV64, z3.BitVecSort(size * 8))
        r = f(base)
        if ty[0] == 'ptr':
            self.note(st, r, base)
            if off in self.invariants and ("inv", r.get_id()) not in st.ghost:
                self.assume_inv(st, base, off, r)
            return Ptr(r)
        if ty[0] == 'int':
            if size == 1 and name and name.startswith("flag"):
                # bool members hold 0 or 1
                b = uf(name + tag + "?", BV64, BOOL)(base)
                return z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return r
        raise Unsupported("field of type %r" % (ty,))

    def assume_inv(self, st, base, off, r):
        """the invariant of the object's members (INVARIANTS in contracts.py)"""
        t = self.tags(st, Ptr(base))
        if len(t) != 1:
            return
        inv = self.invariants[off].get(next(iter(t)))
        if inv is None:
            return
        tags, nullable = inv
        st.ghost[("inv", r.get_id())] = True
        st.ghost[("tree", r.get_id())] = True
        st.dom[r.get_id()] = tags if r.get_id() not in st.dom else tags & st.dom[r.get_id()]
        ors = [TAG(r) == x for x in sorted(tags)]
        if nullable:
            ors.append(r == ZERO64)
        else:
            self.assume_nonnull_once(st, r)
        st.pc.append(z3.Or(ors))

    def note(self, st, r, base):
        if r.get_id() not in st.kind:
            # what an old object refers to is as old as the object, unless a
            # call happened since; the epoch of the read decides.
            kb = self.kindof(st, base)
            st.kind[r.get_id()] = ("sym", max(kb[1], st.ghost.get("lastcall", 0)) if kb[0] else 0, r)

    def assume_nonnull_once(self, st, b):
        if st.nonnull.get(b.get_id()) is None:
            self.assume_nonnull(st, b)

    def tree_store(self, st, base, off, size, v, ty=None):
        k = self.kindof(st, base)[0]
        if k != "fresh" and off == self.M.off_type:
            # (obligation frame: allowed where a specification says so)
            if not isinstance(v, int):
                raise Unsupported("the type of an existing object is changed")
            st.ghost[("retag", base.get_id())] = v
            st.events.append(("retag", base, v))
            return
        if k == "fresh":
            if any(i == base.get_id() for i, _ in st.escaped):
                self.escape(st, v)
        else:
            st.events.append(("store", base, off, size, v))
            self.escape(st, v)
        st.log.append((base, off, size, v))

    # field access for specifications
    def get(self, st, p, accessor):
        tagname, mem = self.M.acc[accessor]
        off, ty, ct = self.M.field[mem]
        if mem.startswith("integer"):
            return self.mpz_get(st, Ptr(p.base, p.off + off))
        size = self.L.size_align(ty)[0]
        return self.tree_load(st, p.base, p.off + off, size, ty)

    def tag(self, st, p):
        if not self.is_fresh(st, p.base):
            rt = st.ghost.get(("retag", p.base.get_id()))
            if rt is not None:
                return rt
            # the type of an object that exists never changes (tree_store)
            return self.initial(st, p.base, 0, 4, ('int', 32), 0)
        return self.tree_load(st, p.base, 0, 4, ('int', 32))

    def tags(self, st, p):
        """the tags that p can have on this path (frozenset)"""
        t = self.tag(st, p)
        if isinstance(t, int):
            return frozenset([t])
        d = st.dom.get(p.base.get_id())
        return d if d is not None else frozenset(range(len(self.M.names)))

    # -- mpz
    def mpz_get(self, st, p):
        for b, o, v in reversed(st.mpz):
            if b is None:
                if self.is_fresh(st, p.base) and self.kindof(st, p.base)[1] >= v:
                    continue
                return uf("MPZ@" + o, BV64, INT)(p.base)
            if o != p.off:
                continue
            al = self.alias(st, b, p.base)
            if al is False:
                continue
            if al is None and not self.choose(st, b == p.base):
                continue
            return v
        src = st.ghost.get(("copyof", p.base.get_id()))
        if src is not None:
            return MPZ(src[0])
        if self.kindof(st, p.base)[0] == "fresh":
            st.events.append(("badmpz", p))
            return self.fresh("uninit", INT)
        return MPZ(p.base)

    def mpz_set(self, st, p, v):
        if self.kindof(st, p.base)[0] != "fresh":
            st.events.append(("store", p.base, p.off, 16, v))
        st.mpz.append((p.base, p.off, v))

    def mpz_init(self, st, p, v):
        st.events.append(("mpzinit", p.base, p.off))
        self.mpz_set(st, p, v)

    # -- payload memory
    def mem_load(self, mem, addr, nbytes):
        b, o = split_addr(addr)
        bs = [self.mem_byte(mem, b, (o + i) % 2 ** 64, simp_t(addr + z3.BitVecVal(i, 64)) if i else addr)
              for i in range(nbytes)]
        e = bs[0] if nbytes == 1 else z3.Concat(*reversed(bs))
        return z3.simplify(e)

    def mem_byte(self, mem, b, o, addr):
        """read over write, as far as it is decided without the solver"""
        while z3.is_store(mem):
            b2, o2 = split_addr(mem.arg(1))
            if b2.eq(b):
                if o2 == o:
                    return mem.arg(2)
            elif not (o < 16 and o2 < 16 and (b.get_id(), b2.get_id()) in self.disjoint):
                break
            mem = mem.arg(0)
        return z3.Select(mem, addr)

    def mem_store(self, mem, addr, v, nbytes):
        for i in range(nbytes):
            mem = z3.Store(mem, simp_t(addr + z3.BitVecVal(i, 64)) if i else addr,
                           z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)))
        return mem

    def is_treeptr(self, st, p):
        """does this access go to a tree object (as opposed to program memory)?"""
        return st.ghost.get(("tree", p.base.get_id()), False)

    def load(self, st, p, ty):
        n = self.glob_name(p.base) if z3.is_bv_value(p.base) else None
        if n is not None:
            return self.glob_load(st, n, p, ty)
        k = self.kindof(st, p.base)[0]
        if k == "stack":
            key = (p.base.get_id(), p.off)
            if key in st.stack:
                return self.retype(st, st.stack[key], ty)
            v = self.havoc(st, "uninit", ty)
            st.stack[key] = v
            return v
        size = {'fp': lambda: ty[1] // 8}.get(ty[0], lambda: self.L.size_align(ty)[0])()
        if k == "fresh" or self.is_treeptr(st, p):
            self.need_nonnull(st, p)
            io = self.int_field(p.off)
            if io is not None:
                return self.mpz_raw(st, p, io, ty)
            return self.tree_load(st, p.base, p.off, size, ty)
        return self.payload_load(st, p, ty, size)

    def payload_load(self, st, p, ty, size):
        st.events.append(("pload", p.term(), size))
        v = self.mem_load(st.mem, p.term(), size)
        if self.on_pload is not None and ty[0] == 'ptr':
            v = z3.simplify(v)
            st.kind.setdefault(v.get_id(), ("sym", len(st.events), v))
            self.on_pload(self, st, p.term(), v)
        if ty[0] == 'fp':
            return FP(ty[1], v)
        if ty[0] == 'ptr':
            v = z3.simplify(v)
            self.note_loaded(st, v)
            return Ptr(v)
        if ty[0] == 'int':
            return simp(v)
        raise Unsupported("load %r" % (ty,))

    def note_loaded(self, st, v):
        st.kind.setdefault(v.get_id(), ("sym", len(st.events), v))

    def int_field(self, off):
        for n, (o, ty, ct) in self.M.field.items():
            if ct == "mpz_t" and o <= off < o + 16:
                return off - o
        return None

    def mpz_raw(self, st, p, o, ty):
        if o != 4 or ty != ('int', 32):
            raise Unsupported("raw access to an mpz_t")
        v = self.mpz_get(st, Ptr(p.base, p.off - o))
        r = self.fresh("mpsize", z3.BitVecSort(32))
        st.pc += [(r < 0) == (v < 0), (r > 0) == (v > 0)]
        return r

    def need_nonnull(self, st, p):
        nn = st.nonnull.get(p.base.get_id())
        if nn is True or self.is_fresh(st, p.base):
            return
        r = self.decide(st, p.base == ZERO64)
        if r is None:
            raise Fork(p.base == ZERO64)
        if r:
            raise Crash("null pointer")
        st.nonnull[p.base.get_id()] = True

    def glob_load(self, st, n, p, ty):
        key = (n, p.off)
        if key in st.glob:
            return self.retype(st, st.glob[key], ty)
        g = self.globals.get(n)
        if g and g[2] and g[1] is not None:
            return self.const_load(n, g, p.off, ty, st)
        v = self.havoc(st, n, ty)
        if ty[0] == 'ptr':
            st.kind[v.base.get_id()] = ("sym", 0, v.base)
        st.glob[key] = v
        return v

    def const_load(self, n, g, off, ty, st):
        t, v = g[0], g[1]
        while True:
            if v[0] == 'zero':
                return self.zero(ty)
            if v[0] == 'agg':
                if t[0] == 'array':
                    sz = self.L.size_align(t[2])[0]
                    i = off // sz
                    off -= i * sz
                    t, v = v[1][i]
                    continue
                fs = self.L.fields(t)
                for i in range(len(fs)):
                    o, e = self.L.field_off(t, i)
                    if o <= off < o + self.L.size_align(e)[0]:
                        off -= o
                        t, v = e, v[1][i][1]
                        break
                continue
            if off == 0 and t == ty:
                return self.operand(st, v, ty)
            raise Unsupported("constant load from " + n)

    def havoc(self, st, name, ty):
        if ty[0] == 'ptr':
            return self.sym_ptr(st, name)
        if ty[0] == 'int':
            if ty[1] == 1:
                return self.fresh(name, BOOL)
            return self.fresh(name, z3.BitVecSort(ty[1]))
        if ty[0] == 'fp':
            return FP(ty[1], self.fresh(name, z3.BitVecSort(ty[1])))
        raise Unsupported("havoc %r" % (ty,))

    def store(self, st, p, v, ty):
        n = self.glob_name(p.base) if z3.is_bv_value(p.base) else None
        if n is not None:
            st.events.append(("gstore", n, v))
            st.glob[(n, p.off)] = v
            self.escape(st, v)
            return
        k = self.kindof(st, p.base)[0]
        if k == "stack":
            st.stack[(p.base.get_id(), p.off)] = v
            return
        if k == "fresh" or self.is_treeptr(st, p):
            self.need_nonnull(st, p)
            if self.int_field(p.off) is not None:
                raise Unsupported("raw store to an mpz_t")
            self.tree_store(st, p.base, p.off, self.L.size_align(ty)[0], v)
            return
        self.payload_store(st, p, v, ty)

    def payload_store(self, st, p, v, ty):
        if isinstance(v, Ptr):
            self.escape(st, v)
            t = v.term()
        elif isinstance(v, FP):
            t = v.t
        else:
            t = tobv(v, ty[1])
        size = t.size() // 8
        st.events.append(("pstore", p.term(), size, t, st.mem, p.base))
        st.mem = self.mem_store(st.mem, p.term(), t, size)

    def new_mem(self, st):
        st.mem = self.fresh("M", z3.ArraySort(BV64, BV8))
        return st.mem

    # -- operands
    def operand(self, st, v, ty):
        k = v[0]
        if k == 'const':
            if ty[0] == 'int':
                if ty[1] == 1:
                    return bool(v[1] & 1)
                return mask(v[1], ty[1])
            return v[1]
        if k == 'loc':
            r = st.frame.regs.get(v[1])
            if r is None:
                raise Unsupported("undefined register %" + v[1])
            return r
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob_ptr(v[1])
        if k == 'undef':
            return self.havoc(st, "undef", ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'fconst':
            return FP(ty[1], uf("fconst_%d_%s" % (ty[1], v[1]), z3.BitVecSort(ty[1]))())
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(st, v[2], v[3])
            if v[1] == 'ptrtoint':
                p = self.operand(st, v[2][1], v[2][0])
                return simp(p.term())
            if v[1] == 'inttoptr':
                x = self.operand(st, v[2][1], v[2][0])
                return Ptr(tobv(x, 64))
            if v[1] in ("sub", "add", "mul"):
                (ta, a), (tb, b) = v[2], v[3]
                return self.binop(v[1], self.operand(st, a, ta), self.operand(st, b, tb), ta[1])
            if v[1] == 'bitcast':
                return self.operand(st, v[2][1], v[2][0])
        raise Unsupported("operand %r" % (v,))

    def gep(self, st, sty, args):
        p = self.operand(st, args[0][1], args[0][0])
        if not isinstance(p, Ptr):
            p = Ptr(tobv(p, 64))
        off = 0
        sym = None
        ty = sty
        for n, (ity, iv) in enumerate(args[1:]):
            i = self.operand(st, iv, ity)
            if n > 0 and ty[0] in ('struct', 'lit'):
                o, ty = self.L.field_off(ty, i)
                off += o
                continue
            if n > 0:
                if ty[0] != 'array':
                    raise Unsupported("gep into %r" % (ty,))
                ty = ty[2]
            if ty[0] == 'func':
                size = 1
            else:
                size = self.L.size_align(ty)[0]
            if isinstance(i, int):
                off += sgn(i, ity[1]) * size
            else:
                t = i if ity[1] == 64 else z3.SignExt(64 - ity[1], i)
                t = t * z3.BitVecVal(size, 64)
                sym = t if sym is None else sym + t
        if sym is not None:
            b = z3.simplify(p.term() + sym)
            # keep constant offsets apart
            q = Ptr(b, off)
            st.kind.setdefault(b.get_id(), self.kindof(st, p.base))
            r = ("arrayof", p.base)
            st.ghost.setdefault(("arr", b.get_id()), (p, sym))
            return q
        if sty == ('struct', 'struct.tree') or sty == ('struct', 'struct.list') or sty == ('struct', 'struct.gc_obj'):
            if not z3.is_bv_value(p.base) or p.base.as_long() == 0:
                st.ghost[("tree", p.base.get_id())] = True
        return Ptr(p.base, p.off + off)

    # -- arithmetic
    def binop(self, op, a, b, w):
        if w == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return {"and": bool(a) and bool(b), "or": bool(a) or bool(b), "xor": bool(a) != bool(b)}[op]
            a, b = tobool(a), tobool(b)
            r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, b)
            return z3.simplify(r)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            if op == "add": return mask(a + b, w)
            if op == "sub": return mask(a - b, w)
            if op == "mul": return mask(a * b, w)
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl" and b < w: return mask(a << b, w)
            if op == "lshr" and b < w: return a >> b
            if op == "ashr" and b < w: return mask(sa >> b, w)
            if op == "udiv" and b: return a // b
            if op == "urem" and b: return a % b
            if op == "sdiv" and b: return mask(int(abs(sa) // abs(sb)) * (1 if sa * sb >= 0 else -1), w)
            if op == "srem" and b: return mask((abs(sa) % abs(sb)) * (1 if sa >= 0 else -1), w)
        a, b = tobv(a, w), tobv(b, w)
        if op == "add": r = a + b
        elif op == "sub": r = a - b
        elif op == "mul": r = bvmul(a, b)
        elif op == "and": r = a & b
        elif op == "or": r = a | b
        elif op == "xor": r = a ^ b
        elif op == "shl": r = a << b
        elif op == "lshr": r = z3.LShR(a, b)
        elif op == "ashr": r = a >> b
        elif op == "udiv": r = z3.UDiv(a, b)
        elif op == "sdiv": r = a / b
        elif op == "urem": r = z3.URem(a, b)
        elif op == "srem": r = z3.SRem(a, b)
        else:
            raise Unsupported("op " + op)
        return simp(r)

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'ptr':
            if pred in ("eq", "ne"):
                r = self.ptr_eq(st, a, b)
                if pred == "ne":
                    return (not r) if isinstance(r, bool) else z3.Not(r)
                return r
            a, b, w = a.term(), b.term(), 64
        else:
            w = ty[1]
            if w == 1:
                a, b = tobool(a), tobool(b)
                if pred == "eq":
                    return z3.simplify(a == b)
                if pred == "ne":
                    return z3.simplify(a != b)
                raise Unsupported("i1 compare")
            if isinstance(a, int) and isinstance(b, int):
                sa, sb = sgn(a, w), sgn(b, w)
                return {"eq": a == b, "ne": a != b, "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb,
                        "sge": sa >= sb, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred]
            a, b = tobv(a, w), tobv(b, w)
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b),
             "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def cast(self, st, op, a, src, dst):
        if op in ("zext", "sext", "trunc"):
            w, w2 = src[1], dst[1]
            if w == 1:
                if isinstance(a, (bool, int)):
                    return (1 if a else 0) if op == "zext" else (mask(-1, w2) if a else 0)
                one = z3.BitVecVal(1 if op == "zext" else -1, w2)
                return z3.If(a, one, z3.BitVecVal(0, w2))
            if isinstance(a, int):
                if op == "zext": return a
                if op == "sext": return mask(sgn(a, w), w2)
                if w2 == 1: return bool(a & 1)
                return mask(a, w2)
            if op == "zext": return ext(a, w2, False)
            if op == "sext": return ext(a, w2, True)
            if w2 == 1:
                return z3.simplify(z3.Extract(0, 0, a) == 1)
            return trunc(a, w2)
        if op == "ptrtoint":
            t = a.term()
            if dst[1] < 64:
                t = z3.Extract(dst[1] - 1, 0, t)
            elif dst[1] > 64:
                t = z3.ZeroExt(dst[1] - 64, t)
            return simp(t)
        if op == "inttoptr":
            t = tobv(a, src[1])
            if src[1] < 64:
                t = z3.ZeroExt(64 - src[1], t)
            t = z3.simplify(t)
            return self.split(st, t)
        if op == "bitcast":
            return a
        return fpcast(op, a, src, dst)

    def split(self, st, t):
        """base + constant"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BADD and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            b = t.arg(1)
            if b.get_id() in st.kind:
                return Ptr(b, sgn(t.arg(0).as_long(), 64))
        return Ptr(t)

    # -- execution
    def call(self, st, fname, args, res=None, after=None):
        """push a frame for a function that is executed (not contracted)"""
        fn = self.fns.get(fname)
        own = getattr(st.frame.fn.module, "functions", {}).get(fname) if st.frame else None
        if own is not None:
            fn = own            # a module's own static function
        if fn is None:
            raise Unsupported("call of external function %s without a contract" % fname)
        self.inlined.add(fname)
        f = Frame(fn, st.frame, res)
        f.after = after
        names = [n for _, n in fn.params]
        for n, a in zip(names, args):
            f.regs[n] = a
        st.frame = f
        d, x = 0, f
        while x:
            d += 1
            x = x.parent
        if d > 60:
            raise Unsupported("recursion through functions without a contract: " + fname)

    def run(self, st0):
        """All outcomes of running st0 to completion."""
        while True:
            try:
                return self.run_once(st0.clone())
            except Widen:
                continue

    def run_once(self, st0):
        work = [st0]
        out = []
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Incomplete("time limit")
            while True:
                snap = None
                inst = st.frame.fn.blocks[st.frame.block][st.frame.idx]
                st.steps += 1
                if st.steps > self.max_steps:
                    raise Incomplete("path too long")
                mark = None
                risky = inst.op in ("call", "load", "store", "select", "ret", "gep", "icmp")
                self.incall = None
                if inst.op == "call":
                    snap = st.clone()
                    st.ghost["ncall"] = snap.ghost.get("ncall", 0) + 1
                    self.incall = [st.ghost["ncall"], 0]
                elif risky:
                    mark = (len(st.events), len(st.pc), len(st.log), len(st.mpz))
                try:
                    r = self.step(st, inst)
                    self.incall = None
                except Fork as fk:
                    self.incall = None
                    base = snap if snap is not None else st
                    if mark is not None:
                        del base.events[mark[0]:]
                        del base.log[mark[2]:]
                        del base.mpz[mark[3]:]
                    other = base.clone()
                    base.ghost["forks"] = base.ghost.get("forks", 0) + 1
                    if base.ghost["forks"] > 400:
                        raise Unsupported("too many cases in " + base.frame.fn.name)
                    self.assume(base, fk.cond)
                    self.assume(other, z3.Not(fk.cond))
                    work.append(other)
                    st = base
                    continue
                except Crash as c:
                    self.incall = None
                    out.append(Outcome("crash", st, None, "%s in %s" % (c, st.frame.fn.name)))
                    break
                if r is None:
                    continue
                if isinstance(r, Outcome):
                    out.append(r)
                    if len(out) > self.max_paths:
                        raise Incomplete("too many paths")
                    break
                # list of successor states, and outcomes
                out += [x for x in r if isinstance(x, Outcome)]
                r = [x for x in r if not isinstance(x, Outcome)]
                if not r:
                    break
                work.extend(r[1:])
                st = r[0]
        return out

    def setres(self, st, inst, v):
        if inst.res is not None:
            st.frame.regs[inst.res] = v

    def goto(self, st, label):
        f = st.frame
        f.prev, f.block, f.idx = f.block, label, 0
        # phis are evaluated together
        blk = f.fn.blocks[label]
        vals = []
        n = 0
        for i in blk:
            if i.op != "phi":
                break
            n += 1
            vals.append((i.res, self.operand(st, i.a[0][f.prev], i.ty), i.ty))
        f.idx = n
        if label in f.fn.loops() and not (f.fn.name in self.unroll):
            return self.loop_arrive(st, f, label, vals)
        for r, v, ty in vals:
            f.regs[r] = v
        if label in f.fn.loops():
            k = (f.fn.name, label)
            c = st.ghost.get(("loop", k), 0) + 1
            st.ghost[("loop", k)] = c
            if c > 40:
                raise Unsupported("loop that doesn't end in %s" % f.fn.name)
        return None

    # -- loops: one arbitrary iteration, from a state in which everything that
    #    iterations can change is unknown (but for the invariants)
    def loop_arrive(self, st, f, label, vals):
        body = f.fn.loops()[label]
        if label in f.loops and f.prev in body:
            return self.loop_back(st, f, label, vals)
        key = (f.fn.name, label)
        widen = self.widen.setdefault(key, set())
        entry = {r: v for r, v, ty in vals}
        for v in entry.values():
            self.escape(st, v)
        m0 = st.mem
        phis = {}
        ring = None
        st.epoch += 1
        ep = "l%d" % st.epoch
        st.ghost[("stack0", key)] = dict(st.stack)
        self.loop_havoc(st, ep, widen, key)
        ahead = []
        for r, v, ty in vals:
            if isinstance(v, Ptr):
                h = self.ring_of(v)
                h2 = self.ring_of(h) if h is not None else None
                if h2 is not None and ("ahead", r) not in widen and any(r2 != r and isinstance(v2, Ptr) and v2.off == 0 and v2.base.eq(h.base) for r2, v2, _ in vals):
                    # the element after the current one, remembered
                    ahead.append((r, next(r2 for r2, v2, _ in vals if r2 != r and isinstance(v2, Ptr) and v2.off == 0 and v2.base.eq(h.base))))
                    continue
                if h is not None and ring is None and ("ring", r) not in widen:
                    ring = (r, h)
                    continue
                p = self.sym_ptr(st, "phi_" + r)
                if v.off or v.base.get_id() in st.ghost:
                    pass
                if self.is_treeptr(st, v) or self.is_fresh(st, v.base):
                    st.ghost[("tree", p.base.get_id())] = True
                if ("tags", r) not in widen:
                    d = st.dom.get(v.base.get_id()) if self.kindof(st, v.base)[0] != "fresh" else self.tags(st, v)
                    if d is not None and v.off == 0:
                        st.dom[p.base.get_id()] = d
                        st.pc.append(z3.Or([p.base == ZERO64] + [TAG(p.base) == x for x in sorted(d)]))
                if ("nonnull", r) not in widen and (st.nonnull.get(v.base.get_id()) is True):
                    self.assume_nonnull(st, p.base)
                phis[r] = p
            elif ty[0] == 'int' and self.constants and ("changes", r) not in widen:
                # (until an iteration turns out to change it)
                phis[r] = v
            elif ty[0] in ('int', 'fp'):
                phis[r] = self.havoc(st, "phi_" + r, ty)
            else:
                raise Unsupported("loop variable of type %r" % (ty,))
        f.loops = dict(f.loops)
        for r, of in ahead:
            if ring is None or of != ring[0]:
                widen.add(("ahead", r))
                raise Widen(("ahead", r))
        if ring:
            other = st.clone()
            # the end of the ring, and some element of it
            h = Ptr(ring[1].base, 0)
            oc = self.M.off_chain
            after = lambda s, x: {r: Ptr(self.tree_load(s, x.base, oc, 8, ('ptr',)).base) for r, of in ahead}
            self.finish_loop(other, label, entry, dict(phis, **dict(after(other, h), **{ring[0]: h})), m0, ("end", ring[1].base, ring[0]), key, ahead)
            el = self.sym_ptr(st, "el", True)
            st.ghost[("tree", el.base.get_id())] = True
            st.ghost[("elof", el.base.get_id())] = ring[1].base
            st.pc.append(el.base != ring[1].base)
            self.assume_distinct_el(st, el, ring[1])
            self.finish_loop(st, label, entry, dict(phis, **dict(after(st, el), **{ring[0]: el})), m0, ("elem", ring[1].base, ring[0], el.base), key, ahead)
            if self.on_elem is not None:
                self.on_elem(self, st, ring[1], el)
            if self.on_loop is not None:
                for x in (other, st):
                    self.on_loop(self, x, key, entry, x.events[-1][3])
            return [other, st]
        self.finish_loop(st, label, entry, phis, m0, None, key)
        if self.on_loop is not None:
            self.on_loop(self, st, key, entry, phis)
        return None

    def assume_distinct_el(self, st, el, h):
        pass

    def finish_loop(self, st, label, entry, phis, m0, ring, key, ahead=()):
        f = st.frame
        for r, v in phis.items():
            f.regs[r] = v
        f.loops = dict(f.loops)
        st.events.append(("loop", key, entry, phis, m0, st.mem, ring))
        f.loops[label] = dict(entry=entry, phis=phis, ring=ring, nev=len(st.events), nlog=len(st.log),
                              nmpz=len(st.mpz), glob=dict(st.glob), stack=dict(st.stack), widen=self.widen[key])
        if ahead:
            f.loops[label]["ahead"] = ahead

    def ring_of(self, v):
        """v is the first element of which ring?"""
        if v.off == 0 and z3.is_app(v.base) and v.base.num_args() == 1 and v.base.decl().name().startswith("NEXT"):
            return Ptr(v.base.arg(0))
        return None

    def loop_havoc(self, st, ep, widen, key):
        mut = self.mutable(self)
        st.events.append(("havoc",))

        def changed(E, st, b, o, birth=len(st.events) - 1, w=frozenset(widen), nlog=len(st.log)):
            if ("fresh", o) in w and E.is_fresh(st, b) and E.kindof(st, b)[1] < birth:
                return True
            if ("field", o) in w and not E.is_fresh(st, b):
                return True
            if o not in mut:
                return False
            if E.is_fresh(st, b) and not any(i == b.get_id() for i, _ in st.escaped):
                return False
            return self.may_change(E, st, b, o, nlog, mut, birth)
        st.log.append((None, changed, ep))
        if "mpz" in widen:
            st.mpz.append((None, ep, len(st.events)))
        self.new_mem(st)
        for k in list(st.glob):
            if ("glob", k) in widen:
                v = st.glob[k]
                if isinstance(v, Ptr):
                    st.glob[k] = self.sym_ptr(st, k[0])
                    if self.is_treeptr(st, v) or self.is_fresh(st, v.base):
                        st.ghost[("tree", st.glob[k].base.get_id())] = True
                else:
                    st.glob[k] = self.fresh(k[0], tobv(v, 32).sort() if not isinstance(v, int) else BV64)
        for k in list(st.stack):
            if ("stack", self.stack_name(k)) in widen:
                st.ghost[("stack0", k)] = st.stack[k]
                del st.stack[k]
        st.ghost["lastcall"] = len(st.events)

    def stack_name(self, k):
        return (self.stack_names.get(k[0]), k[1])

    def loop_back(self, st, f, label, vals):
        info = f.loops[label]
        key = (f.fn.name, label)
        w = info["widen"]
        mut = self.mutable(self)

        def need(item):
            if item not in w:
                w.add(item)
                raise Widen(item)
        for e in st.events[info["nev"]:]:
            if e[0] == "store" and not self.M.at.get(e[2], "").startswith("integer"):
                o = e[2]
                if self.is_fresh(st, e[1]) and self.kindof(st, e[1])[1] >= info["nev"]:
                    # an object of this iteration only
                    continue
                if not (o in mut and self.tags(st, Ptr(e[1])) <= mut[o]):
                    need(("field", o))
            if e[0] == "treecopy":
                raise Unsupported("loop overwrites an object")
        for e in st.log[info["nlog"]:]:
            if e[0] is not None and self.is_fresh(st, e[0]) and self.kindof(st, e[0])[1] < info["nev"]:
                need(("fresh", e[1]))
        for e in st.mpz[info["nmpz"]:]:
            if e[0] is None or not (self.is_fresh(st, e[0]) and self.kindof(st, e[0])[1] >= info["nev"]):
                need("mpz")
        for k, v in st.glob.items():
            if k in info["glob"] and not self.same(st, info["glob"][k], v):
                need(("glob", k))
        for k, v in st.stack.items():
            if k in info["stack"] and not self.same(st, info["stack"][k], v):
                need(("stack", self.stack_name(k)))
        back = {r: v for r, v, ty in vals}
        for r, v, ty in vals:
            if not isinstance(v, Ptr):
                if ty[0] == 'int' and self.constants and ("changes", r) not in w and not self.same(st, info["phis"][r], v):
                    need(("changes", r))
                continue
            if info["ring"] and info["ring"][2] == r:
                cur = info["phis"][r]
                h = self.ring_of(v)
                if h is None or not (h.base.eq(cur.base)):
                    # not the next element
                    st.ghost["offring"] = True
                continue
            if any(r == x for x, of in info.get("ahead", ())):
                h = self.ring_of(v)
                if h is None or not h.base.eq(back[info["ring"][2]].base):
                    need(("ahead", r))
                continue
            e = info["entry"][r]
            d = st.dom.get(info["phis"][r].base.get_id())
            if d is not None and ("tags", r) not in w:
                isnull = z3.is_bv_value(v.base) and v.base.as_long() == 0
                if not isnull and not (v.off == 0 and self.tags(st, v) <= d):
                    need(("tags", r))
            if st.nonnull.get(info["phis"][r].base.get_id()) is True and ("nonnull", r) not in w:
                if st.nonnull.get(v.base.get_id()) is not True:
                    need(("nonnull", r))
            if st.ghost.get(("tree", info["phis"][r].base.get_id())) and not z3.is_bv_value(v.base):
                if not (self.is_treeptr(st, v) or self.is_fresh(st, v.base) or self.tree_valued(v)):
                    pass
        st.events.append(("back", key, back, info))
        return Outcome("back", st, None, f.fn.name)

    def tree_valued(self, v):
        return True

    def same(self, st, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            r = self.ptr_eq(st, a, b)
            if isinstance(r, bool):
                return r
            return self.S.valid(st.pc, r)[0]
        if isinstance(a, FP) and isinstance(b, FP):
            return a.t.eq(b.t)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, (Ptr, FP)) or isinstance(b, (Ptr, FP)):
            return False
        try:
            w = a.size() if not isinstance(a, (int, bool)) else b.size()
            return self.S.valid(st.pc, tobv(a, w) == tobv(b, w))[0]
        except AttributeError:
            return self.S.valid(st.pc, tobool(a) == tobool(b))[0]

    def branch(self, st, cond, a, b):
        r = self.decide(st, cond)
        if r is not None:
            if not isinstance(cond, (bool, int)):
                self.learn(st, z3.simplify(cond), r)
            return self.goto(st, a if r else b)
        other = st.clone()
        self.assume(st, cond)
        self.assume(other, z3.Not(cond))
        ra = self.goto(st, a)
        rb = self.goto(other, b)
        return self.listed(st, ra) + self.listed(other, rb)

    def listed(self, st, r):
        if r is None:
            return [st]
        return r if isinstance(r, list) else [r]

    def step(self, st, inst):
        op = inst.op
        f = st.frame
        if op == "load":
            ty, (pty, pv) = inst.ty, inst.a[0]
            v = self.load(st, self.operand(st, pv, pty), ty)
            self.setres(st, inst, v)
        elif op == "store":
            (ty, v), (pty, pv) = inst.a
            self.store(st, self.operand(st, pv, pty), self.operand(st, v, ty), ty)
        elif op == "gep":
            self.setres(st, inst, self.gep(st, inst.a[0], inst.a[1]))
        elif op == "br":
            if len(inst.a) == 1:
                return self.goto(st, inst.a[0])
            return self.branch(st, self.operand(st, inst.a[0], ('int', 1)), inst.a[1], inst.a[2])
        elif op == "switch":
            return self.do_switch(st, inst)
        elif op == "icmp":
            pred, a, b = inst.a
            self.setres(st, inst, self.icmp(st, pred, inst.ty, self.operand(st, a, inst.ty), self.operand(st, b, inst.ty)))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            w = inst.ty[1]
            self.setres(st, inst, self.binop(op, self.operand(st, inst.a[0], inst.ty), self.operand(st, inst.a[1], inst.ty), w))
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui"):
            sty, v = inst.a[0]
            self.setres(st, inst, self.cast(st, op, self.operand(st, v, sty), sty, inst.ty))
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.operand(st, inst.a[0], inst.ty), self.operand(st, inst.a[1], inst.ty)
            w = z3.BitVecSort(a.bits)
            self.setres(st, inst, FP(a.bits, uf("%s_%d" % (op, a.bits), w, w, w)(a.t, b.t)))
        elif op == "fcmp":
            pred, a, b = inst.a
            a, b = self.operand(st, a, inst.ty), self.operand(st, b, inst.ty)
            w = z3.BitVecSort(a.bits)
            self.setres(st, inst, uf("fcmp_%s_%d" % (pred, a.bits), w, w, BOOL)(a.t, b.t))
        elif op == "select":
            (ct, c), (ta, a), (tb, b) = inst.a
            cv = self.operand(st, c, ct)
            av, bv = self.operand(st, a, ta), self.operand(st, b, tb)
            if ta[0] == 'int' and ta[1] > 1 and not isinstance(cv, (bool, int)):
                self.setres(st, inst, simp(z3.If(cv, tobv(av, ta[1]), tobv(bv, ta[1]))))
            else:
                self.setres(st, inst, av if self.choose(st, cv) else bv)
        elif op == "alloca":
            b = self.fresh("stk")
            st.kind[b.get_id()] = ("stack", len(st.events), b)
            self.stack_names[b.get_id()] = (f.fn.name, inst.res)
            st.nonnull[b.get_id()] = True
            st.pc.append(b != ZERO64)
            self.setres(st, inst, Ptr(b))
        elif op == "freeze":
            self.setres(st, inst, self.operand(st, inst.a[0], inst.ty))
        elif op == "ret":
            v = self.operand(st, inst.a[0][1], inst.a[0][0]) if inst.a else None
            return self.do_ret(st, v)
        elif op == "unreachable":
            return Outcome("unreachable", st, None, f.fn.name)
        elif op == "call":
            return self.do_call(st, inst)
        else:
            raise Unsupported("instruction " + op)
        f.idx += 1
        return None

    def do_ret(self, st, v):
        f = st.frame
        if f.after is not None:
            v = f.after(self, st, v)
        if f.parent is None:
            return Outcome("ret", st, v)
        st.frame = f.parent.clone()
        if f.res is not None:
            st.frame.regs[f.res] = v
        st.frame.idx += 1
        return None

    def do_switch(self, st, inst):
        ty, v, default, cases = inst.a
        x = self.operand(st, v, ty)
        w = ty[1]
        if isinstance(x, int):
            for c, l in cases:
                if mask(c, w) == x:
                    return self.goto(st, l)
            return self.goto(st, default)
        res = []
        rest = []
        groups = {}
        for c, l in cases:
            groups.setdefault(l, []).append(mask(c, w))
        work = st
        xt = tobv(x, w)
        for l, cs in groups.items():
            cond = z3.Or([xt == c for c in cs])
            if is_app(xt, TAG):
                d = work.dom.get(xt.arg(0).get_id())
                if d is not None and not (d & set(cs)):
                    continue
            r = self.decide(work, cond)
            if r is False:
                continue
            s2 = work.clone()
            self.assume(s2, cond)
            if is_app(xt, TAG):
                k = xt.arg(0).get_id()
                d = s2.dom.get(k)
                s2.dom[k] = frozenset(cs) if d is None else d & frozenset(cs)
            g = self.goto(s2, l)
            res += self.listed(s2, g)
            if r is True:
                return res
            self.assume(work, z3.Not(cond))
            if is_app(xt, TAG):
                k = xt.arg(0).get_id()
                d = work.dom.get(k)
                work.dom[k] = (frozenset(range(len(self.M.names))) if d is None else d) - frozenset(cs)
                if not work.dom[k]:
                    return res
        if is_app(xt, TAG) or self.S.feasible(work.pc, z3.BoolVal(True)):
            g = self.goto(work, default)
            res += self.listed(work, g)
        return res

    def do_call(self, st, inst):
        callee, args = inst.a
        vals = [self.operand(st, v, ty) for ty, v in args]
        if callee[0] == 'loc':
            p = self.operand(st, callee, ('ptr',))
            n = self.glob_name(p.base)
            if n is None:
                h = self.contracts.get("(indirect)")
                if h is None:
                    raise Unsupported("indirect call")
                return self.finish(st, inst, h(self, st, vals, p))
            name = n
        else:
            name = callee[1]
        h = self.contracts.get(name)
        if h is not None:
            self.used_contracts.add(name)
            r = h(self, st, vals)
            return self.finish(st, inst, r)
        if name.startswith("llvm."):
            raise Unsupported("intrinsic " + name)
        if name not in self.fns:
            raise Unsupported("call of %s, which has no contract" % name)
        self.call(st, name, vals, inst.res)
        # the caller's instruction is completed by `ret'
        return None

    def finish(self, st, inst, r):
        """r: a value, an Outcome, or a list of (state, value) / Outcome"""
        if isinstance(r, Outcome):
            return r
        if isinstance(r, Inline):
            self.call(st, r.name, r.args, inst.res, r.after)
            return None
        if isinstance(r, list):
            out = []
            for s, v in r:
                if inst.res is not None:
                    s.frame.regs[inst.res] = v
                s.frame.idx += 1
                out.append(s)
            return out
        if inst.res is not None:
            st.frame.regs[inst.res] = r
        st.frame.idx += 1
        return None


class Inline:
    def __init__(self, name, args, after=None):
        self.name, self.args, self.after = name, args, after


class Crash(Exception):
    pass


def ext(a, w, signed):
    """sign or zero extension to w bits; the terms are kept in one shape"""
    if z3.is_bv_value(a):
        return simp(z3.SignExt(w - a.size(), a) if signed else z3.ZeroExt(w - a.size(), a))
    if a.size() == w:
        return a
    k = a.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT and signed:
        x = a.arg(0)
        return z3.ZeroExt(w - x.size(), x) if k == z3.Z3_OP_ZERO_EXT else z3.SignExt(w - x.size(), x)
    if k == z3.Z3_OP_ITE and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
        f = z3.SignExt if signed else z3.ZeroExt
        return z3.simplify(f(w - a.size(), a))
    return z3.SignExt(w - a.size(), a) if signed else z3.ZeroExt(w - a.size(), a)


def trunc(a, w):
    while True:
        k = a.decl().kind()
        if a.size() == w:
            return a
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            x = a.arg(0)
            if x.size() == w:
                return x
            if x.size() > w:
                a = x
                continue
            return ext(x, w, k == z3.Z3_OP_SIGN_EXT)
        return simp(z3.Extract(w - 1, 0, a))


def split_addr(a):
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_BADD and a.num_args() == 2 and z3.is_bv_value(a.arg(0)):
        return a.arg(1), a.arg(0).as_long()
    return a, 0


def simp_t(e):
    return z3.simplify(e)


def fpcast(op, a, src, dst):
    """Floating point conversions, uninterpreted but for exactness of widening."""
    if op in ("fptosi", "fptoui"):
        while is_named(a.t, "fpext_"):
            a = FP(a.t.arg(0).size(), a.t.arg(0))
        return uf("%s_%d_%d" % (op, a.bits, dst[1]), z3.BitVecSort(a.bits), z3.BitVecSort(dst[1]))(a.t)
    if op in ("sitofp", "uitofp"):
        t = tobv(a, src[1])
        t = z3.simplify(z3.SignExt(64 - src[1], t) if op == "sitofp" else z3.ZeroExt(64 - src[1], t)) if src[1] < 64 else t
        return FP(dst[1], uf("%s_%d" % (op, dst[1]), BV64, z3.BitVecSort(dst[1]))(t))
    if op == "fpext":
        while is_named(a.t, "fpext_"):
            a = FP(a.t.arg(0).size(), a.t.arg(0))
        return FP(dst[1], uf("fpext_%d_%d" % (a.bits, dst[1]), z3.BitVecSort(a.bits), z3.BitVecSort(dst[1]))(a.t))
    if op == "fptrunc":
        while is_named(a.t, "fpext_"):
            a = FP(a.t.arg(0).size(), a.t.arg(0))
            if a.bits == dst[1]:
                return a
        if a.bits < dst[1]:
            return fpcast("fpext", a, ('fp', a.bits), dst)
        if a.bits == dst[1]:
            return a
        for k in ("sitofp_80", "uitofp_80"):
            # a long double represents 64 bit integers exactly
            if is_named(a.t, k):
                return FP(dst[1], uf(k[:7] + str(dst[1]), BV64, z3.BitVecSort(dst[1]))(a.t.arg(0)))
        return FP(dst[1], uf("fptrunc_%d_%d" % (a.bits, dst[1]), z3.BitVecSort(a.bits), z3.BitVecSort(dst[1]))(a.t))
    raise Unsupported("cast " + op)


def is_named(t, prefix):
    return z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith(prefix)
