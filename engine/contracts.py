"""Contracts of what the verified functions call.

Two kinds: functions of libraries (GMP, libc, libffi), which are assumed, and
functions of the repository, whose own code is verified against the same
contract elsewhere (ASSUMED / PROVED below say which is which).
"""
import z3
import sym
from sym import *
from ir import Unsupported

ASSUMED = {}     # name -> what is assumed
PROVED = {}      # name -> obligation group that proves it


def die(kind):
    def h(E, st, a):
        return Outcome(kind, st, None, st.frame.fn.name)
    return h


def nop(val=None):
    def h(E, st, a):
        if val is None:
            return 0
        return val
    return h


# ---- memory --------------------------------------------------------------------
def alloc_tree(E, st, a):
    b = E.fresh("tree")
    st.kind[b.get_id()] = ("fresh", len(st.events), b)
    st.nonnull[b.get_id()] = True
    st.ghost[("tree", b.get_id())] = True
    st.pc.append(b != ZERO64)
    return Ptr(b)


def new_block(E, st, size, why):
    b = E.fresh("blk")
    st.kind[b.get_id()] = ("malloc", len(st.events), b)
    st.nonnull[b.get_id()] = True
    n = tobv(size, 64)
    st.pc.append(b != ZERO64)
    st.pc.append(z3.ULT(b, z3.BitVecVal(2 ** 47, 64)))
    for A in st.ghost.get("addrs", ()):
        disjoint(E, st, b, n, A)
    for ob, on in st.blocks:
        if z3.is_bv_value(n) and z3.is_bv_value(on):
            apart(E, b, ob)
        if z3.is_bv_value(n) and z3.is_bv_value(on):
            st.pc.append(z3.And(z3.UGE(b - ob, on), z3.UGE(ob - b, n)))
    st.blocks.append((b, n))
    st.events.append(("malloc", b, n))
    return Ptr(b)


def apart(E, a, b):
    E.disjoint |= {(a.get_id(), b.get_id()), (b.get_id(), a.get_id())}
    E.keep += [a, b]


def disjoint(E, st, b, n, A):
    apart(E, b, A)
    w = z3.BitVecVal(16, 64)
    st.pc.append(z3.And(z3.UGE(b - A, w), z3.UGE(A - b, n if z3.is_bv_value(n) else w)))


def note_addr(E, st, A):
    """A is the address of storage that existed before: no later allocation
    and no unescaped earlier one overlaps it"""
    known = st.ghost.get("addrs", ())
    if any(A.eq(x) for x in known):
        return
    for b, n in st.blocks:
        if not any(i == b.get_id() for i, _ in st.escaped):
            disjoint(E, st, b, n, A)
    st.ghost["addrs"] = known + (A,)


def c_malloc(E, st, a):
    return new_block(E, st, a[0], "malloc")


def c_calloc(E, st, a):
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        n = x * y
    else:
        n = simp(tobv(x, 64) * tobv(y, 64))
    p = new_block(E, st, n, "calloc")
    st.events.append(("zeroed", p.base))
    return p


def c_free(E, st, a):
    st.events.append(("free", a[0]))
    return 0


def c_strdup(E, st, a):
    p = new_block(E, st, E.fresh("strlen"), "strdup")
    st.pc.append(STR(p.term()) == str_of(E, st, a[0]))
    st.ghost[("str", p.base.get_id())] = str_of(E, st, a[0])
    st.events.append(("strdup", p.base, a[0]))
    return p


def str_of(E, st, p):
    if p.off == 0:
        v = st.ghost.get(("str", p.base.get_id()))
        if v is not None:
            return v
    return E.str_id(st, p)


def c_strcmp(E, st, a):
    x, y = str_of(E, st, a[0]), str_of(E, st, a[1])
    r = E.fresh("strcmp", z3.BitVecSort(32))
    st.pc.append((r == 0) == (x == y))
    return r


def c_memset(E, st, a):
    """a new block is filled with zeroes"""
    n = tobv(a[2], 64)
    for b, size in st.blocks:
        if b.eq(a[0].base) and a[0].off == 0 and E.S.valid(st.pc, z3.And(tobv(a[1], 32) & 255 == 0, n == tobv(size, 64)))[0]:
            if any(e[0] == "pstore" and e[5].eq(b) for e in st.events):
                break
            st.events.append(("zeroed", b))
            return a[0]
    n = z3.simplify(n)
    if z3.is_bv_value(n) and n.as_long() % 8 == 0 and n.as_long() <= 64 and E.S.valid(st.pc, tobv(a[1], 32) & 255 == 0)[0]:
        for o in range(0, n.as_long(), 8):
            E.store(st, Ptr(a[0].base, a[0].off + o), z3.BitVecVal(0, 64), ("int", 64))
        return a[0]
    raise Unsupported("memset")


def c_memcpy(E, st, a):
    dst, src, n = a[0], a[1], a[2]
    if not isinstance(n, int):
        raise Unsupported("memcpy of symbolic size")
    dt = E.kindof(st, dst.base)[0] == "fresh" or E.is_treeptr(st, dst)
    sT = E.kindof(st, src.base)[0] == "fresh" or E.is_treeptr(st, src)
    if dt and sT and n == E.M.size and dst.off == 0 and src.off == 0:
        return tree_copy(E, st, dst, src)
    if not dt and not sT and n <= 64:
        v = E.mem_load(st.mem, src.term(), n)
        E.payload_store(st, dst, FP(8 * n, v), ('fp', 8 * n))
        return 0
    if dt and sT and dst.off == src.off == E.M.off_locus and n == 24:
        for i, ty in enumerate((('int', 64), ('int', 64), PTRT)):
            o = src.off + 8 * i
            E.tree_store(st, dst.base, o, 8, E.tree_load(st, src.base, o, 8, ty), ty)
        return 0
    raise Unsupported("memcpy")


def tree_copy(E, st, dst, src):
    """*dst = *src for whole tree objects"""
    E.need_nonnull(st, src)
    E.need_nonnull(st, dst)
    if E.kindof(st, dst.base)[0] != "fresh":
        st.events.append(("treecopy", dst.base, src.base))
        if len(E.tags(st, src)) == 1 and E.tags(st, src) != E.tags(st, dst):
            # a declared type or function is completed (nothing else depends on
            # what kind of object it was; see DESIGN.md)
            st.ghost[("retag", dst.base.get_id())] = next(iter(E.tags(st, src)))
        # copy the members that specifications and code can see
    t = E.tree_load(st, src.base, 0, 4, ('int', 32))
    vals = []
    for n, (o, ty, ct) in E.M.field.items():
        if ct == "jmp_buf":
            continue
        if ct in ("mpz_t",):
            continue
        if ct == "mpf_t":
            continue
        vals.append((o, E.L.size_align(ty)[0], E.tree_load(st, src.base, o, E.L.size_align(ty)[0], ty)))
    lo = E.M.off_locus
    for i, ty in enumerate((('int', 64), ('int', 64), ('ptr',))):
        vals.append((lo + 8 * i, 8, E.tree_load(st, src.base, lo + 8 * i, 8, ty)))
    oc = E.M.off_chain
    for i in range(2):
        vals.append((oc + 8 * i, 8, E.tree_load(st, src.base, oc + 8 * i, 8, PTRT)))
    st.log.append((dst.base, 0, 4, t))
    for o, sz, v in vals:
        st.log.append((dst.base, o, sz, v))
    io = [o for o, ty, ct in E.M.field.values() if ct == "mpz_t"][0]
    st.mpz.append((dst.base, io, MPZ(src.base)))
    return 0


PTRT = ('ptr',)


# ---- rings -----------------------------------------------------------------------
def c_list_add_tail(E, st, a):
    return ring_add(E, st, a[0], a[1], "tail")


def c_list_add(E, st, a):
    return ring_add(E, st, a[0], a[1], "head")


def ring_add(E, st, new, head, where):
    oc = E.M.off_chain
    if new.off != oc or head.off != oc:
        raise Unsupported("list operation on something that isn't a tree's chain")
    for p in (new, head):
        st.ghost[("tree", p.base.get_id())] = True
        E.need_nonnull(st, p)
    st.events.append(("append", new.base, head.base, where))
    if not E.is_fresh(st, head.base) or any(i == head.base.get_id() for i, _ in st.escaped):
        E.escape(st, Ptr(new.base))
    n = st.ghost.get("ringepoch", 0) + 1
    st.ghost["ringepoch"] = n
    ident = head.base
    st.log.append((None, lambda E, st, b, o, h=ident: o in (oc, oc + 8) and not (E.alias(st, b, h) is False and False), "r%d" % n))
    st.ghost[("ring", head.base.get_id())] = st.ghost.get(("ring", head.base.get_id()), ()) + ((new.base, where),)
    return 0


def c_list_del(E, st, a):
    p = a[0]
    st.ghost[("tree", p.base.get_id())] = True
    E.need_nonnull(st, p)
    st.events.append(("unlink", p.base))
    n = st.ghost.get("ringepoch", 0) + 1
    st.ghost["ringepoch"] = n
    oc = E.M.off_chain
    st.log.append((None, lambda E, st, b, o: o in (oc, oc + 8), "r%d" % n))
    return 0


# ---- GMP ---------------------------------------------------------------------------
def mpz_res(f):
    def h(E, st, a):
        E.mpz_set(st, a[0], f(E, st, a))
        return 0
    return h


def V(i):
    return lambda E, st, a: E.mpz_get(st, a[i])


def z2(op):
    def f(E, st, a):
        x, y = E.mpz_get(st, a[1]), E.mpz_get(st, a[2])
        return op(x, y)
    return mpz_res(f)


def z2ui(op):
    def f(E, st, a):
        return op(E.mpz_get(st, a[1]), UI(tobv(a[2], 64)))
    return mpz_res(f)


def lift_ite(v):
    """a word that takes one of two constants, as an ITE of constants"""
    if z3.is_bv_value(v) or v.decl().kind() == z3.Z3_OP_ITE:
        return v
    st, n = [v], 0
    while st and n < 12:
        e = st.pop()
        n += 1
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            a = z3.simplify(z3.substitute(v, (e, e.arg(1))))
            b = z3.simplify(z3.substitute(v, (e, e.arg(2))))
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                return z3.If(e.arg(0), a, b)
            return v
        st += e.children()
    return v


def si(v):
    v = lift_ite(tobv(v, 64))
    if z3.is_bv_value(v):
        return z3.IntVal(v.as_signed_long())
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(v.arg(0), si(v.arg(1)), si(v.arg(2)))
    return SI(v)


def ui(v):
    v = lift_ite(tobv(v, 64))
    if z3.is_bv_value(v):
        return z3.IntVal(v.as_long())
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(v.arg(0), ui(v.arg(1)), ui(v.arg(2)))
    return UI(v)


def init_set(f):
    def h(E, st, a):
        E.mpz_init(st, a[0], f(E, st, a))
        return 0
    return h


def cmp_res(E, st, x, y):
    r = E.fresh("cmp", z3.BitVecSort(32))
    st.pc += [(r < 0) == (x < y), (r == 0) == (x == y)]
    return r


def nonzero(E, st, v):
    """GMP divides by zero by raising SIGFPE"""
    if E.choose(st, v == 0):
        raise Crash("division by zero")


def zdiv(name):
    def h(E, st, a):
        x, y = E.mpz_get(st, a[1]), E.mpz_get(st, a[2])
        nonzero(E, st, y)
        E.mpz_set(st, a[0], opz(name, x, y))
        return 0
    return h


def zdivmod(q, r):
    def h(E, st, a):
        x, y = E.mpz_get(st, a[2]), E.mpz_get(st, a[3])
        nonzero(E, st, y)
        E.mpz_set(st, a[0], opz(q, x, y))
        E.mpz_set(st, a[1], opz(r, x, y))
        return 0
    return h


def c_cmp(E, st, a):
    return cmp_res(E, st, E.mpz_get(st, a[0]), E.mpz_get(st, a[1]))


def c_cmp_ui(E, st, a):
    return cmp_res(E, st, E.mpz_get(st, a[0]), ui(a[1]))


def c_cmp_si(E, st, a):
    return cmp_res(E, st, E.mpz_get(st, a[0]), si(a[1]))


def zabs(v):
    return z3.If(v < 0, -v, v)


GMP = {
    "__gmpz_init": init_set(lambda E, st, a: z3.IntVal(0)),
    "__gmpz_init_set": init_set(V(1)),
    "__gmpz_init_set_si": init_set(lambda E, st, a: si(a[1])),
    "__gmpz_init_set_ui": init_set(lambda E, st, a: ui(a[1])),
    "__gmpz_set": mpz_res(V(1)),
    "__gmpz_set_si": mpz_res(lambda E, st, a: si(a[1])),
    "__gmpz_set_ui": mpz_res(lambda E, st, a: ui(a[1])),
    "__gmpz_get_ui": lambda E, st, a: simp(get_ui(E.mpz_get(st, a[0]))),
    "__gmpz_get_si": lambda E, st, a: simp(get_si(E.mpz_get(st, a[0]))),
    "__gmpz_add": z2(lambda x, y: x + y),
    "__gmpz_sub": z2(lambda x, y: x - y),
    "__gmpz_mul": z2(lambda x, y: x * y),
    "__gmpz_add_ui": z2ui(lambda x, y: x + y),
    "__gmpz_sub_ui": z2ui(lambda x, y: x - y),
    "__gmpz_mul_ui": z2ui(lambda x, y: x * y),
    "__gmpz_neg": mpz_res(lambda E, st, a: -E.mpz_get(st, a[1])),
    "__gmpz_abs": mpz_res(lambda E, st, a: zabs(E.mpz_get(st, a[1]))),
    "__gmpz_xor": z2(lambda x, y: opz("XOR", x, y)),
    "__gmpz_ior": z2(lambda x, y: opz("IOR", x, y)),
    "__gmpz_and": z2(lambda x, y: opz("AND", x, y)),
    "__gmpz_com": mpz_res(lambda E, st, a: -E.mpz_get(st, a[1]) - 1),
    "__gmpz_mul_2exp": mpz_res(lambda E, st, a: SHL(E.mpz_get(st, a[1]), tobv(a[2], 64))),
    "__gmpz_fdiv_q_2exp": mpz_res(lambda E, st, a: FSHR(E.mpz_get(st, a[1]), tobv(a[2], 64))),
    "__gmpz_tdiv_q_2exp": mpz_res(lambda E, st, a: TSHR(E.mpz_get(st, a[1]), tobv(a[2], 64))),
    "__gmpz_tdiv_q": zdiv("TDIV"), "__gmpz_tdiv_r": zdiv("TMOD"),
    "__gmpz_fdiv_q": zdiv("FDIV"), "__gmpz_fdiv_r": zdiv("FMOD"),
    "__gmpz_cdiv_q": zdiv("CDIV"), "__gmpz_cdiv_r": zdiv("CMOD"),
    "__gmpz_mod": zdiv("EMOD"), "__gmpz_divexact": zdiv("XDIV"),
    "__gmpz_tdiv_qr": zdivmod("TDIV", "TMOD"), "__gmpz_fdiv_qr": zdivmod("FDIV", "FMOD"),
    "__gmpz_cmp": c_cmp, "__gmpz_cmp_ui": c_cmp_ui, "__gmpz_cmp_si": c_cmp_si,
    "__gmpz_clear": nop(), "__gmpf_clear": nop(),
}
for n in ("EMOD", "XDIV"):
    OPS[n] = z3.Function("Z" + n, INT, INT, INT)


def c_swap(E, st, a):
    x, y = E.mpz_get(st, a[0]), E.mpz_get(st, a[1])
    E.mpz_set(st, a[0], y)
    E.mpz_set(st, a[1], x)
    return 0


def mpf_field(E, p):
    for n, (o, ty, ct) in E.M.field.items():
        if ct == "mpf_t" and o == p.off:
            return True
    raise Unsupported("mpf_t that isn't a tree's")


def c_mpf_get_d(E, st, a):
    mpf_field(E, a[0])
    return FP(64, uf("mpf_get_d", INT, z3.BitVecSort(64))(MPF(a[0].base)))


def c_mpf_sgn(E, st, a):
    return E.fresh("mpfsgn", z3.BitVecSort(32))


GMP["__gmpz_swap"] = c_swap
GMP["__gmpf_get_d"] = c_mpf_get_d


def c_setjmp(E, st, a):
    st.events.append(("setjmp", a[0].base))
    return 0


LIBC = {
    "malloc": c_malloc, "calloc": c_calloc, "free": c_free,
    "strdup": c_strdup, "__strdup": c_strdup, "strcmp": c_strcmp,
    "llvm.memcpy.p0.p0.i64": c_memcpy, "memcpy": c_memcpy, "memset": c_memset,
    "llvm.memset.p0.i64": lambda E, st, a: c_memset(E, st, [a[0], z3.ZeroExt(24, tobv(a[1], 8)), a[2]]),
    "exit": die("die"), "__assert_fail": die("die"), "abort": die("die"),
    "perror": nop(), "fprintf": nop(), "vfprintf": nop(), "fputs": nop(), "fputc": nop(), "fwrite": nop(),
    "puts": nop(), "printf": nop(),
    "llvm.va_start": nop(), "llvm.va_end": nop(), "llvm.stacksave": nop(), "llvm.stackrestore": nop(),
    "llvm.lifetime.start.p0": nop(), "llvm.lifetime.end.p0": nop(),
}

def c_longjmp(E, st, a):
    st.events.append(("longjmp", a[0], a[1]))
    return Outcome("longjmp", st, None, st.frame.fn.name)


def c_cscript_exit(E, st, a):
    st.events.append(("cscript_exit", a[0]))
    return Outcome("exit", st, a[0], st.frame.fn.name)


REPO = {
    "longjmp": c_longjmp, "_longjmp": c_longjmp, "siglongjmp": c_longjmp,
    "cscript_exit": c_cscript_exit,
    "alloc_tree": alloc_tree,
    "list_add_tail": c_list_add_tail, "list_add": c_list_add, "list_del": c_list_del,
    "eval_die": die("die"),
    "inhibit_gc": nop(), "enable_gc": nop(),
}


# ---- evaluation ----------------------------------------------------------------------
SELF = ["T_FN", "T_FLOAT", "T_INTEGER", "T_STRING", "T_LIVE_VAR", "T_LIVE_COMPOUND", "T_EXTERN",
        "T_TYPEDEF", "T_STATIC", "T_POINTER", "D_T_VOID", "T_BREAK"]


def self_tags(E):
    return E.M.tagset(*SELF) | E.M.tagset(*E.M.ctypes)


MUTABLE = {
    # node type -> accessors that evaluation may change in an object that already exists
    "E_CTX": ["tECTX_JMP_BUF", "tECTX_RETVAL"],
    "T_FN": ["tFN_RET_TYPE"],
}


def mutable_offsets(E):
    if not hasattr(E, "_mut"):
        m = {}
        for t, accs in MUTABLE.items():
            for a in accs:
                if a in E.M.acc:
                    m.setdefault(E.M.off(a), set()).add(E.M.tag(t))
        E._mut = m
    return E._mut


def may_change(E, st, b, o, nlog, mut, nev):
    if E.kindof(st, b)[1] > nev and not E.is_fresh(st, b):
        return True
    t = E.tags(st, Ptr(b)) & mut[o]
    if not t:
        return False
    return True


def havoc_call(E, st, tag):
    """everything evaluation may change: program memory, the mutable fields"""
    st.epoch += 1
    ep = "e%d" % st.epoch
    nev = len(st.events)
    st.events.append(("havoc",))
    mut = mutable_offsets(E)

    def changed(E, st, b, o, nlog=len(st.log)):
        if o not in mut:
            return False
        if E.is_fresh(st, b) and not any(i == b.get_id() for i, _ in st.escaped):
            return False
        return may_change(E, st, b, o, nlog, mut, nev)
    st.log.append((None, changed, ep))
    old = st.mem
    new = E.new_mem(st)
    for b, n in st.blocks:
        if not any(i == b.get_id() for i, _ in st.escaped):
            for i in range(16):
                st.pc.append(z3.Select(new, b + i) == z3.Select(old, b + i))
    for k in list(st.glob):
        if k[0] in ("include_ctx", "include_chain", "cscript_parse_head"):
            v = E.havoc(st, k[0], ('ptr',))
            st.glob[k] = v
    st.ghost["lastcall"] = len(st.events)


def c_eval(E, st, a):
    t = a[0]
    if E.choose(st, E.icmp(st, "eq", ('ptr',), t, NULL)):
        return NULL
    st.ghost[("tree", t.base.get_id())] = True
    tags = E.tags(st, t)
    selfs = self_tags(E)
    if tags <= selfs:
        st.events.append(("selfeval", t.base))
        return t
    if len(tags) == 1:
        h = E.node_contracts.get(E.M.names[next(iter(tags))])
        if h is not None:
            return h(E, st, t)
    if E.is_fresh(st, t.base) and not E.opts.get("allow_fresh_eval"):
        # a node that the evaluator made up itself: its evaluation is executed
        return Inline("__evaluate_1", a)
    if tags & selfs and (tags != frozenset(range(len(E.M.names)))):
        x = E.tag(st, t)
        E.choose(st, z3.Or([x == v for v in sorted(tags & selfs)]))
        # domains are narrowed by the fork
        tags2 = narrowed(E, st, t, tags, selfs)
        if tags2 <= selfs:
            st.events.append(("selfeval", t.base))
            return t
    return generic_eval(E, st, t)


def narrowed(E, st, t, tags, selfs):
    x = E.tag(st, t)
    if E.decide(st, z3.Or([x == v for v in sorted(tags & selfs)])):
        new = tags & selfs
    else:
        new = tags - selfs
    st.dom[t.base.get_id()] = new
    return new


def generic_eval(E, st, t):
    E.escape(st, t)
    m0 = st.mem
    havoc_call(E, st, "eval")
    n = len([e for e in st.events if e[0] == "eval"])
    r = E.sym_ptr(st, "R%d" % n)
    st.ghost[("tree", r.base.get_id())] = True
    st.events.append(("eval", t.base, r, m0, st.mem, st.glob.get(("cur_ctx", 0))))
    if E.on_eval is not None:
        return E.on_eval(E, st, t, r)
    return r


def c_eval_stmts(E, st, a):
    t = a[0]
    E.escape(st, t)
    m0 = st.mem
    havoc_call(E, st, "stmts")
    n = len([e for e in st.events if e[0] == "stmts"])
    r = E.sym_ptr(st, "B%d" % n)
    st.ghost[("tree", r.base.get_id())] = True
    brk = E.M.tag("T_BREAK")
    st.events.append(("stmts", t, r, m0, st.mem, st.glob.get(("cur_ctx", 0))))
    st.pc.append(z3.Or(r.base == ZERO64, TAG(r.base) == brk))
    st.dom[r.base.get_id()] = frozenset([brk])
    none = st.clone()
    none.pc.append(r.base == ZERO64)
    none.events[-1] = ("stmts", t, NULL) + none.events[-1][3:]
    st.pc.append(r.base != ZERO64)
    return [(none, NULL), (st, r)]


# ---- invariants of the evaluator's objects ---------------------------------------
# member -> (node types it refers to, may it be null).  They are assumed for
# objects that exist already, and an obligation ("invariants") at the end of
# every path for the objects that the path has made or changed.
INVARIANTS = {
    "tECTX_PARENT_CTX": (("E_CTX",), True),
    "tECTX_NAME": (("T_IDENTIFIER",), False),
    "tECTX_ID_MAP": (("CHAIN_HEAD",), False),
    "tECTX_STRUCT_ID_MAP": (("CHAIN_HEAD",), False),
    "tECTX_UNION_ID_MAP": (("CHAIN_HEAD",), False),
    "tECTX_ALLOC_CHAIN": (("CHAIN_HEAD",), False),
    "tEMAP_LEFT": (("T_IDENTIFIER",), False),
    "tLV_COMP_MEMBERS": (("CHAIN_HEAD",), False),
    "tLV_COMP_DECL": (("T_DECL_COMPOUND",), False),
}


def set_invariants(E):
    for acc, (tags, nullable) in INVARIANTS.items():
        if acc in E.M.acc:
            tag, mem = E.M.acc[acc]
            E.invariants.setdefault(E.M.field[mem][0], {})[E.M.tag(tag)] = (E.M.tagset(*tags), nullable)


def install(E):
    set_invariants(E)
    E.mutable = mutable_offsets
    E.may_change = may_change
    E.contracts.update(GMP)
    E.contracts.update(LIBC)
    E.contracts.update(REPO)
    E.contracts["__evaluate_1"] = c_eval
    E.contracts["__evaluate"] = c_eval_stmts
    E.node_contracts = {}
    E.on_eval = None
    E.opts = {}
