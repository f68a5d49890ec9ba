"""C09: lists of declaration specifiers and the types that they name."""
import z3
from sym import *
from spec import *
from ir import Unsupported
from specs_scope import order, valid
from specs_decl import logged, before

SPEC = ("VOID", "CHAR", "SHORT", "INT", "LONG", "FLOAT", "DOUBLE", "SIGNED", "UNSIGNED")
OTHERS = ("T_EXTERN", "T_TYPEDEF", "T_STATIC", "T_AUTO", "T_REGISTER")
NAMED = ("T_IDENTIFIER", "T_DECL_COMPOUND", "T_ENUMERATOR")
# C11 6.7.2p2 without _Bool and _Complex; plain char is the platform's signed char
TYPES = {
    "D_T_VOID": ["VOID"], "D_T_CHAR": ["CHAR", "SIGNED CHAR"], "D_T_UCHAR": ["UNSIGNED CHAR"],
    "D_T_SHORT": ["SHORT", "SIGNED SHORT", "SHORT INT", "SIGNED SHORT INT"], "D_T_USHORT": ["UNSIGNED SHORT", "UNSIGNED SHORT INT"],
    "D_T_INT": ["INT", "SIGNED", "SIGNED INT"], "D_T_UINT": ["UNSIGNED", "UNSIGNED INT"],
    "D_T_LONG": ["LONG", "SIGNED LONG", "LONG INT", "SIGNED LONG INT"], "D_T_ULONG": ["UNSIGNED LONG", "UNSIGNED LONG INT"],
    "D_T_LONGLONG": ["LONG LONG", "SIGNED LONG LONG", "LONG LONG INT", "SIGNED LONG LONG INT"],
    "D_T_ULONGLONG": ["UNSIGNED LONG LONG", "UNSIGNED LONG LONG INT"],
    "D_T_FLOAT": ["FLOAT"], "D_T_DOUBLE": ["DOUBLE"], "D_T_LONGDOUBLE": ["LONG DOUBLE"],
}
COMBOS = {tuple(c.split().count(s) for s in SPEC): t for t, cs in TYPES.items() for c in cs}


class Counts:
    """the loop's variables as a function of how often each specifier was there:
    for each specifier the values after none, one, ... of it alone"""

    def __init__(self):
        self.base = {}
        self.chain = {}

    def ints(self, phis):
        return [r for r, v in phis.items() if not isinstance(v, Ptr)]

    def value(self, r, n, width):
        x = z3.BitVecVal(self.base[r], width)
        for k, c in self.chain.items():
            for i in range(1, len(c)):
                x = z3.If(n[k] == i, z3.BitVecVal((c[i][r] - self.base[r]) % (1 << width), width) + x, x)
        return x


def bv(v):
    return tobv(v, 32)


def first(S, tag, before):
    """one turn of the loop for an element of kind `tag' when the loop's variables
    have these values: the values afterwards, or None if that's diagnosed"""
    G = Group(S, "specifiers")
    E = G.E
    E.constants = False
    st = G.state()
    specs = G.node(st, "specs", "CHAIN_HEAD")
    E.on_elem = lambda E, st, h, el: E.assume_tags(st, el, E.M.tagset(tag))
    start = {}

    def on_loop(E, st, key, entry, phis):
        ring = st.events[-1][6]
        if ring is None or ring[0] == "end":
            st.pc.append(z3.BoolVal(False))
            return
        for r, v in phis.items():
            if isinstance(v, Ptr):
                if r != ring[2]:
                    st.pc.append(v.base == tobv(entry[r].base, 64))
            else:
                c = z3.simplify(bv(entry[r]))
                if not z3.is_bv_value(c):
                    raise Unsupported("the loop's variables don't start with constants")
                start[r] = c.as_long()
                st.pc.append(bv(v) == (before or start)[r])
    E.on_loop = on_loop
    res = []
    for o in G.run(st, "resolve_decl_specs_to_type", [specs]):
        if E.S.check(o.st.pc)[0] == "unsat":
            continue
        if o.kind == "die":
            res.append(None)
            continue
        if o.kind != "back":
            raise Unsupported("specifiers: %s in the middle of the list" % o.kind)
        back = [e for e in o.st.events if e[0] == "back"][-1][2]
        now = {}
        for r in start:
            s = z3.Solver()
            s.add(o.st.pc)
            if s.check() != z3.sat:
                raise Unsupported("specifiers: no model")
            now[r] = s.model().eval(bv(back[r]), model_completion=True).as_long()
            if not E.S.valid(o.st.pc, bv(back[r]) == now[r])[0]:
                raise Unsupported("specifiers: the values aren't determined")
        res.append(now)
    if len(res) != 1:
        raise Unsupported("specifiers: %d ways through the loop" % len(res))
    return start, res[0]


def learn(S):
    C = Counts()
    for s in SPEC:
        cur, chain = None, []
        for i in range(4):
            start, nxt = first(S, "T_%s_TS" % s, cur)
            C.base = start
            chain.append(cur or start)
            if nxt is None:
                break
            cur = nxt
        C.chain[s] = chain
    return C


def resolve(S):
    """Inductive invariant of the loop over the list: its variables are what the
    numbers of specifiers so far make them (whatever the order was), and the named
    type, if there was one.  A specifier is refused only if no type of C has the
    specifiers so far and it; at the end the result is the type that has them."""
    C = learn(S)
    G = Group(S, "resolve_decl_specs_to_type")
    E = G.E
    E.constants = False
    st = G.state()
    specs = G.node(st, "specs", "CHAIN_HEAD")
    E.on_elem = lambda E, st, h, el: E.assume_tags(st, el, E.M.tagset(*(["T_%s_TS" % s for s in SPEC + ("BOOL",)] + list(OTHERS + NAMED))))
    n = {s: z3.BitVec("n_" + s, 8) for s in SPEC}
    top = {s: len(C.chain[s]) - 1 for s in SPEC}

    def on_loop(E, st, key, entry, phis):
        ring = st.events[-1][6]
        for s in SPEC:
            st.pc.append(z3.ULE(n[s], top[s]))
        for r, v in phis.items():
            if isinstance(v, Ptr):
                if ring is not None and r != ring[2]:
                    st.ghost[("tree", v.base.get_id())] = True
                    st.pc.append(z3.Or([v.base == ZERO64] + [TAG(v.base) == t for t in sorted(E.M.tagset(*NAMED))]))
            else:
                if r not in C.base:
                    raise Unsupported("specifiers: another variable")
                st.pc.append(bv(v) == C.value(r, n, bv(v).size()))
    E.on_loop = on_loop

    def is_combo(c, plus=None):
        return z3.And([n[s] == c[i] for i, s in enumerate(SPEC)])

    def part_of(c, extra):
        """a type has all that there was, `extra' and possibly more"""
        return z3.And([z3.ULE(n[s] + (1 if s == extra else 0), c[i]) for i, s in enumerate(SPEC)])
    none = z3.And([n[s] == 0 for s in SPEC])
    for p in G.paths(G.run(st, "resolve_decl_specs_to_type", [specs]), ok=("ret", "back", "die")):
        G.frame(p)
        lp = order(p, "loop")
        if not p.require("list", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(specs.base), "the list isn't gone through from its start"):
            continue
        ring, phis, entry = lp[0][6], lp[0][3], lp[0][2]
        ptrs = [r for r, v in phis.items() if isinstance(v, Ptr) and r != ring[2]]
        if not p.require("variables", len(ptrs) == 1, "no or several named types are remembered"):
            continue
        me = phis[ptrs[0]]
        p.require("start", tobv(entry[ptrs[0]].base, 64) == ZERO64, "there's a type before the list")
        isnull = me.base == ZERO64
        if ring[0] == "end":
            ok = [c for c in COMBOS]
            if p.out.kind == "die":
                p.require("accepts", z3.Not(z3.Or([z3.And(isnull, is_combo(c)) for c in ok] + [z3.And(z3.Not(isnull), none)])), "a type of C is refused")
                continue
            if not p.require("result", p.out.kind == "ret", "the list doesn't end"):
                continue
            if p.fresh(p.val):
                ts = p.names(p.val)
                p.require("type", z3.And(isnull, z3.Or([is_combo(c) for c in ok if ts == {COMBOS[c]}] or [z3.BoolVal(False)])),
                          "%s isn't the type of these specifiers in C" % ", ".join(sorted(ts)))
            else:
                p.require("named", z3.And(z3.Not(isnull), none, tobool(p.ptr_eq(p.val, me))), "not the named type")
            continue
        el = Ptr(ring[3])
        ts = p.names(el)
        for t in sorted(ts):
            here = TAG(el.base) == p.E.M.tag(t)
            if p.E.S.check(p.st.pc + [here])[0] == "unsat":
                continue
            s = t[2:-3] if t.endswith("_TS") else None
            if s == "BOOL":
                p.require("bool", p.out.kind == "die", "_Bool isn't diagnosed")
                continue
            if p.out.kind == "die":
                if s:
                    p.require("possible", z3.Implies(here, z3.Not(z3.And(isnull, z3.Or([part_of(c, s) for c in COMBOS])))), "`%s' is refused although a type has it" % s.lower())
                elif t in NAMED:
                    p.require("possible", z3.Implies(here, z3.Not(z3.And(isnull, none))), "a named type is refused")
                else:
                    p.require("possible", z3.Not(here), "%s is refused" % t)
                continue
            if not p.require("goes-on", p.out.kind == "back", "the rest of the list isn't looked at"):
                continue
            back = order(p, "back")[-1][2]
            h = E.ring_of(back[ring[2]])
            p.require("next", h is not None and h.base.eq(el.base), "specifiers are skipped")
            if t in NAMED:
                p.require("remembers", z3.Implies(here, z3.And(isnull, tobool(p.ptr_eq(back[ptrs[0]], el)))), "the named type isn't the one of the list")
            else:
                p.require("keeps", z3.Implies(here, tobool(p.ptr_eq(back[ptrs[0]], me))), "the named type is forgotten")
            m = {k: n[k] + (1 if k == s else 0) for k in SPEC}
            if s:
                p.require("counted", z3.Implies(here, z3.ULE(m[s], top[s])), "`%s' is counted too often" % s.lower())
            for r in C.base:
                p.require("order", z3.Implies(here, bv(back[r]) == C.value(r, m, bv(back[r]).size())), "what's remembered of `%s' depends on the order" % t)
    return G


resolve.group = "resolve_decl_specs_to_type"
RESOLVE = [resolve]


# ---- type names -----------------------------------------------------------------
def type_name(S):
    """In a type name (sizeof, casts): the type of the specifiers, resolved if it's
    a name or a compound or enumeration; then for every part of the declarator from
    the outside in the type that is a pointer to, an array of, or a function that
    returns what there was (inductive step over the declarator's parts)."""
    G = Group(S, "T_TYPE_SPECIFIER")
    E = G.E

    def c_specs(E, st, a):
        r = logged("specs", "type", True)(E, st, a)
        return r
    E.contracts["resolve_decl_specs_to_type"] = c_specs

    def on_loop(E, st, key, entry, phis):
        for r, v in phis.items():
            if isinstance(v, Ptr):
                G.as_tree(st, v)
    E.on_loop = on_loop
    st = G.state()
    t = G.node(st, "t", "T_TYPE_SPECIFIER")
    d0 = G.as_tree(st, E.get(st, t, "tTYPE_SPECIFIER_DECL"))
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "back", "die")):
        sp, ev, lp = order(p, "specs"), order(p, "eval"), order(p, "loop")
        if not p.require("specifiers", len(sp) == 1 and valid(p, p.ptr_eq(sp[0][1], before(p, t, "tTYPE_SPECIFIER_SPECS"))), "not the specifiers are resolved"):
            continue
        ty = sp[0][-1]
        named = tobool(p.is_tag(ty, *NAMED))
        if ev:
            p.require("resolved", z3.And(named, ev[0][1] == ty.base) if len(ev) == 1 else False, "something else is evaluated")
            ty = ev[0][2]
        else:
            p.require("named", z3.Not(named), "a named type isn't resolved")
        if not p.require("declarator", len(lp) == 1, "the declarator isn't gone through"):
            continue
        lp = lp[0]
        ptrs = [r for r, v in lp[3].items() if isinstance(v, Ptr)]
        d = [r for r in ptrs if valid(p, p.ptr_eq(lp[2][r], before(p, t, "tTYPE_SPECIFIER_DECL")))]
        y = [r for r in ptrs if valid(p, p.ptr_eq(lp[2][r], ty))]
        if not p.require("start", len(d) == 1 and len(y) == 1, "the declarator isn't applied to the type from its start"):
            continue
        d, y = lp[3][d[0]], lp[3][y[0]]
        parts = z3.And(d.base != ZERO64, tobool(p.is_tag(d, "T_POINTER", "T_ARRAY", "T_FN")))
        if p.out.kind == "die":
            p.require("accepts", z3.Not(z3.Or(d.base == ZERO64, parts)), "a type name is refused")
            continue
        G.frame(p)
        if p.out.kind == "ret":
            p.require("all", d.base == ZERO64, "a part of the declarator is ignored")
            p.require("type", p.ptr_eq(p.val, y), "not the type that was made up")
            continue
        back = order(p, "back")[-1][2]
        d2, y2 = back[[r for r in ptrs if lp[3][r] is d][0]], back[[r for r in ptrs if lp[3][r] is y][0]]
        kind = {"T_POINTER": ("D_T_PTR", "tPTR_EXP", "tDTPTR_EXP"), "T_ARRAY": ("T_ARRAY_TYPE", "tARRAY_DECL", "tARRAY_TYPE_BASE_TYPE"),
                "T_FN": ("T_FN", "tFN_DECL", "tFN_RET_TYPE")}.get("".join(p.names(d)))
        if not p.require("part", kind is not None, "not a part of a declarator"):
            continue
        if not p.require("made", p.fresh(y2) and p.is_tag(y2, kind[0]) is True, "not a type of the right kind is made"):
            continue
        p.require("next", p.ptr_eq(d2, p.get(d, kind[1])), "parts of the declarator are skipped")
        p.require("of", p.ptr_eq(p.get(y2, kind[2]), y), "the type isn't made of the one that there was")
        if kind[0] == "T_ARRAY_TYPE":
            p.require("size", p.ptr_eq(p.get(y2, "tARRAY_TYPE_SZ"), p.get(d, "tARRAY_SZ")), "not the array's size")
        if kind[0] == "T_FN":
            p.require("params", p.ptr_eq(p.get(y2, "tFN_ARGS"), p.get(d, "tFN_ARGS")), "not the function's parameters")
    return G


type_name.group = "T_TYPE_SPECIFIER"
NAMES = [type_name]
