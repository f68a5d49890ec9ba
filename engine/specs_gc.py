"""C16 and C17: the garbage collector.

C16: marking visits every object that an object refers to (per node type, from
the generated accessors), every word of the stack and every registered global
is a root, a collection marks before it sweeps, and only what wasn't marked is
released.  C17: the allocation array contains exactly the objects, in bounds.
"""
import os, re, subprocess, z3
from sym import *
from spec import Group, Path
from ir import Unsupported
import contracts


def reach_off(G):
    """offset of gc_obj.reachable"""
    return G.E.L.field_off(('struct', 'struct.gc_obj'), 1)[0]


def event(kind, res=None):
    def h(E, st, a):
        st.events.append((kind,) + tuple(a))
        return res(E, st, a) if res else 0
    return h


def mark_contract(off):
    def h(E, st, a):
        st.events.append(("mark", a[0]))
        # marking only ever sets `reachable', in any object
        st.epoch += 1
        st.log.append((None, lambda E, st, b, o: o == off, "m%d" % st.epoch))
        return 0
    return h


def flag(E, st, p, off):
    return tobv(E.tree_load(st, p.base, p.off + off, 1, ('int', 8)), 8) != 0


def order(p, *kinds):
    return [e for e in p.st.events if e[0] in kinds]


# ---- marking -----------------------------------------------------------------------
def mark_object(names):
    def rule(S):
        G = Group(S, "mark_object " + names[0])
        E, M = G.E, G.M
        off = reach_off(G)
        E.contracts["mark_tree"] = E.contracts["mark_object"] = mark_contract(off)
        members = {}
        for acc, (tag, mem) in M.acc.items():
            if M.field[mem][2] == "tree":
                members.setdefault(tag, set()).add(acc)
        for name in names:
            st = G.state()
            t = G.node(st, "t", name)
            was = flag(E, st, t, off)
            file_off = M.off_locus + 16
            want = [(a, E.get(st, t, a)) for a in sorted(members.get(name, ()))]
            want.append(("locus.file", E.tree_load(st, t.base, file_off, 8, ('ptr',))))
            E.mutable = lambda E: {}
            for p in G.paths(G.run(st, "mark_object", [t]), "total/" + name, ok=("ret", "back")):
                visited = E.decide(p.st, was)
                marks = [e[1] for e in order(p, "mark")]
                if visited is True:
                    p.require(name + "/visited", p.out.kind == "ret" and not order(p, "store", "mark"), "a marked object is visited again")
                    continue
                if visited is None:
                    p.require(name + "/visited", False, "an object is visited whether or not it is marked")
                    continue
                evs = order(p, "mark", "store")
                ok = bool(evs) and evs[0][0] == "store" and evs[0][1].eq(t.base) and evs[0][2] == off
                sets = [tobv(e[4], 8) != 0 for e in evs if e[0] == "store" and e[2] == off]
                p.require(name + "/marked", z3.And(sets) if sets else False, "the object isn't marked")
                p.require(name + "/first", ok, "the object isn't marked before what it refers to")
                bad = [e for e in evs if e[0] == "store" and e[2] != off] + order(p, "pstore", "free", "append", "unlink")
                p.require(name + "/frame", not bad, "marking changes the object")
                rings = [e for e in order(p, "loop") if e[6] is not None]
                if name == "CHAIN_HEAD":
                    if not p.require(name + "/elements", len(rings) == 1 and rings[0][6][1].eq(t.base), "the chain's elements aren't visited"):
                        continue
                    if rings[0][6][0] == "elem":
                        el = rings[0][6][3]
                        p.require(name + "/element", any(m.base.eq(el) and m.off == 0 for m in marks), "an element isn't marked")
                        nx = p.out.kind == "back"
                        if nx:
                            bk = order(p, "back")[-1]
                            h = E.ring_of(bk[2][rings[0][6][2]])
                            nx = h is not None and h.base.eq(el)
                        p.require(name + "/next", nx, "the next element isn't visited")
                        continue
                for a, v in want:
                    hit = z3.Or([v.term() == ZERO64] + [v.term() == m.term() for m in marks])
                    p.require("%s/%s" % (name, a), hit, "isn't marked")
        return G
    rule.group = "mark_object " + names[0]
    return rule


def mark_tree(S):
    G = Group(S, "mark_tree")
    E = G.E
    off = reach_off(G)
    E.contracts["mark_object"] = mark_contract(off)
    st = G.state()
    t = E.sym_ptr(st, "t")
    G.as_tree(st, t)
    for p in G.paths(G.run(st, "mark_tree", [t])):
        marks = [e[1] for e in order(p, "mark")]
        p.require("marks", z3.Or([t.base == ZERO64] + [t.term() == m.term() for m in marks]), "the object isn't marked")
        p.require("frame", not order(p, "store", "pstore", "free", "gstore"))
    # a potential root
    E.contracts["is_object"] = event("is_object", lambda E, st, a: E.fresh("isobj", z3.BitVecSort(32)))
    E.contracts["mark_tree"] = E.contracts["mark_object"]
    st = G.state()
    w = E.sym_ptr(st, "w")
    for p in G.paths(G.run(st, "mark_potential_root", [w]), "total/root"):
        q = order(p, "is_object")
        # a word that isn't an object's address is not followed
        if not p.require("root/known", len(q) >= 1 and p.ptr_eq(q[0][1], w), "a word isn't looked up"):
            continue
        marks = [e[1] for e in order(p, "mark")]
        isobj = [c for c in p.st.pc if "isobj" in str(c)]
        r = [x for x in subterms(p.st.pc) if z3.is_const(x) and str(x).startswith("isobj!")]
        yes = p.E.decide(p.st, r[0] != 0) if r else None
        p.require("root", yes is not None and (bool(marks) == yes) and all(m.base.eq(w.base) for m in marks),
                  "an object's address on the stack isn't a root, or something else is")
        p.require("root/frame", not order(p, "store", "pstore", "free", "gstore"))
    return G


mark_tree.group = "mark_tree"


# ---- roots ---------------------------------------------------------------------------
def simple_loop(p):
    """the only loop of the path: (entry values, values in an arbitrary
    iteration, values after it or None)"""
    lp = order(p, "loop")
    if len(lp) != 1:
        return None
    bk = order(p, "back")
    return lp[0][2], lp[0][3], (bk[-1][2] if bk else None)


def mark_stack(S):
    G = Group(S, "mark_stack")
    E = G.E
    E.contracts["mark_potential_root"] = event("root")
    st = G.state()
    top = E.load(st, E.glob_ptr("top_of_stack"), ('ptr',))
    # a stack is aligned, and below the end of the address space
    st.pc += [top.base & 7 == 0, z3.ULT(top.base, z3.BitVecVal(2 ** 47, 64))]
    kinds = set()
    for p in G.paths(G.run(st, "mark_stack", []), ok=("ret", "back")):
        kinds.add(p.out.kind)
        lp = simple_loop(p)
        if not p.require("loop", lp is not None and len([v for v in lp[1].values() if isinstance(v, Ptr)]) == 1, "unexpected loop"):
            continue
        entry, it, after = lp
        name = [n for n, v in it.items() if isinstance(v, Ptr)][0]
        cur = it[name].term()
        locs = [b for (k, (kind, birth, b)) in p.st.kind.items() if kind == "stack"]
        frame = z3.Or([cur == b for b in locs] + [z3.ULT(cur, b) for b in locs]) if locs else z3.BoolVal(False)
        first = entry[name].term()
        st2 = p.st
        if p.out.kind == "back":
            roots = [e[1] for e in order(p, "root")]
            load = [e for e in order(p, "pload") if e[2] == 8]
            step = z3.simplify(after[name].term() - cur)
            down = z3.is_bv_value(step) and step.as_signed_long() == -8
            up = z3.is_bv_value(step) and step.as_signed_long() == 8
            p.require("step", down or up, "words of the stack are skipped")
            want = E.mem_load(order(p, "loop")[0][5], cur, 8)
            p.require("word", len(roots) >= 1 and any(z3.simplify(r.term() == want) is not None and E.S.valid(p.st.pc, r.term() == want)[0] for r in roots),
                      "a word of the stack isn't a potential root")
            if down:
                p.require("start", E.S.valid(p.st.pc, z3.UGE(first, top.term()))[0], "the top of the stack isn't reached")
            else:
                p.require("start", bool(locs) and E.S.valid(p.st.pc, z3.Or([z3.ULE(first - 8, b) for b in locs]))[0], "the bottom of the stack isn't reached")
        else:
            # the loop ends when the other end is reached
            done = z3.Or(frame, z3.UGT(cur, top.term()))
            p.require("end", done, "the loop ends before the whole stack was visited")
        p.require("frame", not order(p, "store", "pstore", "gstore", "free"))
    G.obl("repeats").paths += 1
    if "back" not in kinds:
        G.obl("repeats").failed.append(("", "at most one word is visited", None))
    return G


mark_stack.group = "mark_stack"


def mark_static(S):
    G = Group(S, "mark_static")
    E = G.E
    E.contracts["mark_tree"] = E.contracts["mark_object"] = mark_contract(reach_off(G))
    E.contracts["is_object"] = event("is_object", lambda E, st, a: E.fresh("isobj", z3.BitVecSort(32)))
    st = G.state()
    kinds = set()
    for p in G.paths(G.run(st, "mark_static", []), ok=("ret", "back")):
        kinds.add(p.out.kind)
        lp = simple_loop(p)
        if not p.require("loop", lp is not None and len([v for v in lp[1].values() if isinstance(v, Ptr)]) == 1, "unexpected loop"):
            continue
        entry, it, after = lp
        name = [n for n, v in it.items() if isinstance(v, Ptr)][0]
        cur = it[name].term()
        lo, hi = E.glob_ptr("__start_static_trees").term(), E.glob_ptr("__stop_static_trees").term()
        p.require("start", z3.simplify(entry[name].term() == lo), "the first registered global is skipped")
        if p.out.kind == "back":
            p.require("step", z3.simplify(after[name].term() - cur == 8), "registered globals are skipped")
            marks = [e[1] for e in order(p, "mark")]
            m = order(p, "loop")[0][5]
            want = E.mem_load(m, E.mem_load(m, cur, 8), 8)
            q = order(p, "is_object")
            isobj = None
            if q:
                r = [x for x in subterms(p.st.pc) if z3.is_const(x) and str(x).startswith("isobj!")]
                isobj = p.E.decide(p.st, r[0] != 0) if r else None
                p.require("known", E.S.valid(p.st.pc, q[0][1].term() == want)[0], "not the global's value")
            p.require("root", isobj is False or want.eq(z3.BitVecVal(0, 64)) or
                      (bool(marks) and E.S.valid(p.st.pc, marks[0].term() == want)[0]), "a registered global isn't a root")
        else:
            p.require("end", z3.UGE(cur, hi), "the loop ends before all registered globals were visited")
        p.require("frame", not order(p, "store", "pstore", "gstore", "free"))
    G.obl("repeats").paths += 1
    if "back" not in kinds:
        G.obl("repeats").failed.append(("", "at most one global is visited", None))
    return G


mark_static.group = "mark_static"


def globals_registered(S):
    """every global variable that refers to a tree is registered as a root"""
    G = Group(S, "roots")
    import build
    s = S.tree.src
    n = 0
    for f in sorted(os.listdir(s)):
        if not f.endswith(".c"):
            continue
        out = os.path.join(S.tree.dir, f + ".dbg.ll")
        r = subprocess.run([build._clang(), "-w", "-DHAVE_CONFIG_H", "-I.", "-I..", "-O0", "-g", "-S", "-emit-llvm", f, "-o", out],
                           cwd=s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Unsupported("%s doesn't compile" % f)
        x = open(out).read()
        os.unlink(out)
        md = dict(re.findall(r'^(!\d+) = (?:distinct )?(.*)$', x, re.M))

        def is_tree(k, d=0):
            """a pointer to struct tree, or an aggregate of such"""
            v = md.get(k, "")
            b = re.search(r'baseType: (!\d+)', v)
            if "DW_TAG_pointer_type" in v:
                return bool(b) and 'name: "tree"' in md.get(strip(b.group(1)), "") and "DW_TAG_structure_type" in md.get(strip(b.group(1)), "")
            if "DW_TAG_structure_type" in v or "DW_TAG_union_type" in v:
                e = re.search(r'elements: (!\d+)', v)
                return bool(e) and d < 4 and 'name: "tree"' not in v and any(is_tree(m, d + 1) for m in re.findall(r'!\d+', md.get(e.group(1), "")))
            return bool(b) and d < 8 and is_tree(b.group(1), d + 1)

        def strip(k):
            while True:
                v = md.get(k, "")
                b = re.search(r'baseType: (!\d+)', v)
                if ("DW_TAG_typedef" in v or "DW_TAG_const" in v or "DW_TAG_volatile" in v) and b:
                    k = b.group(1)
                else:
                    return k
        expr = dict(re.findall(r'^(!\d+) = !DIGlobalVariableExpression\(var: (!\d+)', x, re.M))
        reg = set(re.findall(r'^@[\w.]+ = [^\n]*global ptr @([\w.]+), section "static_trees"', x, re.M))
        for name, dbg in re.findall(r'^@([\w.]+) = [^\n]*!dbg (!\d+)', x, re.M):
            var = md.get(expr.get(dbg, ""), "")
            ty = re.search(r'type: (!\d+)', var)
            if not ty or not is_tree(ty.group(1)) or "__tree_" in name:
                continue
            if re.match(r"(cscript|repl)(parser|lex)\.c$", f) and name.endswith("lval"):
                continue        # the parser's look-ahead (obligations of "parsing")
            n += 1
            o = G.obl("%s %s" % (f, name))
            o.paths += 1
            if name not in reg:
                o.failed.append(("", "%s: the global `%s' refers to trees but isn't a root" % (f, name), None))
    o = G.obl("found")
    o.paths += 1
    if n < 5:
        o.failed.append(("", "only %d global trees" % n, None))
    G.npaths = G.reached = n
    return G


globals_registered.group = "roots"


# ---- a collection --------------------------------------------------------------------
def collect(S):
    G = Group(S, "collect")
    E = G.E
    for n in ("fixup_alloc_array", "mark_stack", "mark_static", "sweep"):
        E.contracts[n] = event(n)
    E.contracts["llvm.eh.unwind.init"] = event("registers")
    st = G.state()
    for p in G.paths(G.run(st, "collect", [])):
        k = [e[0] for e in order(p, "fixup_alloc_array", "mark_stack", "mark_static", "sweep", "registers")]
        pos = lambda x: k.index(x) if x in k else 99
        p.require("all", all(k.count(x) == 1 for x in ("fixup_alloc_array", "mark_stack", "mark_static", "sweep", "registers")), " ".join(k))
        p.require("sorted", pos("fixup_alloc_array") < min(pos("mark_stack"), pos("mark_static")), "addresses are looked up before the table is sorted")
        p.require("registers", pos("registers") < pos("mark_stack"), "references in registers aren't seen")
        p.require("sweep", max(pos("mark_stack"), pos("mark_static")) < pos("sweep"), "objects are released before all are marked")
        p.require("frame", not order(p, "store", "pstore", "gstore", "free"))
    # when
    E.contracts["collect"] = event("collect")
    st = G.state()
    inh = tobv(E.load(st, E.glob_ptr("gc_inhibited"), ('int', 32)), 32)
    for p in G.paths(G.run(st, "maybe_collect", []), "total/when"):
        p.require("inhibited", z3.BoolVal(True) if not order(p, "collect") else inh == 0, "a collection while collections are inhibited")
        bad = [e for e in order(p, "gstore") if e[1] in ("gc_inhibited", "allocs", "alloc_ptr", "alloc_array_sz")]
        p.require("when/frame", not bad and not order(p, "store", "pstore", "free"))
    for fn, want in (("inhibit_gc", lambda v: v + 1), ("enable_gc", lambda v: z3.If(v == 0, v, v - 1))):
        st = G.state()
        inh = tobv(E.load(st, E.glob_ptr("gc_inhibited"), ('int', 32)), 32)
        E.contracts.pop(fn, None)
        for p in G.paths(G.run(st, fn, []), "total/" + fn):
            p.require(fn, tobv(E.load(p.st, E.glob_ptr("gc_inhibited"), ('int', 32)), 32) == want(inh), "inhibitions don't nest")
            bad = [e for e in order(p, "gstore") if e[1] != "gc_inhibited"]
            p.require(fn + "/frame", not bad and not order(p, "store", "pstore", "free"))
    return G


collect.group = "collect"


def dealloc(S):
    G = Group(S, "dealloc_object")
    E, M = G.E, G.M
    E.contracts["ffi_closure_free"] = lambda E, st, a: st.events.append(("free", a[0])) or 0
    E.contracts["__gmpz_clear"] = lambda E, st, a: st.events.append(("mpz_clear", a[0])) or 0
    # the memory that belongs to an object alone
    own = {"T_IDENTIFIER": ["tID_STR"], "E_ALLOC": ["tALLOC_PTR"],
           "T_CLOSURE": ["tCLOSURE_CLOSURE", "tCLOSURE_CIF", "tCLOSURE_TYPES"]}
    for name in M.names:
        st = G.state()
        t = G.node(st, "t", name)
        mine = [E.get(st, t, a) for a in own.get(name, []) if a in M.acc]
        E.assume_nonnull_once(st, t.base)
        for p in G.paths(G.run(st, "dealloc_object", [t]), "total"):
            fr = order(p, "free", "mpz_clear")
            frees = [e[1] for e in fr if e[0] == "free"]
            p.require("object", len([x for x in frees if x.off == 0 and x.base.eq(t.base)]) == 1 and fr[-1][0] == "free" and fr[-1][1].base.eq(t.base),
                      "%s: the object isn't released once, after its parts" % name)
            bad = []
            for i, e in enumerate(fr[:-1]):
                if e[0] == "mpz_clear":
                    if not (name == "T_INTEGER" and e[1].base.eq(t.base)):
                        bad.append("clears a number of " + name)
                    continue
                if not any(e[1].off == m.off and e[1].base.eq(m.base) for m in mine):
                    bad.append("%s: releases memory that it doesn't own" % name)
                if any(f[0] == e[0] and f[1].off == e[1].off and f[1].base.eq(e[1].base) for f in fr[:i]):
                    bad.append("%s: releases memory twice" % name)
            p.require("owned", not bad, "; ".join(bad))
            p.require("frame", not order(p, "store", "pstore", "gstore", "append", "unlink"))
    return G


dealloc.group = "dealloc_object"


# ---- the table of allocations ----------------------------------------------------------
class Table:
    """the table's invariant: it has room for alloc_array_sz entries, of which
    the first alloc_ptr are in use"""
    def __init__(self, G, st, nonnull=False, may_be_missing=False):
        E = self.E = G.E
        self.G = G
        g = lambda n, ty: E.load(st, E.glob_ptr(n), ty)
        self.base = g("allocs", ('ptr',))
        self.n = tobv(g("alloc_ptr", ('int', 64)), 64)
        self.size = tobv(g("alloc_array_sz", ('int', 64)), 64)
        st.pc += [z3.ULE(self.n, self.size), z3.ULT(self.size, z3.BitVecVal(2 ** 40, 64)), z3.UGT(self.size, z3.BitVecVal(0, 64))]
        if may_be_missing:
            st.pc.append(z3.Implies(self.base.base == ZERO64, self.n == 0))
        else:
            E.assume_nonnull(st, self.base.base)
        st.pc.append(z3.ULT(self.base.base, z3.BitVecVal(2 ** 47, 64)))
        st.pc.append(self.base.base & 7 == 0)

    def bounds(self, p, name="bounds"):
        """every access to program memory is one of an entry"""
        E, st = self.E, p.st
        now = E.load(st, E.glob_ptr("allocs"), ('ptr',)).term()
        sz = tobv(E.load(st, E.glob_ptr("alloc_array_sz"), ('int', 64)), 64)
        for e in order(p, "pload", "pstore"):
            a = e[1]
            ok = z3.Or([z3.And(z3.ULE(z3.BitVecVal(8, 64), n * 8), z3.ULE(a - b, n * 8 - 8), (a - b) & 7 == 0)
                        for b, n in ((self.base.term(), self.size), (now, sz))])
            p.require(name, z3.And(ok, e[2] == 8), "an access outside of the table")


def new_state(G, **kw):
    st = G.state()
    return st, Table(G, st, **kw)


def sweep(S):
    G = Group(S, "sweep")
    E = G.E
    off = reach_off(G)
    E.contracts["dealloc_object"] = event("dealloc")
    st, T = new_state(G)
    kinds = set()

    def entry_at(E, st, addr, v):
        # entries in use aren't null (fixup_alloc_array)
        st.pc.append(z3.Implies(z3.ULT(addr - T.base.term(), T.n * 8), v != ZERO64))
        st.ghost[("tree", v.get_id())] = True
    E.on_pload = entry_at
    for p in G.paths(G.run(st, "sweep", []), ok=("ret", "back")):
        kinds.add(p.out.kind)
        lp = simple_loop(p)
        if not p.require("loop", lp is not None and len(lp[1]) == 1, "unexpected loop"):
            continue
        entry, it, after = lp
        name = list(it)[0]
        T.bounds(p)
        if isinstance(it[name], Ptr):
            raise Unsupported("sweep by pointer")
        i = tobv(it[name], 64)
        addr = T.base.term() + i * 8
        if p.out.kind == "back":
            a, b = tobv(entry[name], 64), tobv(after[name], 64)
            up = E.S.valid(p.st.pc, z3.And(a == 0, b == i + 1))[0]
            p.require("all", up, "entries are skipped")
            m0 = order(p, "loop")[0][5]
            obj = E.mem_load(m0, addr, 8)
            st0 = p.st
            marked = uf("f%d@l1" % off, BV64, BV8)
            # was it marked?
            loads = [x for x in subterms(p.st.pc) if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith("f%d" % off)]
            if not p.require("looks", len(loads) >= 1 and all(E.S.valid(p.st.pc, l.arg(0) == obj)[0] for l in loads), "the entry's mark isn't looked at"):
                continue
            live = p.E.decide(p.st, loads[0] != 0)
            d = [e[1] for e in order(p, "dealloc")]
            if live:
                p.require("keeps", not d and not order(p, "free"), "a marked object is released")
                after_v = E.mem_load(p.st.mem, addr, 8)
                p.require("keeps/entry", after_v == obj, "a marked object's entry is lost")
                p.require("unmarks", z3.Not(flag(E, p.st, Ptr(loads[0].arg(0)), off)), "a mark is left for the next collection")
            else:
                p.require("releases", live is False and len(d) == 1 and E.S.valid(p.st.pc, d[0].term() == obj)[0], "an unmarked object isn't released, or another one is")
                p.require("forgets", E.mem_load(p.st.mem, addr, 8) == ZERO64, "a released object stays in the table")
            stores = order(p, "store")
            p.require("frame", all(e[2] == off for e in stores) and not order(p, "gstore"), "something else is changed")
            j = E.fresh("j")
            other = T.base.term() + j * 8
            p.require("others", z3.Implies(z3.And(z3.ULT(j, T.n), j != i), E.mem_load(p.st.mem, other, 8) == E.mem_load(m0, other, 8)),
                      "another entry is changed")
        else:
            p.require("end", z3.UGE(i, T.n), "the last entries are skipped")
            p.require("frame", not order(p, "store", "pstore", "gstore", "dealloc"))
    G.obl("repeats").paths += 1
    if "back" not in kinds:
        G.obl("repeats").failed.append(("", "at most one entry is visited", None))
    return G


sweep.group = "sweep"


def fixup(S):
    G = Group(S, "fixup_alloc_array")
    E = G.E
    st, T = new_state(G)

    def qsort(E, st, a):
        st.events.append(("qsort",) + tuple(a))
        E.new_mem(st)
        return 0
    E.contracts["qsort"] = qsort
    kinds = set()
    for p in G.paths(G.run(st, "fixup_alloc_array", []), ok=("ret", "back")):
        kinds.add(p.out.kind)
        q = order(p, "qsort")
        sorted_ = len(q) == 1 and E.S.valid(p.st.pc, z3.And(q[0][1].term() == T.base.term(), tobv(q[0][2], 64) == T.n, tobv(q[0][3], 64) == 8))[0] \
            and E.glob_name(q[0][4].base) == "compare_allocs"
        p.require("sorts", sorted_, "the entries in use aren't sorted")
        lp = order(p, "loop")
        if not p.require("loop", len(lp) == 1, "unexpected loop"):
            continue
        m = lp[0][5]
        # the number of entries in an arbitrary iteration, and after it
        now = tobv(E.load(p.st, E.glob_ptr("alloc_ptr"), ('int', 64)), 64)
        st0 = p.st
        j = E.fresh("j")
        if p.out.kind == "back":
            info = order(p, "back")[-1][3]
            was = tobv(info["glob"].get(("alloc_ptr", 0)), 64)
            # what is dropped is an empty entry at the end
            p.require("drops", z3.And(now == was - 1, was != 0, E.mem_load(m, T.base.term() + (was - 1) * 8, 8) == ZERO64),
                      "an entry that is in use is dropped")
        else:
            p.require("last", z3.Or(now == 0, E.mem_load(m, T.base.term() + (now - 1) * 8, 8) != ZERO64), "empty entries stay in use")
        p.require("frame", not order(p, "store", "pstore", "free") and all(e[1] == "alloc_ptr" for e in order(p, "gstore")), "something else is changed")
        # accesses are below the number of entries in use
        cur = tobv(order(p, "back")[-1][3]["glob"].get(("alloc_ptr", 0)), 64) if p.out.kind == "back" else now
        for e in order(p, "pload"):
            d = e[1] - T.base.term()
            p.require("bounds", z3.Implies(z3.ULE(cur, T.size), z3.And(z3.ULT(d, cur * 8), d & 7 == 0)), "an access outside of the table")
    # the order that sorting and searching use: descending addresses, so
    # that empty entries come last
    E.contracts.pop("qsort")
    st = G.state()
    x, y = E.fresh("x"), E.fresh("y")
    a, b = E.sym_ptr(st, "pa", True), E.sym_ptr(st, "pb", True)
    st.pc += [E.mem_load(st.mem, a.term(), 8) == x, E.mem_load(st.mem, b.term(), 8) == y]
    for p in G.paths(G.run(st, "compare_allocs", [a, b]), "total/order"):
        r = tobv(p.val, 32)
        p.require("order", z3.And((r == 0) == (x == y), (r < 0) == z3.UGT(x, y)), "not the order of addresses")
        p.require("order/frame", not order(p, "store", "pstore", "gstore"))
    # with the entries sorted, a last entry that isn't empty means that none is
    lem = G.obl("lemma: no entry in use is empty")
    lem.paths += 1
    e = z3.Function("entry", INT, BV64)
    n, i = z3.Int("n"), z3.Int("i")
    s = z3.Solver()
    s.add(n > 0, i >= 0, i < n, z3.Implies(i <= n - 1, z3.UGE(e(i), e(n - 1))), e(n - 1) != 0, e(i) == 0)
    if s.check() != z3.unsat:
        lem.failed.append(("", "", None))
    return G


fixup.group = "fixup_alloc_array"


def is_object(S):
    G = Group(S, "is_object")
    E = G.E
    st, T = new_state(G)
    got = []

    def bsearch(E, st, a):
        r = E.sym_ptr(st, "found")
        st.events.append(("bsearch", r) + tuple(a))
        return r
    E.contracts["bsearch"] = bsearch
    x = E.sym_ptr(st, "x")
    for p in G.paths(G.run(st, "is_object", [x])):
        q = order(p, "bsearch")
        if not p.require("looks", len(q) == 1, "the address isn't looked up once"):
            continue
        r, key, base, n, w, cmp = q[0][1:]
        kv = E.load(p.st, key, ('ptr',))
        p.require("key", p.ptr_eq(kv, x), "another address is looked up")
        p.require("table", z3.And(base.term() == T.base.term(), tobv(n, 64) == T.n, tobv(w, 64) == 8), "not all entries are searched")
        p.require("order", E.glob_name(cmp.base) == "compare_allocs", "not the order in which the table is sorted")
        p.require("result", (tobv(p.val, 32) != 0) == (r.term() != ZERO64), "the answer")
        p.require("frame", not order(p, "store", "pstore", "gstore", "free"))
    return G


is_object.group = "is_object"


def track(S):
    G = Group(S, "track_new_alloc")
    E = G.E

    def watch(E, st, M, pairs):
        pass

    def realloc(E, st, a):
        old, n = a[0], tobv(a[1], 64)
        p = contracts.new_block(E, st, n, "realloc")
        st.pc.append(p.base & 7 == 0)
        j = st.ghost["j"]
        T = st.ghost["T"]
        cur = tobv(E.load(st, E.glob_ptr("allocs"), ('ptr',)).term(), 64)
        m0 = st.mem
        m1 = E.new_mem(st)
        d = j * 8
        for k in range(8):
            st.pc.append(z3.Implies(z3.And(z3.ULT(d, z3.BitVecVal(2 ** 45, 64)), z3.ULE(d + 8, n), z3.ULE(d + 8, T.size * 8)),
                                    z3.Select(m1, p.base + d + k) == z3.Select(m0, old.term() + d + k)))
        st.events.append(("realloc", old, n, p))
        return p

    def memset(E, st, a):
        dst, n = a[0], tobv(a[2], 64)
        m0 = st.mem
        m1 = E.new_mem(st)
        st.events.append(("memset", dst.term(), n))
        b = tobv(E.load(st, E.glob_ptr("allocs"), ('ptr',)).term(), 64)
        addr = b + st.ghost["j"] * 8
        for k in range(8):
            x = addr + k
            st.pc.append(z3.Implies(z3.UGE(x - dst.term(), n), z3.Select(m1, x) == z3.Select(m0, x)))
        return 0
    E.contracts["realloc"] = realloc
    E.contracts["llvm.memset.p0.i64"] = E.contracts["memset"] = memset
    for missing in (False, True):
        st, T = new_state(G, may_be_missing=missing)
        if missing:
            st.pc.append(T.base.base == ZERO64)
            E.learn(st, T.base.base == ZERO64, True)
        st.ghost["T"] = T
        st.ghost["j"] = j = E.fresh("j")
        obj = E.sym_ptr(st, "obj", True)
        m0 = st.mem
        old = E.mem_load(m0, T.base.term() + j * 8, 8)
        # the table doesn't wrap around
        for p in G.paths(G.run(st, "track_new_alloc", [obj]), "total/%s" % ("first" if missing else "next")):
            g = lambda n, ty: E.load(p.st, E.glob_ptr(n), ty)
            base, n, size = g("allocs", ('ptr',)), tobv(g("alloc_ptr", ('int', 64)), 64), tobv(g("alloc_array_sz", ('int', 64)), 64)
            p.require("count", n == T.n + 1, "not one more entry")
            p.require("room", z3.And(z3.ULE(n, size), z3.ULT(size, z3.BitVecVal(2 ** 42, 64))), "more entries than the table has room for")
            p.require("entry", E.mem_load(p.st.mem, base.term() + (n - 1) * 8, 8) == obj.term(), "the object isn't in the table")
            if not missing:
                p.require("keeps", z3.Implies(z3.ULT(j, T.n), E.mem_load(p.st.mem, base.term() + j * 8, 8) == old), "another entry is lost")
            # the block that the table is in has alloc_array_sz entries
            blk = [bn for b, bn in p.st.blocks if b.eq(base.base)]
            if blk:
                p.require("block", z3.UGE(blk[0], size * 8), "the table is smaller than its recorded size")
            else:
                p.require("block", z3.And(base.term() == T.base.term(), size == T.size, T.base.base != ZERO64), "the table is smaller than its recorded size")
            for e in order(p, "memset"):
                p.require("clears", z3.And(z3.UGE(e[1] - base.term(), T.n * 8), z3.ULE(e[1] - base.term() + e[2], size * 8), z3.ULE(e[2], size * 8)),
                          "clears memory outside of the new part")
            for e in order(p, "pstore"):
                d = e[1] - base.term()
                p.require("bounds", z3.And(e[2] == 8, z3.ULE(d, size * 8 - 8)), "a write outside of the table")
            p.require("frame", not order(p, "store") and not [e for e in order(p, "gstore") if e[1] not in ("allocs", "alloc_ptr", "alloc_array_sz")],
                      "something else is changed")
            frees = order(p, "free")
            p.require("frees", all(e[1].base.eq(T.base.base) and blk for e in frees), "memory in use is released")
    return G


track.group = "track_new_alloc"


def alloc(S):
    G = Group(S, "alloc_tree")
    E = G.E
    E.contracts.pop("alloc_tree")
    E.contracts["maybe_collect"] = event("maybe_collect")
    E.contracts["track_new_alloc"] = event("track")
    st = G.state()
    size = E.L.size_align(('struct', 'struct.gc_obj'))[0]
    for p in G.paths(G.run(st, "alloc_tree", [])):
        z = [e for e in order(p, "zeroed") if p.val.off == 0 and e[1].eq(p.val.base)]
        p.require("new", len(z) == 1, "not new, zeroed memory")
        bn = [n for b, n in p.st.blocks if b.eq(p.val.base)]
        p.require("size", bool(bn) and E.S.valid(p.st.pc, z3.UGE(bn[0], size))[0], "the memory is too small for an object")
        t = order(p, "track")
        p.require("tracked", len(t) == 1 and t[0][1].off == 0 and t[0][1].base.eq(p.val.base), "the object isn't tracked once")
        p.require("frame", not order(p, "store", "pstore", "free", "gstore"))
    return G


alloc.group = "alloc_tree"


def parsing(S):
    """semantic values that only the parser's stacks refer to aren't roots, so
    there are no collections while the parser runs"""
    G = Group(S, "parsing")
    n = 0
    for m in S.mods:
        for fn in m.functions.values():
            calls = [(b, k) for b, ins in fn.blocks.all().items() for k, i in enumerate(ins)
                     if i.op == "call" and i.a[0][0] == "glob" and re.match(r"(cscript|repl|yy)parse$", i.a[0][1])]
            if not calls:
                continue
            # the least number of inhibitions on any way to an instruction
            depth = {fn.entry: 0}
            work = [fn.entry]
            at = {}
            while work:
                b = work.pop()
                d = depth[b]
                for k, i in enumerate(fn.blocks[b]):
                    at[(b, k)] = d
                    if i.op == "call" and i.a[0][0] == "glob":
                        d += {"inhibit_gc": 1, "enable_gc": -1}.get(i.a[0][1], 0)
                for x in successors(fn.blocks[b][-1]):
                    if x not in depth or d < depth[x] and d > -5:
                        depth[x] = d
                        work.append(x)
            for c in calls:
                n += 1
                o = G.obl("%s calls %s" % (fn.name, fn.blocks[c[0]][c[1]].a[0][1]))
                o.paths += 1
                if at.get(c, 1) < 1:
                    o.failed.append(("", "the parser is run while collections can happen", None))
    o = G.obl("found")
    o.paths += 1
    if n < 2:
        o.failed.append(("", "%d calls of the parsers" % n, None))
    G.npaths = G.reached = n
    return G


parsing.group = "parsing"


def successors(i):
    if i.op == "br":
        return [i.a[0]] if len(i.a) == 1 else [i.a[1], i.a[2]]
    if i.op == "switch":
        return [i.a[2]] + [l for c, l in i.a[3]]
    return []


def mark_chunk(k, n=6):
    def rule(S):
        return mark_object(S.meta.names[k::n])(S)
    rule.group = "mark_object/%d" % k
    return rule


MARK = [mark_tree, mark_stack, mark_static, globals_registered, parsing, collect, dealloc, sweep, is_object] + [mark_chunk(k) for k in range(6)]
TABLE = [sweep, fixup, is_object, track, alloc]
