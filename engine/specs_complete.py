"""C23: what completion offers."""
import z3
from sym import *
from spec import *
from ir import Unsupported
import contracts
from specs_main import noted, is_a
from specs_scope import order, valid
from specs_cpp import text
from specs_print import same, on_stack

BEGINS = uf("BEGINS", z3.IntSort(), z3.IntSort(), z3.BoolSort())      # the first string begins with the second


def strings(E):
    """the contracts of the C library's string functions; strings are told apart by their contents' number"""
    def c_strlen(E, st, a):
        if text(E, a[0]) is not None and "\0" not in text(E, a[0]):
            return z3.BitVecVal(len(text(E, a[0])), 64)
        n = uf("strlen", BV64, BV64)(a[0].term())
        st.pc.append(z3.ULT(n, 1 << 40))
        st.events.append(("strlen", a[0], n))
        return n
    def c_strncmp(E, st, a):
        # (only comparisons of a whole second or first string)
        r = E.fresh("strncmp", z3.BitVecSort(32))
        n = tobv(a[2], 64)
        x, y = contracts.str_of(E, st, a[0]), contracts.str_of(E, st, a[1])
        ln = lambda q: uf("strlen", BV64, BV64)(q.term())
        st.pc.append(z3.Implies(n == ln(a[1]), (r == 0) == BEGINS(x, y)))
        st.pc.append(z3.Implies(z3.And(n == ln(a[0]), n != ln(a[1])), (r == 0) == BEGINS(y, x)))
        return r
    def c_strstr(E, st, a):
        r = Ptr(E.fresh("strstr"))
        st.events.append(("strstr", a[0], text(E, a[1]), r))
        return r
    def c_strdup(E, st, a):
        p = contracts.c_strdup(E, st, a)
        return p
    def c_concat(E, st, a):
        p = contracts.new_block(E, st, E.fresh("length"), "malloc")
        st.events.append(("concat", p, a[0], a[1]))
        return p
    E.contracts["strlen"] = c_strlen
    E.contracts["strncmp"] = c_strncmp
    E.contracts["strstr"] = c_strstr
    E.contracts["concat_strings"] = c_concat


def entry(G):
    def on_elem(E, st, hd, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        E.assume_tags(st, el, G.M.tagset("E_MAP"))
        E.assume_tags(st, E.get(st, el, "tEMAP_LEFT"), G.M.tagset("T_IDENTIFIER"))
    return on_elem


def element(p):
    lp = order(p, "loop")
    return Ptr(lp[-1][6][3])


def matching(S):
    """of a map's names, those that begin with the prefix are offered, and nothing else is touched"""
    G = Group(S, "match_identifiers_for_idmap")
    E = G.E
    strings(E)
    E.on_elem = entry(G)
    st = G.state()
    c, m = G.node(st, "matches", "CHAIN_HEAD"), G.node(st, "map", "CHAIN_HEAD")
    pre = Ptr(z3.BitVec("prefix", 64))
    st.kind[pre.base.get_id()] = ("sym", 0, pre.base)
    kinds = set()
    for p in G.paths(G.run(st, "match_identifiers_for_idmap", [c, m, pre]), "total", ok=("ret", "back")):
        G.frame(p, appends=lambda p, new, head: valid(p, head == c.base))
        lp = order(p, "loop")
        if not p.require("names", len(lp) == 1 and lp[0][6] and lp[0][6][1].eq(m.base), "not the map's names are gone through"):
            continue
        kinds.add(p.out.kind)
        new = order(p, "append")
        if p.out.kind == "ret":
            p.require("end", not new, "something else is offered")
            continue
        el = element(p)
        hd = E.ring_of(order(p, "back")[-1][2][lp[0][6][2]])
        p.require("next", hd is not None and hd.base.eq(el.base), "names are skipped")
        name = p.get(p.get(el, "tEMAP_LEFT"), "tID_STR")
        b = BEGINS(contracts.str_of(E, p.st, name), contracts.str_of(E, p.st, pre))
        if not new:
            p.require("left-out", z3.Not(b), "a name isn't offered")
            continue
        p.require("offered", b, "a name that doesn't begin like this is offered")
        x = Ptr(new[0][1])
        p.require("name", len(new) == 1 and valid(p, new[0][2] == c.base) and p.fresh(x) and is_a(p, x, "T_IDENTIFIER") and
                  valid(p, contracts.str_of(E, p.st, p.get(x, "tID_STR")) == contracts.str_of(E, p.st, name)), "not an identifier of its own")
    G.paths_ok("all", [], kinds == {"ret", "back"}, "not all of the names")
    return G


matching.group = "match_identifiers_for_idmap"


def everywhere(S):
    """the names of the current scope, those around it, and those of the headers are offered; those of a function's callers aren't"""
    G = Group(S, "find_global_identifiers")
    E = G.E
    E.contracts["match_identifiers_for_idmap"] = noted("match")
    for headers in (True, False):
        n = "headers" if headers else "none"
        st = G.state()
        cur, top = st.ghost["ctx0"], G.node(st, "top", "E_CTX")
        inc = G.node(st, "inc", "E_CTX") if headers else NULL
        for x, y in (("toplevel_ctx", top), ("include_ctx", inc)):
            st.glob[(x, 0)] = y
        pre = Ptr(z3.BitVec("prefix", 64))
        def on_loop(E, st, key, entry, phis):
            for v in phis.values():
                if isinstance(v, Ptr):
                    st.kind[v.base.get_id()] = ("sym", 0, v.base)
                    E.assume_tags(st, v, G.M.tagset("E_CTX"))
        E.on_loop = on_loop
        for p in G.paths(G.run(st, "find_global_identifiers", [pre]), "total/" + n, ok=("ret", "back")):
            G.frame(p, name="frame/" + n)
            lp, ms = order(p, "loop"), order(p, "match")
            if not p.require("scopes/" + n, len(lp) == 1 and len([v for v in lp[0][3].values() if isinstance(v, Ptr)]) == 1, "not the scopes are gone through"):
                continue
            r = [r for r, v in lp[0][3].items() if isinstance(v, Ptr)][0]
            ctx = lp[0][3][r]
            p.require("first/" + n, p.ptr_eq(lp[0][2][r], cur), "not from the current scope on")
            ok = len({z3.simplify(e[1][0].term()).get_id() for e in ms}) <= 1 and all(valid(p, e[1][2].term() == pre.term()) for e in ms)
            if p.out.kind == "back":
                p.require("names/" + n, ok and len(ms) == 1 and valid(p, p.ptr_eq(ms[0][1][1], p.get(ctx, "tECTX_ID_MAP"))) and p.fresh(ms[0][1][0]), "not the scope's names")
                b = order(p, "back")[-1][2][r]
                fl = tobv(p.get(ctx, "tECTX_IS_FN_CALL"), 8)
                p.require("outward/" + n, z3.If(fl != 0, tobool(p.ptr_eq(b, top)), tobool(p.ptr_eq(b, p.get(ctx, "tECTX_PARENT_CTX")))), "not the enclosing scope is next")
                continue
            p.require("all/" + n, ctx.term() == 0, "scopes are left out")
            if headers:
                p.require("headers", ok and len(ms) == 1 and valid(p, p.ptr_eq(ms[0][1][1], p.get(inc, "tECTX_ID_MAP"))), "not the headers' names")
            else:
                p.require("no-headers", not ms, "names of no scope")
            p.require("result/" + n, p.fresh(p.val) and is_a(p, p.val, "CHAIN_HEAD") and all(same(e[1][0], p.val) for e in ms) and not order(p, "append"), "not the names that were found")
    return G


everywhere.group = "find_global_identifiers"
OFFERS = [matching, everywhere]


def array(S):
    """no matches are no array; one match is the array of its name; several are the array of the text and their names, in order"""
    G = Group(S, "create_matches_array")
    E = G.E
    strings(E)
    def on_elem(E, st, hd, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        E.assume_tags(st, el, G.M.tagset("T_IDENTIFIER"))
    E.on_elem = on_elem
    def on_loop(E, st, key, entry, phis):
        # (fewer matches than an int counts)
        st.pc.extend(z3.ULT(v, 1 << (40 if v.size() == 64 else 30)) for v in phis.values() if z3.is_bv(v) and v.size() in (32, 64))
    E.on_loop = on_loop
    st = G.state()
    t = Ptr(z3.BitVec("text", 64))
    st.kind[t.base.get_id()] = ("sym", 0, t.base)
    c = G.node(st, "matches", "CHAIN_HEAD")
    for p in G.paths(G.run(st, "create_matches_array", [t, c]), "total", ok=("ret", "back")):
        untouched(p)
        array_path(p, t, c)
    return G


def addends(t):
    return [x for c in t.children() for x in addends(c)] if z3.is_app_of(t, z3.Z3_OP_BADD) else [t]


def untouched(p, name="frame", made=()):
    """nothing is written but memory that was allocated here, and lists that were made here"""
    E, st = p.E, p.st
    own = [e[1] for e in st.events if e[0] in ("malloc", "strdup")] + list(made)
    bad = []
    for e in st.events:
        if e[0] == "pstore" and not any(o.eq(x) for o in own for x in addends(e[1])):
            bad.append("writes memory")
        elif e[0] == "append" and not E.is_fresh(st, e[2]):
            bad.append("changes a chain")
        elif e[0] in ("store", "gstore", "retag", "unlink", "treecopy"):
            bad.append("changes the program (%s)" % e[0])
    p.require(name, not bad, "; ".join(bad[:3]) or "ok")


def stores(p, i, j=None):
    """the pointers that are stored between two events: (address, value)"""
    return [(e[1], e[3]) for e in p.st.events[i:j] if e[0] == "pstore"]


def array_path(p, t, c):
    E, st = p.E, p.st
    at = [i for i, e in enumerate(st.events) if e[0] == "loop"]
    lp = [st.events[i] for i in at]
    if not p.require("elements", 1 <= len(lp) <= 2 and all(e[6] and e[6][1].eq(c.base) for e in lp), "not all matches are gone through"):
        return
    if p.out.kind == "back":
        b = order(p, "back")[-1][2]
        el = element(p)
        hd = E.ring_of(b[lp[-1][6][2]])
        p.require("next", hd is not None and hd.base.eq(el.base), "matches are skipped")
    cnt = [r for r, v in loop_ints(lp[0]) if z3.is_bv(v)]
    if not p.require("counted", len(cnt) == 1 and valid(p, tobv(lp[0][2][cnt[0]], 64) == 0), "the matches aren't counted"):
        return
    w64 = lambda r, v, l: widened(v, l[3][r])
    n = w64(cnt[0], lp[0][3][cnt[0]], lp[0])
    if len(lp) == 1 and p.out.kind == "back":
        p.require("counted", z3.And(w64(cnt[0], b[cnt[0]], lp[0]) == n + 1, z3.BoolVal(not order(p, "pstore"))), "the matches aren't counted")
        return
    if len(lp) == 1:
        p.require("none", z3.And(n == 0, p.val.term() == 0), "matches are lost")
        return
    m = [e for e in st.events[:at[1]] if e[0] == "malloc" and isinstance(e[2], int) or e[0] == "malloc" and "strlen" not in str(e[2])]
    if not p.require("array", len(m) == 1, "not one array"):
        return
    r, size = m[0][1], tobv(m[0][2], 64)
    zeroed = any(e[0] == "zeroed" and e[1].eq(r) for e in st.events[:at[1]])
    text_of = lambda v: [e[2] for e in st.events if e[0] == "strdup" and e[1].eq(v)]
    copy = lambda v, s: len(text_of(v)) == 1 and valid(p, text_of(v)[0].term() == s.term())
    idx = [x for x, v in loop_ints(lp[1]) if z3.is_bv(v)]
    first = stores(p, 0, at[1])
    here = stores(p, at[1])
    if not idx:
        p.require("one", z3.And(n == 1, z3.UGE(size, 16), z3.BoolVal(not first)), "several matches, but one is offered")
        slot, end = r, r + 8
    else:
        i = w64(idx[0], lp[1][3][idx[0]], lp[1]) - w64(idx[0], lp[1][2][idx[0]], lp[1])
        p.require("several", z3.And(z3.UGE(n, 2), z3.UGE(size, 8 * (n + 2))), "one match, or no room for all")
        p.require("text", len(first) == 1 and valid(p, first[0][0] == r) and copy(first[0][1], t), "the text itself isn't first")
        slot = end = r + 8 * (i + 1)
    if p.out.kind == "back":
        p.require("name", len(here) == 1 and valid(p, here[0][0] == slot) and copy(here[0][1], p.get(el, "tID_STR")), "not the match's name in its place")
        if idx:
            p.require("place", w64(idx[0], b[idx[0]], lp[1]) == w64(idx[0], lp[1][3][idx[0]], lp[1]) + 1, "places are skipped")
        return
    p.require("end", z3.And(p.val.term() == r, z3.BoolVal(zeroed and not here or len(here) == 1 and valid(p, z3.And(here[0][0] == end, here[0][1] == 0)))), "the array has no end")


array.group = "create_matches_array"
OFFERS.append(array)


# ---- members ------------------------------------------------------------------------------------------
def access(st, E, n="access"):
    """a split access, on the stack"""
    p = Ptr(z3.BitVec(n, 64))
    st.kind[p.base.get_id()] = ("sym", 0, p.base)
    v = {}
    for f, off in (("obj", 0), ("op", 8), ("prefix", 16)):
        v[f] = Ptr(z3.BitVec(n + "_" + f, 64))
        st.kind[v[f].base.get_id()] = ("sym", 0, v[f].base)
        st.pc.append(E.mem_load(st.mem, Ptr(p.base, off).term(), 8) == v[f].term())
    v["deref"] = E.mem_load(st.mem, Ptr(p.base, 24).term(), 4)
    return p, v


def appended(E, st, a):
    """matches have been appended"""
    h, oc = a[0].base, E.M.off_chain
    n = st.ghost.get("ringepoch", 0) + 1
    st.ghost["ringepoch"] = n
    st.ghost[("tree", h.get_id())] = True
    st.log.append((None, lambda E, st, b, o: o in (oc, oc + 8), "r%d" % n))
    return 0


def members(S):
    """of the object's members, those that begin with what was typed are offered, each with what leads to it"""
    G = Group(S, "do_compound_completion")
    E = G.E
    strings(E)
    E.contracts["match_identifiers_for_idmap"] = noted("match", appended)
    def c_array(E, st, a):
        r = Ptr(E.fresh("array"))
        st.events.append(("array", list(a), r))
        return r
    E.contracts["create_matches_array"] = c_array
    def on_elem(E, st, hd, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        E.assume_tags(st, el, G.M.tagset("T_IDENTIFIER"))
    E.on_elem = on_elem
    st = G.state()
    a, v = access(st, E)
    t = Ptr(z3.BitVec("text", 64))
    obj = G.node(st, "object", "T_LIVE_COMPOUND")
    kinds = set()
    for p in G.paths(G.run(st, "do_compound_completion", [a, t, obj]), "total", ok=("ret", "back")):
        untouched(p)
        kinds.add(p.out.kind)
        ms, lp, cc = order(p, "match"), order(p, "loop"), order(p, "concat")
        if not p.require("matches", len(ms) == 1 and p.fresh(ms[0][1][0]) and is_a(p, ms[0][1][0], "CHAIN_HEAD") and len(lp) == 1 and bool(lp[0][6]), "the members aren't looked through once"):
            continue
        found = ms[0][1][0]
        p.require("members", valid(p, p.ptr_eq(ms[0][1][1], p.get(obj, "tLV_COMP_MEMBERS"))) and valid(p, ms[0][1][2].term() == v["prefix"].term()), "not the object's members")
        p.require("found", lp[0][6][1].eq(found.base), "not what was found is offered")
        pre = cc and len(cc) >= 1 and valid(p, z3.And(cc[0][2].term() == v["obj"].term(), cc[0][3].term() == v["op"].term()))
        if not p.require("leading", bool(pre), "not what leads to the member"):
            continue
        ap = [e for e in order(p, "append")]
        if p.out.kind == "back":
            el = element(p)
            hd = E.ring_of(order(p, "back")[-1][2][lp[0][6][2]])
            p.require("next", hd is not None and hd.base.eq(el.base), "members are skipped")
            ok = len(cc) == 2 and same(cc[1][2], cc[0][1]) and valid(p, cc[1][3].term() == p.get(el, "tID_STR").term())
            x = Ptr(ap[0][1]) if len(ap) == 1 else None
            p.require("member", bool(ok and x is not None and ap[0][3] == "tail" and p.fresh(x) and is_a(p, x, "T_IDENTIFIER") and
                      valid(p, contracts.str_of(E, p.st, p.get(x, "tID_STR")) == contracts.str_of(E, p.st, cc[1][1]))), "not the member after what leads to it")
            continue
        ar = order(p, "array")
        p.require("array", len(ar) == 1 and same(p.val, ar[0][2]) and valid(p, ar[0][1][0].term() == t.term()) and is_a(p, ar[0][1][1], "CHAIN_HEAD") and p.fresh(ar[0][1][1])
                  and not same(ar[0][1][1], found), "not the members are the result")
    G.paths_ok("all", [], kinds == {"ret", "back"}, "not all of the members")
    return G


members.group = "do_compound_completion"


def identifiers(S):
    """a word that is no access is completed by the names that begin with it"""
    G = Group(S, "do_identifier_completion")
    E = G.E
    found = Ptr(z3.BitVec("found", 64))
    E.contracts["find_global_identifiers"] = noted("find", lambda E, st, a: found)
    r = Ptr(z3.BitVec("array", 64))
    E.contracts["create_matches_array"] = noted("array", lambda E, st, a: r)
    st = G.state()
    t = Ptr(z3.BitVec("text", 64))
    for p in G.paths(G.run(st, "do_identifier_completion", [t])):
        untouched(p)
        f, a = order(p, "find"), order(p, "array")
        p.require("names", len(f) == 1 and len(a) == 1 and same(f[0][1][0], t) and same(a[0][1][0], t) and same(a[0][1][1], found) and same(p.val, r), "not the names that begin with the word")
    return G


identifiers.group = "do_identifier_completion"
MEMBERS = [members, identifiers]


def evaluated(S):
    """the object is what the expression (or what it points to) evaluates to; no collection while parsing"""
    G = Group(S, "get_compound_completion_object")
    E = G.E
    strings(E)
    E.contracts["repl_scan_string"] = noted("scan", lambda E, st, a: Ptr(z3.BitVec("buffer", 64)))
    E.contracts["repl_delete_buffer"] = noted("delete")
    E.contracts["inhibit_gc"] = noted("inhibit")
    E.contracts["enable_gc"] = noted("enable")
    failed = z3.BitVec("failed", 32)
    for deref in (False, True):
        for kind in ("none", "some"):
            n = "/%s/%s" % ("->" if deref else ".", kind)
            st = G.state()
            a, v = access(st, E)
            st.pc.append((v["deref"] != 0) == deref)
            head = G.node(st, "statements", "CHAIN_HEAD") if kind == "some" else NULL
            def c_parse(E, st, a):
                st.events.append(("parse",))
                st.glob[("repl_parse_head", 0)] = head
                return failed
            E.contracts["replparse"] = c_parse
            def on_elem(E, st, hd, el):
                st.kind[el.base.get_id()] = ("sym", 0, el.base)
            E.on_elem = on_elem
            val = Ptr(z3.BitVec("value", 64))
            E.contracts["evaluate_expr"] = noted("evaluate", lambda E, st, a: val)
            for p in G.paths(G.run(st, "get_compound_completion_object", [a]), "total" + n):
                untouched_but(p, ("repl_parse_head",), "frame" + n)
                sc = order(p, "scan")
                if not p.require("scanned" + n, len(sc) == 1, "not one text is scanned"):
                    continue
                t = composed(p, sc[0][1][0], v["obj"])
                p.require("text" + n, t == (["*(", 0, ");"] if deref else [0, ";"]), "not the object's expression: %s" % t)
                flow = [e[0] for e in p.st.events if e[0] in ("scan", "inhibit", "parse", "enable", "delete", "evaluate")]
                p.require("inhibited" + n, [x for x in flow if x in ("inhibit", "parse", "enable", "evaluate")][:3] == ["inhibit", "parse", "enable"] and flow.index("scan") < flow.index("parse") < flow.index("delete"),
                          "parsed with collections, or not the text")
                ev = order(p, "evaluate")
                if not ev:
                    p.require("nothing" + n, z3.And(p.val.term() == 0, z3.Or(failed != 0, p.E.tree_load(p.st, head.base, p.E.M.off_chain, 8, "ptr").term() == Ptr(head.base, p.E.M.off_chain).term()) if kind == "some" else z3.BoolVal(True)), "the object isn't evaluated")
                    continue
                lp = order(p, "elem")
                p.require("value" + n, z3.And(failed == 0, p.val.term() == val.term(), z3.BoolVal(len(ev) == 1 and kind == "some")), "not the value of what was parsed")
                p.require("first" + n, first_of(p, ev[0][1][0], head), "not the first statement")
    return G


def untouched_but(p, globals_, name):
    evs = p.st.events
    p.st.events = [e for e in evs if not (e[0] == "gstore" and e[1] in globals_)]
    untouched(p, name)
    p.st.events = evs


def composed(p, s, obj):
    """the pieces that a string was put together from; 0 is the object's expression"""
    out = []
    for x in pieces(p, s, obj):
        if x == "":
            continue
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def pieces(p, s, obj):
    if valid(p, s.term() == obj.term()):
        return [0]
    t = text(p.E, s)
    if t is not None:
        return [t]
    if not isinstance(s, Ptr):
        return ["?"]
    for e in p.st.events:
        if e[0] == "concat" and same(e[1], s):
            return pieces(p, e[2], obj) + pieces(p, e[3], obj)
        if e[0] == "strdup" and e[1].eq(s.base):
            return pieces(p, e[2], obj)
    return ["?"]


def first_of(p, x, head):
    h = p.E.ring_of(x) if isinstance(x, Ptr) else None
    return h is not None and h.base.eq(head.base)


evaluated.group = "get_compound_completion_object"
MEMBERS.append(evaluated)


# ---- where an access is split -----------------------------------------------------------------------
SUB = uf("ARROW_FROM", BV64, z3.BoolSort())       # there is an -> in the text, from this place on


def looking(G, st):
    """the text; the contract of looking for an arrow in it; what a loop over its characters from the last one knows"""
    E = G.E
    strings(E)
    t = Ptr(z3.BitVec("text", 64))
    st.kind[t.base.get_id()] = ("sym", 0, t.base)
    ln = uf("strlen", BV64, BV64)(t.term())
    char = lambda mem, i: E.mem_load(mem, t.term() + i, 1)
    dot = lambda mem, i: char(mem, i) == ord(".")
    arrow = lambda mem, i: z3.And(char(mem, i) == ord("-"), char(mem, i + 1) == ord(">"))
    def ended(st):
        st.pc.extend([z3.ULT(ln, 1 << 40), char(st.mem, ln) == 0, z3.Not(SUB(ln)), z3.Not(SUB(ln + 1)), z3.Not(SUB(ln + 2))])
    def c_strstr(E, st, a):
        r = Ptr(E.fresh("strstr"))
        if text(E, a[1]) != "->":
            raise Unsupported("another string is looked for")
        k = z3.simplify(a[0].term() - t.term())
        ended(st)
        st.pc.extend([(r.term() != 0) == SUB(k), z3.Implies(z3.ULE(k, ln), SUB(k) == z3.Or(arrow(st.mem, k), SUB(k + 1)))])
        return r
    E.contracts["strstr"] = c_strstr
    def on_loop(E, st, key, entry, phis):
        i = index(phis)
        ended(st)
        if i is not None:
            st.pc.extend([z3.ULE(i, ln), z3.Not(SUB(i + 1))])
        # (nothing is written from one character to the next)
        st.mem = [e for e in st.events if e[0] == "loop"][-1][4]
    E.on_loop = on_loop
    return t, ln, dot, arrow, ended


def index(phis):
    v = [x for x in phis.values() if z3.is_bv(x) and x.size() == 64 and not isinstance(x, Ptr)]
    return v[0] if len(v) == 1 else None


def is_access(S):
    """a word is a member's access if there is a . or an -> after its first character"""
    G = Group(S, "is_compound_access")
    E = G.E
    st = G.state()
    t, ln, dot, arrow, ended = looking(G, st)
    ended(st)
    seen = set()
    for p in G.paths(G.run(st, "is_compound_access", [t]), "total", ok=("ret", "back")):
        untouched(p)
        lp = order(p, "loop")
        v = tobv(p.val, 32) if p.out.kind == "ret" else None
        if not lp:
            seen.add("short")
            p.require("short", z3.And(z3.ULT(ln, 2), v == 0), "the text isn't gone through")
            continue
        i = index(lp[0][3])
        if not p.require("characters", len(lp) == 1 and i is not None, "not the characters are gone through"):
            continue
        e = entry_index(lp[0])
        p.require("last", z3.And(z3.UGE(e + 1, ln), z3.ULE(e, ln)), "the last characters aren't looked at")
        op = z3.And(i != 0, z3.Or(dot(p.st.mem, i), arrow(p.st.mem, i)))
        if p.out.kind == "back":
            b = index(order(p, "back")[-1][2])
            seen.add("back")
            p.require("next", z3.And(z3.Not(op), b == i - 1, quiet(p)), "a character is skipped, or an operator")
        else:
            seen.add("ret")
            p.require("result", (v != 0) == op, "not whether there is an access")
            p.require("all", z3.Or(op, i == 0), "characters are left out")
    G.paths_ok("covered", [], {"back", "ret"} <= seen, "the text isn't gone through")
    return G


def quiet(p):
    evs = p.st.events
    at = [i for i, e in enumerate(evs) if e[0] == "loop"][-1]
    return z3.BoolVal(not any(e[0] == "pstore" for e in evs[at:]))


def entry_index(lp):
    r = [r for r, x in lp[3].items() if z3.is_bv(x) and x.size() == 64 and not isinstance(x, Ptr)][0]
    return tobv(lp[2][r], 64)


is_access.group = "is_compound_access"


def written(p, a, off, own, ln):
    """what is stored `off' bytes into the structure at `a', if everything else that is stored is stored in the
    path's own strings (which lie apart from it)"""
    r = None
    for e in p.st.events:
        if e[0] != "pstore":
            continue
        k = z3.simplify(e[1] - a)
        if z3.is_bv_value(k):
            if k.as_long() == off:
                r = e[3]
            elif abs(k.as_signed_long() - off) < 8:
                raise Unsupported("an overlapping store")
            continue
        o = [y for y in own if any(y.eq(x) for x in addends(e[1]))]
        if len(o) != 1 or not valid(p, z3.ULE(e[1] - o[0], ln)):
            raise Unsupported("a store that isn't to a string or the structure")
    if r is None:
        return z3.BitVec("unknown", 64)
    return r.term() if isinstance(r, Ptr) else r if z3.is_bv(r) else z3.BitVecVal(r, 64)


def split(S):
    """an access is split at its last operator: what is before it, it, and what is after it; -> means that what is before it points to the object"""
    G = Group(S, "split_compound_access_text")
    E = G.E
    st = G.state()
    t, ln, dot, arrow, ended = looking(G, st)
    ended(st)
    a = Ptr(z3.BitVec("access", 64))
    st.kind[a.base.get_id()] = ("sym", 0, a.base)
    def c_strdup(E, st, x):
        # a new string of a text's length lies apart from the access
        p = contracts.c_strdup(E, st, x)
        if text(E, x[0]) is None:
            st.pc.extend([z3.ULT(a.base, 1 << 47), z3.ULT(p.base, 1 << 47), z3.Or(z3.ULE(p.base + ln + 1, a.base), z3.ULE(a.base + 32, p.base))])
        return p
    E.contracts["strdup"] = c_strdup
    seen = set()
    for p in G.paths(G.run(st, "split_compound_access_text", [t, a]), "total", ok=("ret", "back")):
        st = p.st
        lp = order(p, "loop")
        if not p.require("characters", len(lp) == 1 and index(lp[0][3]) is not None, "not the characters are gone through"):
            continue
        i, e, m = index(lp[0][3]), entry_index(lp[0]), lp[0][4]
        own = [x[1] for x in st.events if x[0] == "strdup"]
        p.require("frame", all(x[0] != "pstore" or any(o.eq(y) for o in own for y in addends(x[1])) or valid(p, z3.ULE(x[1] - a.base, 32 - x[2])) for x in st.events) and
                  not any(x[0] in ("store", "gstore", "append", "free", "retag", "unlink") for x in st.events), "something else is changed")
        p.require("last", z3.And(z3.UGE(e + 1, ln), z3.ULE(e, ln)), "the last characters aren't looked at")
        d, r = z3.And(i != 0, dot(m, i)), z3.And(i != 0, arrow(m, i))
        seen.add(p.out.kind)
        if p.out.kind == "back":
            p.require("next", z3.And(z3.Not(d), z3.Not(r), index(order(p, "back")[-1][2]) == i - 1, quiet(p)), "a character is skipped, or an operator")
            continue
        v = tobv(p.val, 32)
        p.require("result", (v != 0) == z3.Or(d, r), "not whether the text is an access")
        if valid(p, v == 0):
            seen.add("none")
            p.require("none", i == 0, "characters are left out")
            continue
        f = lambda off: written(p, a.base, off, own, ln)
        copies = lambda x: [c[2] for c in st.events if c[0] == "strdup" and valid(p, x == c[1])]
        obj, op, pre = copies(f(0)), copies(f(8)), copies(f(16))
        if not p.require("copies", len(obj) == len(op) == len(pre) == 1 and len({x.get_id() for x in own}) == 3, "not strings of its own"):
            continue
        cut = [x for x in order(p, "pstore") if x[2] == 1]
        p.require("object", len(cut) == 1 and valid(p, z3.And(obj[0].term() == t.term(), cut[0][1] == f(0) + i, tobv(cut[0][3], 8) == 0)), "not what is before the operator")
        w = text(E, op[0])
        p.require("operator", w in (".", "->") and valid(p, d if w == "." else r), "not the operator")
        p.require("prefix", pre[0].term() == t.term() + i + len(w or ""), "not what is after the operator")
        p.require("points", (tobv(f(24), 32) != 0) == z3.BoolVal(w == "->"), "not the object, or not what it points to")
        seen.add(w)
    G.paths_ok("covered", [], {"back", ".", "->", "none"} <= seen, "not both operators: %s" % seen)
    return G


split.group = "split_compound_access_text"
SPLITS = [is_access, split]


# ---- who evaluates, and what is said ------------------------------------------------------------------
I32 = z3.BitVecSort(32)


def completion(S):
    """members are looked for in a process of its own, which sends what it finds and ends; nothing is evaluated in the one that goes on"""
    G = Group(S, "bic_completion")
    E = G.E
    strings(E)
    t = Ptr(z3.BitVec("text", 64))
    acc, ok, child, piped = (z3.BitVec(n, 32) for n in ("is_access", "split_ok", "child", "piped"))
    fds = [z3.BitVec("fd%d" % i, 32) for i in (0, 1)]
    part = [Ptr(z3.BitVec(n, 64)) for n in ("part_obj", "part_op", "part_prefix")]
    obj = Ptr(z3.BitVec("object", 64))
    E.contracts["is_compound_access"] = noted("asked", lambda E, st, a: acc)
    def c_split(E, st, a):
        for i, x in enumerate(part):
            E.store(st, Ptr(a[1].base, a[1].off + 8 * i), x, ("ptr",))
        E.store(st, Ptr(a[1].base, a[1].off + 24), E.fresh("deref", I32), ("int", 32))
        st.events.append(("split", list(a)))
        return ok
    E.contracts["split_compound_access_text"] = c_split
    def c_pipe(E, st, a):
        for i, x in enumerate(fds):
            E.store(st, Ptr(a[0].base, a[0].off + 4 * i), x, ("int", 32))
        st.events.append(("pipe",))
        return piped
    E.contracts["pipe"] = c_pipe
    E.contracts["fork"] = noted("fork", lambda E, st, a: child)
    for f in ("close", "perror", "send_matches", "free"):
        E.contracts[f] = noted(f, lambda E, st, a: E.fresh("r", I32))
    def given(kind, r):
        def h(E, st, a):
            # (the access is passed as it was split)
            x = a[0]
            st.events.append((kind, [E.load(st, Ptr(x.base, x.off + 8 * i), ("ptr",)) for i in range(3)] + list(a[1:]), r))
            return r
        return h
    E.contracts["get_compound_completion_object"] = given("object", obj)
    found, got, ids = (Ptr(z3.BitVec(n, 64)) for n in ("found", "got", "ids"))
    E.contracts["do_compound_completion"] = given("members", found)
    E.contracts["recieve_matches"] = noted("receive", lambda E, st, a: got)
    E.contracts["do_identifier_completion"] = noted("identifiers", lambda E, st, a: ids)
    def c_exit(E, st, a):
        st.events.append(("exit", a[0]))
        return Outcome("exit", st, a[0])
    E.contracts["exit"] = E.contracts["_exit"] = c_exit
    st = G.state()
    E.assume_tags(st, obj, set(G.M.tags.values()))
    a = [t, z3.BitVec("start", 32), z3.BitVec("end", 32)]
    kinds = set()
    for p in G.paths(G.run(st, "bic_completion", a), "total", ok=("ret", "exit")):
        flow = [e[0] for e in p.st.events]
        one = lambda k: order(p, k)[0] if len(order(p, k)) == 1 else None
        own = [e[1] for e in p.st.events if e[0] in ("store", "append", "retag", "unlink")]
        p.require("frame", not own and not any(e[0] in ("gstore", "pstore") for e in p.st.events), "something is changed")
        p.require("asked", len(order(p, "asked")) == 1 and same(one("asked")[1][0], t), "not asked whether it is an access")
        if valid(p, acc == 0):
            kinds.add("identifiers")
            f = one("identifiers")
            p.require("identifiers", p.out.kind == "ret" and f is not None and same(f[1][0], t) and same(p.val, ids) and "fork" not in flow, "not the names that begin with it")
            continue
        p.require("access", z3.And(acc != 0, z3.BoolVal("identifiers" not in flow)), "an access is completed as a name")
        sp = one("split")
        p.require("split", sp is not None and same(sp[1][0], t), "it isn't split")
        if "fork" not in flow:
            p.require("failed", z3.And(z3.BoolVal(p.out.kind == "ret"), z3.Or(ok == 0, piped == -1), p.val.term() == 0) if p.out.kind == "ret" else False, "nothing is looked for")
            p.require("apart", not {"object", "members"} & set(flow), "evaluated in the process that goes on")
            continue
        f = flow.index("fork")
        p.require("apart", not {"object", "members"} & set(flow[:f]) and flow.count("fork") == 1 and "pipe" in flow[:f], "evaluated in the process that goes on")
        if p.out.kind == "exit":
            kinds.add("child")
            p.require("child", z3.And(child == 0, tobv(p.val, 32) == 0), "it isn't the other process that ends")
            o, m, s = one("object"), one("members"), one("send_matches")
            p.require("object", o is not None and all(same(x, y) for x, y in zip(o[1], part)), "not the object of the access")
            struct = obj.term() != 0
            if m is not None:
                kinds.add("members")
                p.require("compound", z3.And(struct, z3.BoolVal(p.names(obj) == {"T_LIVE_COMPOUND"})), "members of no structure")
                p.require("members", all(same(x, y) for x, y in zip(m[1], part)) and same(m[1][3], t) and same(m[1][4], obj), "not the members of the object")
            else:
                p.require("none", z3.Or(obj.term() == 0, z3.BoolVal("T_LIVE_COMPOUND" not in p.names(obj))) if not valid(p, obj.term() == 0) else True, "a structure's members aren't offered")
            p.require("sent", s is not None and valid(p, tobv(s[1][1], 32) == fds[1]) and (same(s[1][0], found) if m else valid(p, s[1][0].term() == 0)) and
                      flow.index("send_matches") > flow.index("object"), "not what was found is sent")
            continue
        p.require("not-child", child != 0, "the other process goes on")
        p.require("evaluates", not {"object", "members", "send_matches"} & set(flow), "evaluated in the process that goes on")
        if "receive" not in flow:
            p.require("failed", z3.And(child == -1, p.val.term() == 0), "what was found isn't received")
            continue
        kinds.add("parent")
        r = one("receive")
        p.require("received", r is not None and valid(p, tobv(r[1][0], 32) == fds[0]) and same(p.val, got), "not what was found is the result")
        p.require("closed", {valid(p, tobv(e[1][0], 32) == fds[1]) for e in order(p, "close")} >= {True} and
                  flow.index("close") < flow.index("receive") and valid(p, tobv(order(p, "close")[0][1][0], 32) == fds[1]), "waits for itself")
        p.require("no-leak", any(valid(p, tobv(e[1][0], 32) == fds[0]) for e in order(p, "close")), "the pipe stays open")
        fr = order(p, "free")
        p.require("freed", all(any(same(e[1][0], x) for x in part) for e in fr) and len({str(e[1][0]) for e in fr}) == len(fr), "something else is freed")
    G.paths_ok("covered", [], kinds == {"identifiers", "child", "members", "parent"}, "not all are there: %s" % kinds)
    return G


completion.group = "bic_completion"
PROCESSES = [completion]


def counters(E, fn):
    """what counts in a loop: its variables, and those of the function that it changes and whose address is taken"""
    def values(st):
        out = {}
        for (b, off), v in st.stack.items():
            if (E.stack_names.get(b) or ("",))[0] == fn and off == 0 and (isinstance(v, int) or z3.is_bv(v) and v.size() == 64):
                out[E.stack_names[b]] = tobv(v, 64)
        return out
    def on_loop(E, st, key, entry, phis):
        lp = [e for e in st.events if e[0] == "loop"][-1]
        c = {}
        for r, v in phis.items():
            if z3.is_bv(v):
                c[r] = (widened(lp[2][r], v), widened(v, v))
                st.pc.append(z3.ULT(widened(v, v), 1 << 31))
        # (nothing but the function's own variables is written: see frame)
        st.mem = lp[4]
        for k, v in list(st.ghost.items()):
            if not (isinstance(k, tuple) and k[0] == "stack0") or k[1] in st.stack:
                continue
            b, off = k[1]
            if (E.stack_names.get(b) or ("",))[0] == fn and off == 0 and (isinstance(v, int) or z3.is_bv(v) and v.size() == 64):
                p = Ptr([x for i, x in ((x.get_id(), x) for x in stack_bases(st)) if i == b][0])
                now = tobv(E.load(st, p, ("int", 64)), 64)
                st.pc.append(z3.ULT(now, 1 << 31))
                c[E.stack_names[b]] = (tobv(v, 64), now)
        st.events.append(("counters", c))
    return on_loop, values


def stack_bases(st):
    return [k[2] for k in st.kind.values() if k[0] == "stack"]


def widened(v, like):
    n = like.size()
    v = tobv(v, n)
    return v if n == 64 else z3.SignExt(64 - n, v)


def sending(S):
    """the number of matches is sent, and each one's length and characters, in order"""
    G = Group(S, "send_matches")
    E = G.E
    strings(E)
    E.on_loop, now = counters(E, "send_matches")
    def c_write(E, st, a):
        n = z3.simplify(tobv(a[2], 64))
        v = None
        if z3.is_bv_value(n) and n.as_long() == 8 and isinstance(a[1], Ptr) and E.kindof(st, a[1].base)[0] == "stack":
            v = tobv(E.load(st, a[1], ("int", 64)), 64)
        st.events.append(("write", a[0], a[1], n, v))
        return E.fresh("written")
    E.contracts["write"] = c_write
    fd = z3.BitVec("fd", 32)
    kinds = set()
    for given in (False, True):
        n = "/some" if given else "/none"
        st = G.state()
        m = NULL
        if given:
            m = Ptr(z3.BitVec("matches", 64))
            st.kind[m.base.get_id()] = ("sym", 0, m.base)
            st.pc.extend([m.base != 0, z3.ULT(m.base, 1 << 47)])
        for p in G.paths(G.run(st, "send_matches", [m, fd]), "total" + n, ok=("ret", "back")):
            st = p.st
            p.require("frame" + n, not any(e[0] in ("gstore", "store", "pstore", "append", "free", "retag", "unlink") for e in st.events), "something is changed")
            at = lambda i: E.mem_load(st.mem, m.term() + 8 * i, 8)
            lp, cs = order(p, "loop"), order(p, "counters")
            ws = order(p, "write")
            p.require("where" + n, all(valid(p, tobv(w[1], 32) == fd) for w in ws), "sent elsewhere")
            if not given:
                p.require("none", p.out.kind == "ret" and len(ws) == 1 and ws[0][4] is not None and valid(p, ws[0][4] == 0), "not that there are none")
                continue
            if not p.require("gone-through", 1 <= len(lp) <= 2, "not all matches are gone through"):
                continue
            if len(lp) == 1:
                p.require("counted", p.out.kind == "back" and not ws and counts(p, cs[0][1], now, at), "the matches aren't counted")
                kinds.add("count")
                continue
            c = [x for x, (e, h) in cs[0][1].items() if valid(p, z3.And(e == 0, at(h) == 0))]
            p.require("number", bool(c) and ws and ws[0][4] is not None and any(valid(p, ws[0][4] == cs[0][1][x][1]) for x in c), "not the number of matches is sent")
            i = [x for x, (e, h) in cs[1][1].items() if valid(p, e == 0) and any(valid(p, a[1] == m.term() + 8 * h) for a in order(p, "pload"))]
            if not p.require("index", len(i) >= 1, "not from the first match on"):
                continue
            i = cs[1][1][i[0]][1]
            ln = uf("strlen", BV64, BV64)(at(i)) + 1
            if p.out.kind == "back":
                kinds.add("send")
                p.require("each", z3.And(at(i) != 0, z3.BoolVal(len(ws) == 3 and counts(p, cs[1][1], now, at))), "matches are skipped")
                p.require("length", len(ws) == 3 and ws[1][4] is not None and valid(p, ws[1][4] == ln), "not the match's length")
                p.require("match", len(ws) == 3 and valid(p, z3.And(ws[2][2].term() == at(i), ws[2][3] == ln)), "not the match itself")
                continue
            kinds.add("end")
            p.require("all", z3.And(at(i) == 0, z3.BoolVal(len(ws) == 1)), "matches are left out")
    G.paths_ok("covered", [], kinds == {"count", "send", "end"}, "not all are sent: %s" % kinds)
    return G


def counts(p, c, now, at):
    """one counter from zero on, at a match, goes up by one"""
    b = dict(order(p, "back")[-1][2])
    st = now(p.st)
    for x, (e, h) in c.items():
        v = widened(b[x], b[x]) if x in b and z3.is_bv(b[x]) else st.get(x)
        if v is not None and valid(p, z3.And(e == 0, v == h + 1, at(h) != 0)):
            return True
    return False


sending.group = "send_matches"
PROCESSES.append(sending)


def receiving(S):
    """as many matches as were announced are received, each of its announced length, in order; none if none were announced"""
    G = Group(S, "recieve_matches")
    E = G.E
    strings(E)
    def c_read(E, st, a):
        n = z3.simplify(tobv(a[2], 64))
        r, v = E.fresh("read"), None
        if z3.is_bv_value(n) and n.as_long() == 8 and isinstance(a[1], Ptr) and E.kindof(st, a[1].base)[0] == "stack":
            v = E.fresh("received")
            E.store(st, a[1], v, ("int", 64))
            st.pc.append(z3.ULT(v, 1 << 30))
        st.events.append(("read", a[0], a[1], n, v, r))
        return r
    E.contracts["read"] = c_read
    st = G.state()
    fd = z3.BitVec("fd", 32)
    def on_loop(E, st, key, entry, phis):
        N = [e for e in st.events if e[0] == "read"][0][4]
        for v in phis.values():
            if z3.is_bv(v):
                st.pc.append(z3.And(widened(v, v) >= 0, z3.ULE(widened(v, v), N)))
    E.on_loop = on_loop
    kinds = set()
    for p in G.paths(G.run(st, "recieve_matches", [fd]), "total", ok=("ret", "back")):
        st = p.st
        untouched(p)
        rd, ms, lp, ps = order(p, "read"), order(p, "malloc"), order(p, "loop"), order(p, "pstore")
        if not p.require("number", rd and rd[0][4] is not None and all(valid(p, tobv(x[1], 32) == fd) for x in rd), "the number isn't received"):
            continue
        N, got = rd[0][4], rd[0][5]
        if not lp:
            kinds.add("none")
            p.require("none", z3.And(z3.BoolVal(p.out.kind == "ret" and not ms and len(rd) == 1), p.val.term() == 0, z3.Or(got != 8, N == 0)), "matches are lost")
            continue
        p.require("some", z3.And(got == 8, N != 0), "matches that weren't sent")
        idx = [(r, v) for r, v in lp[0][3].items() if z3.is_bv(v)]
        if not p.require("array", len(lp) == 1 and len(idx) == 1 and bool(ms) and valid(p, z3.UGE(tobv(ms[0][2], 64), 8 * (N + 1))) and valid(p, widened(lp[0][2][idx[0][0]], idx[0][1]) == 0), "no room for all matches"):
            continue
        r, i = ms[0][1], widened(idx[0][1], idx[0][1])
        if p.out.kind == "back":
            kinds.add("each")
            nxt = order(p, "back")[-1][2][idx[0][0]]
            p.require("next", z3.And(widened(nxt, nxt) == i + 1, z3.ULT(i, N)), "matches are skipped")
            ok = len(rd) == 3 and rd[1][4] is not None and len(ms) == 2 and len(ps) == 1
            p.require("room", ok and valid(p, z3.UGE(tobv(ms[1][2], 64), rd[1][4])), "no room for the match")
            p.require("match", ok and valid(p, z3.And(rd[2][2].term() == ms[1][1], rd[2][3] == rd[1][4])), "not the match itself")
            p.require("place", ok and valid(p, z3.And(ps[0][1] == r + 8 * i, ps[0][3] == ms[1][1])), "not in its place")
            continue
        kinds.add("all")
        p.require("all", z3.And(z3.Not(z3.ULT(i, N)), p.val.term() == r, z3.BoolVal(len(rd) == 1)), "not all matches are received")
        p.require("end", len(ps) == 1 and valid(p, z3.And(ps[0][1] == r + 8 * N, ps[0][3] == 0)), "the matches have no end")
    G.paths_ok("covered", [], kinds == {"none", "each", "all"}, "not all are received: %s" % kinds)
    return G


receiving.group = "recieve_matches"
PROCESSES.append(receiving)


def installed(S):
    """the line editor completes with this, word by word"""
    G = Group(S, "setup_readline")
    E = G.E
    st = G.state()
    for p in G.paths(G.run(st, "setup_readline", [])):
        f, w = p.st.glob.get(("rl_attempted_completion_function", 0)), p.st.glob.get(("rl_basic_word_break_characters", 0))
        p.require("completes", f is not None and E.glob_name(f.base) == "bic_completion", "the line editor isn't told")
        p.require("words", w is not None and text(E, w) == " ", "completes something else than words")
    return G


installed.group = "setup_readline"
PROCESSES.append(installed)
