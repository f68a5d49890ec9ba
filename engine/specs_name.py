"""C19: a typedef's name is a type from its declaration on.

A name is a type's if it is in one of typename.c's two lists; the parser adds
the names of typedef declarations, before it has read anything of what follows
(lemma over the automaton's states), and the lexer asks (specs_lex).
"""
import re, z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_scope import order, valid
from specs_main import noted, is_a, NEXT
from specs_call import literal
from specs_decl import before, has, chain_has
import specs_parse


def same_string(p, a, b):
    return contracts.str_of(p.E, p.st, a) == contracts.str_of(p.E, p.st, b)


def lists(G, st):
    names, inc = G.node(st, "names", "CHAIN_HEAD"), G.node(st, "included", "CHAIN_HEAD")
    st.pc.append(names.base != inc.base)
    st.glob[("type_names", 0)] = names
    st.glob[("include_type_names", 0)] = inc
    return names, inc


def others(G, st, d, *but):
    G.E.assume_tags(st, d, G.M.tagset(*[x for x in G.M.tags if x not in but]))


def add_name(S):
    """the name that a declarator declares is appended to the list of the kind of source that is parsed"""
    G = Group(S, "add_typename")
    E = G.E
    E.contracts["add_typename"] = noted("add")
    for tag in ("T_IDENTIFIER", "T_POINTER", "other"):
        for kind in ("file", "include"):
            st = G.state()
            names, inc = lists(G, st)
            st.glob[("in_include_file", 0)] = z3.BitVecVal(1, 32) if kind == "include" else z3.BitVecVal(0, 32)
            d = G.node(st, "declarator", tag) if tag != "other" else G.node(st, "declarator")
            if tag == "other":
                others(G, st, d, "T_IDENTIFIER", "T_POINTER")
            hd = inc if kind == "include" else names
            for p in G.paths(G.run(st, "add_typename", [d])):
                ap, ad = order(p, "append"), order(p, "add")
                G.frame(p, appends=lambda p, new, h: tag == "T_IDENTIFIER" and h.eq(hd.base))
                if tag == "T_IDENTIFIER":
                    ok = len(ap) == 1 and ap[0][2].eq(hd.base) and not ad and p.fresh(Ptr(ap[0][1])) and is_a(p, Ptr(ap[0][1]), "T_IDENTIFIER")
                    p.require("name/" + kind, same_string(p, p.get(Ptr(ap[0][1]), "tID_STR"), before(p, d, "tID_STR")) if ok else False, "not the name is added to the list")
                elif tag == "T_POINTER":
                    p.require("pointer", len(ad) == 1 and not ap and valid(p, tobool(p.ptr_eq(ad[0][1][0], before(p, d, "tPTR_EXP")))), "not what is pointed to")
                else:
                    p.require("other", not ap and not ad, "something else becomes a type's name")
    return G


add_name.group = "add_typename"


def find(S):
    """every name that a declaration declares is added, and no other"""
    G = Group(S, "find_ids_to_map_to_typenames")
    g, G.E = specs_parse.engine(S, "cscript")
    E = G.E
    E.contracts["find_ids_to_map_to_typenames"] = noted("find")
    E.contracts["add_typename"] = noted("add")
    part = {"T_POINTER": "tPTR_EXP", "T_FN": "tFN_DECL", "T_ARRAY": "tARRAY_DECL"}
    for tag in list(part) + ["T_IDENTIFIER", "T_DECL", "other"]:
        st = G.state()
        d = G.node(st, "declarator", tag) if tag != "other" else G.node(st, "declarator")
        if tag == "other":
            others(G, st, d, "T_IDENTIFIER", "T_DECL", *part)
        kinds = set()
        for p in G.paths(G.run(st, "find_ids_to_map_to_typenames", [d]), ok=("ret", "back")):
            kinds.add(p.out.kind)
            ad, fi, lp = order(p, "add"), order(p, "find"), order(p, "loop")
            G.frame(p)
            if tag == "T_IDENTIFIER":
                p.require("name", len(ad) == 1 and not fi and valid(p, tobool(p.ptr_eq(ad[0][1][0], d))), "the name isn't added")
            elif tag in part:
                x = before(p, d, part[tag])
                e = ad + fi      # (add_typename goes through pointers, too)
                p.require("part/" + tag, len(e) == 1 and not lp and (e[0][0] == "find") and valid(p, tobool(p.ptr_eq(e[0][1][0], x))), "the declarator within isn't gone through")
            elif tag == "other":
                p.require("other", not ad and not fi, "something else becomes a type's name")
            else:
                h = before(p, d, "tDECL_DECLS")
                if not lp:
                    p.require("empty", z3.And(h.base == ZERO64, z3.BoolVal(not ad and not fi)), "the declarators aren't gone through")
                    continue
                if not p.require("all", len(lp) == 1 and lp[0][6] is not None and valid(p, lp[0][6][1] == h.base), "not all declarators"):
                    continue
                ring = lp[0][6]
                if p.out.kind == "ret":
                    p.require("none", ring[0] == "end" and not ad and not fi, "declarators are left out")
                    continue
                hd = E.ring_of(order(p, "back")[-1][2][ring[2]])
                ok = hd is not None and hd.base.eq(ring[3]) and len(fi) == 1 and not ad
                p.require("each", ok and valid(p, tobool(p.ptr_eq(fi[0][1][0], Ptr(ring[3])))), "a declarator is left out")
        if tag == "T_DECL":
            G.paths_ok("loop", [], kinds == {"ret", "back"}, str(kinds))
    return G


find.group = "find_ids_to_map_to_typenames"


def maybe(S):
    """names become types exactly if the declaration is a typedef"""
    G = Group(S, "maybe_add_typenames")
    g, G.E = specs_parse.engine(S, "cscript")
    E = G.E
    E.contracts.pop("maybe_add_typenames")
    E.contracts["find_ids_to_map_to_typenames"] = noted("find")
    E.contracts["chain_has_T_TYPEDEF"] = has("T_TYPEDEF")
    st = G.state()
    d = G.node(st, "decl", "T_DECL")
    for p in G.paths(G.run(st, "maybe_add_typenames", [d])):
        hs, fi = order(p, "has"), order(p, "find")
        G.frame(p)
        if not p.require("asked", len(hs) == 1 and valid(p, tobool(p.ptr_eq(hs[0][2], before(p, d, "tDECL_SPECS")))), "the specifiers aren't looked at"):
            continue
        if fi:
            p.require("typedef", z3.And(hs[0][3] != 0, tobool(p.ptr_eq(fi[0][1][0], d))) if len(fi) == 1 else False, "names that no typedef declares become types")
        else:
            p.require("typedef", hs[0][3] == 0, "a typedef's names don't become types")
    return G


maybe.group = "maybe_add_typenames"


def is_type(S):
    """a name is a type's exactly if one of the lists has it"""
    G = Group(S, "is_typename")
    E = G.E
    st = G.state()
    names, inc = lists(G, st)
    n = G.node(st, "name", "T_IDENTIFIER")
    def on_elem(E, st, hd, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        G.as_node(st, el, "T_IDENTIFIER")
    E.on_elem = on_elem
    kinds = set()
    for p in G.paths(G.run(st, "is_typename", [n]), ok=("ret", "back")):
        G.frame(p)
        lp = order(p, "loop")
        heads = [e[6][1] if e[6] is not None else None for e in lp]
        if not p.require("lists", 1 <= len(lp) <= 2 and all(h is not None and any(h.eq(x.base) for x in (names, inc)) for h in heads) and
                         (len(lp) == 1 or not heads[0].eq(heads[1])), "not the lists of type names are gone through"):
            continue
        ring = lp[-1][6]
        if ring[0] == "end":
            kinds.add("none")
            p.require("none", len(lp) == 2 and all(e[6][0] == "end" for e in lp) and p.out.kind == "ret" and valid(p, tobv(p.val, 32) == 0), "a list isn't gone through")
            continue
        el = Ptr(ring[3])
        eq = same_string(p, before(p, n, "tID_STR"), before(p, el, "tID_STR"))
        if p.out.kind == "ret":
            kinds.add("found")
            p.require("found", z3.And(eq, tobv(p.val, 32) != 0), "another name is taken for a type's")
            continue
        kinds.add("next%d" % len(lp))
        hd = E.ring_of(order(p, "back")[-1][2][ring[2]])
        p.require("next", z3.And(z3.Not(eq), z3.BoolVal(hd is not None and hd.base.eq(el.base))), "a type's name isn't found")
    G.paths_ok("reach", [], kinds == {"none", "found", "next1", "next2"}, str(kinds))
    return G


is_type.group = "is_typename"


def setters(S):
    """the lists are those that they were, but for an #include's, which starts anew"""
    G = Group(S, "typename_lists")
    E = G.E
    for fn, v in (("typename_set_include_file", True), ("typename_unset_include_file", False)):
        st = G.state()
        names, inc = lists(G, st)
        for p in G.paths(G.run(st, fn, [])):
            G.frame(p, globals_=("in_include_file",))
            x = p.st.glob.get(("in_include_file", 0))
            p.require(fn, (tobv(x, 32) != 0) == v if x is not None else False, "not set")
    st = G.state()
    names, inc = lists(G, st)
    for p in G.paths(G.run(st, "reset_include_typenames", [])):
        G.frame(p, globals_=("include_type_names",))
        x = p.st.glob[("include_type_names", 0)]
        p.require("reset", p.fresh(x) and is_a(p, x, "CHAIN_HEAD") and not order(p, "append"), "not an empty list")
    E.contracts["add_typename"] = noted("add")
    st = G.state()
    for p in G.paths(G.run(st, "typename_init", [])):
        G.frame(p, globals_=("include_type_names", "type_names"))
        a, b = p.st.glob.get(("type_names", 0)), p.st.glob.get(("include_type_names", 0))
        ok = a is not None and b is not None and p.fresh(a) and p.fresh(b) and not a.base.eq(b.base)
        p.require("init", ok and is_a(p, a, "CHAIN_HEAD") and is_a(p, b, "CHAIN_HEAD"), "no two lists")
        known = {literal(E, x) for x in ("__builtin_va_list", "_Float128")}
        ns = [contracts.str_of(E, p.st, p.get(e[1][0], "tID_STR")) for e in order(p, "add")]
        p.require("builtin", all(any(valid(p, x == k) for k in known) for x in ns), "a name of the program's becomes a type")
    return G


setters.group = "typename_lists"


def last(S):
    """the last name is that before the list's head"""
    G = Group(S, "typename_last")
    E = G.E
    st = G.state()
    names, inc = lists(G, st)
    oc = E.M.off_chain
    prev = E.tree_load(st, names.base, oc + 8, 8, ("ptr",))
    for p in G.paths(G.run(st, "typename_last", [])):
        G.frame(p)
        p.require("last", z3.And(prev.off == oc, tobool(p.ptr_eq(p.val, Ptr(prev.base)))), "not the name that was added last")
    return G


last.group = "typename_last"


def forget(S):
    """names are removed from the end until the given one is the last"""
    G = Group(S, "typename_forget_after")
    E = G.E
    def c_last(E, st, a):
        # (what's proved of it: the same list has the same last element)
        n = len([e for e in st.events if e[0] == "unlink"])
        k = ("last", n)
        if k not in st.ghost:
            st.ghost[k] = G.node(st, "last")
        st.events.append(("last", st.ghost[k], n))
        return [(st, st.ghost[k])]
    E.contracts["typename_last"] = c_last
    st = G.state()
    names, inc = lists(G, st)
    l = G.node(st, "until")
    kinds = set()
    for p in G.paths(G.run(st, "typename_forget_after", [l]), ok=("ret", "back")):
        la, un = order(p, "last"), p.ev("unlink")
        p.require("frame", not p.ev("store", "pstore", "gstore", "append", "free", "retag"), "something else is changed")
        kinds.add(p.out.kind)
        if not p.require("asked", len(la) >= 1 and la[0][2] == 0, "the end of the list isn't looked at"):
            continue
        at = tobool(p.ptr_eq(la[0][1], l))
        if p.out.kind == "ret":
            p.require("enough", z3.And(at, z3.BoolVal(not un)), "names remain, or the given one is removed")
        else:
            p.require("each", z3.And(z3.Not(at), un[0][1] == la[0][1].base) if len(un) == 1 else False, "not the last name is removed")
    G.paths_ok("reach", [], kinds == {"ret", "back"}, str(kinds))
    return G


forget.group = "typename_forget_after"


def at_once(target):
    """a declaration is complete with its semicolon: nothing of what follows has been read when its action runs"""
    def f(S):
        G = Group(S, "grammar/%s/at_once" % target)
        g = specs_parse.grammar(S, target)
        ds = [p for p in g.productions if p.lhs == "declaration"]
        for p in ds:
            G.paths_ok(str(p), [], p.rhs[-1:] == ["';'"] and p in g.immediate, "the parser reads on before the declaration's names become types")
        G.paths_ok("declarations", [], len(ds) >= 2, "no declarations")
        return G
    f.group = "grammar/%s/at_once" % target
    return f


NAMES = [add_name, find, maybe, is_type, setters, last, forget, at_once("cscript"), at_once("repl"), chain_has("T_TYPEDEF")] + [r for r in specs_parse.ACTIONS if r.group.endswith("/declarations")]
