"""C25: the parser builds the tree that the source text means.

SPEC says for every production which tree its action has to make of the trees
of its parts; the productions themselves are compared with C's precedence and
associativity over the grammar that bison reports."""
import re, z3
from sym import *
from spec import *
import contracts, actions, ir
from ir import Unsupported
from specs_scope import order, valid
from specs_main import noted, is_a, st_global
from specs_decl import before


class N:
    """a new node; members that aren't mentioned are empty"""
    def __init__(self, tag, **m):
        self.tag, self.m = tag, m


class L:
    """a new list of one element"""
    def __init__(self, k):
        self.k = k


class A:
    """an existing list, to whose end an element is added"""
    def __init__(self, lst, el):
        self.lst, self.el = lst, el


class Zero:
    """a new integer constant zero"""


class Head:
    """also what the parser's caller gets"""
    def __init__(self, of):
        self.of = of


class Enum:
    def __init__(self, name):
        self.name = name


def binary(tag, pre):
    return N(tag, **{pre + "_LHS": 1, pre + "_RHS": 3})


def compound(tag, pre):
    return N("T_ASSIGN", tASSIGN_LHS=1, tASSIGN_RHS=binary(tag, pre))


SPEC = {}


def rule(text, tree):
    for t in text.split(" | "):
        SPEC[t] = tree


E_ = "%s_expression: "
rule("primary_expression: IDENTIFIER", 1)
rule("primary_expression: '(' expression ')'", 2)
rule("primary_expression: CONST_STRING", N("T_STRING", tSTRING_VAL=1))
rule("postfix_expression: postfix_expression '(' ')'", N("T_FN_CALL", tFNCALL_ID=1))
rule("postfix_expression: postfix_expression '(' argument_expression_list ')'", N("T_FN_CALL", tFNCALL_ID=1, tFNCALL_ARGS=3))
rule("postfix_expression: postfix_expression '[' expression ']'", N("T_ARRAY_ACCESS", tARR_ACCESS_OBJ=1, tARR_ACCESS_IDX=3))
rule("postfix_expression: postfix_expression INC", N("T_P_INC", tPINC_EXP=1))
rule("postfix_expression: postfix_expression DEC", N("T_P_DEC", tPDEC_EXP=1))
rule("postfix_expression: postfix_expression '.' IDENTIFIER", N("T_COMP_ACCESS", tCOMP_ACCESS_OBJ=1, tCOMP_ACCESS_MEMBER=3))
rule("postfix_expression: postfix_expression PTR_ACCESS IDENTIFIER", N("T_COMP_ACCESS", tCOMP_ACCESS_OBJ=N("T_DEREF", tDEREF_EXP=1), tCOMP_ACCESS_MEMBER=3))
rule("argument_expression_list: assignment_expression", L(1))
rule("argument_expression_list: argument_expression_list ',' assignment_expression", A(1, 3))
for tok, tag, acc in (("INC", "T_INC", "tINC_EXP"), ("DEC", "T_DEC", "tDEC_EXP"), ("'!'", "T_NEGATE", "tNEGATE_EXP"), ("'&'", "T_ADDR", "tADDR_EXP"),
                      ("'*'", "T_DEREF", "tDEREF_EXP"), ("'~'", "T_ONES_COMP", "tONES_COMP_EXP"), ("SIZEOF", "T_SIZEOF", "tSZOF_EXP")):
    rule("unary_expression: %s unary_expression" % tok, N(tag, **{acc: 2}))
rule("unary_expression: SIZEOF '(' type_name ')'", N("T_SIZEOF", tSZOF_EXP=3))
rule("cast_expression: '(' type_name ')' cast_expression", N("T_CAST", tCAST_NEWTYPE=2, tCAST_EXP=4))
# operator, its level, its node
BINARY = [("'*'", 4, "T_MUL", "tMUL"), ("'/'", 4, "T_DIV", "tDIV"), ("'%'", 4, "T_MOD", "tMOD"), ("'+'", 5, "T_ADD", "tADD"), ("'-'", 5, "T_SUB", "tSUB"),
          ("SHIFT_LEFT", 6, "T_LSHIFT", "tLSHIFT"), ("SHIFT_RIGHT", 6, "T_RSHIFT", "tRSHIFT"), ("'<'", 7, "T_LT", "tLT"), ("'>'", 7, "T_GT", "tGT"),
          ("LESS_OR_EQUAL", 7, "T_LTEQ", "tLTEQ"), ("GREATER_OR_EQUAL", 7, "T_GTEQ", "tGTEQ"), ("EQUATE", 8, "T_EQ", "tEQ"), ("NOT_EQUATE", 8, "T_N_EQ", "tN_EQ"),
          ("'&'", 9, "T_I_AND", "tI_AND"), ("'^'", 10, "T_X_OR", "tX_OR"), ("'|'", 11, "T_I_OR", "tI_OR"), ("BOOL_OP_AND", 12, "T_L_AND", "tL_AND"),
          ("BOOL_OP_OR", 13, "T_L_OR", "tL_OR")]
ASSIGN = [("ADD_ASSIGN", "T_ADD", "tADD"), ("SUB_ASSIGN", "T_SUB", "tSUB"), ("MUL_ASSIGN", "T_MUL", "tMUL"), ("DIV_ASSIGN", "T_DIV", "tDIV"), ("MOD_ASSIGN", "T_MOD", "tMOD"),
          ("LSHIFT_ASSIGN", "T_LSHIFT", "tLSHIFT"), ("RSHIFT_ASSIGN", "T_RSHIFT", "tRSHIFT"), ("XOR_ASSIGN", "T_X_OR", "tX_OR"), ("OR_ASSIGN", "T_I_OR", "tI_OR"), ("AND_ASSIGN", "T_I_AND", "tI_AND")]
# operators between two operands mean the same wherever they appear
INFIX = {tok: binary(tag, pre) for tok, lv, tag, pre in BINARY}
INFIX.update({tok: compound(tag, pre) for tok, tag, pre in ASSIGN})
INFIX["'='"] = binary("T_ASSIGN", "tASSIGN")
TERNARY = N("T_INFIX", tINFIX_COND=1, tINFIX_TRUE_STMT=3, tINFIX_FALSE_STMT=5)
rule("expression: assignment_expression", N("T_EXPR_LIST", tEXPR_LIST_CHAIN=L(1)))
rule("expression: expression ',' assignment_expression", "comma")
rule("unary_expression: '-' unary_expression", "minus")
rule("primary_expression: INTEGER", "integer")
rule("primary_expression: FLOAT_CST", "float")
# declarations
DECL = N("T_DECL", tDECL_SPECS=1, tDECL_DECLS=2)
rule("declaration: declaration_specifiers ';'", N("T_DECL", tDECL_SPECS=1))
rule("declaration: declaration_specifiers init_declarator_list ';'", "declaration")
rule("parameter_declaration: declaration_specifiers declarator | parameter_declaration: declaration_specifiers abstract_declarator | "
     "struct_declaration: specifier_qualifier_list struct_declarator_list ';'", DECL)
rule("parameter_declaration: declaration_specifiers | struct_declaration: specifier_qualifier_list ';'", N("T_DECL", tDECL_SPECS=1))
for l in ("declaration_specifiers: declaration_specifier", "init_declarator_list: , init_declarator", "struct_declaration_list: struct_declaration",
          "specifier_qualifier_list: specifier_qualifier", "struct_declarator_list: , struct_declarator", "enumerator_list: , enumerator", "type_qualifier_list: type_qualifier",
          "parameter_list: , parameter_declaration", "identifier_list: , IDENTIFIER", "initializer_list: , initializer", "designator_list: designator",
          "block_item_list: block_item", "declaration_list: declaration"):
    name, el = l.replace(" ,", "").split(": ")
    rule("%s: %s" % (name, el), L(1))
    rule("%s: %s %s%s" % (name, name, "',' " if " , " in l else "", el), A(1, 3 if " , " in l else 2))
for tok, tag in (("TYPEDEF", "T_TYPEDEF"), ("EXTERN", "T_EXTERN"), ("STATIC", "T_STATIC"), ("AUTO", "T_AUTO"), ("REGISTER", "T_REGISTER")):
    rule("storage_class_specifier: " + tok, N(tag))
for tok in ("VOID", "CHAR", "SHORT", "INT", "LONG", "FLOAT", "DOUBLE", "SIGNED", "UNSIGNED", "BOOL"):
    rule("type_specifier: " + tok, N("T_%s_TS" % tok))
for tok in ("CONST", "RESTRICT", "VOLATILE"):
    rule("type_qualifier: " + tok, N("T_" + tok))
rule("function_specifier: INLINE", N("T_INLINE"))
rule("init_declarator: declarator '=' initializer", N("T_ASSIGN", tASSIGN_LHS=1, tASSIGN_RHS=3))
rule("enumerator: IDENTIFIER '=' constant_expression", N("T_ASSIGN", tASSIGN_LHS=1, tASSIGN_RHS=3))
rule("enumerator: IDENTIFIER | direct_declarator: IDENTIFIER", 1)
C = dict(tCOMP_DECL_TYPE=1)
rule("struct_or_union_specifier: struct_or_union IDENTIFIER '{' struct_declaration_list '}'", N("T_DECL_COMPOUND", tCOMP_DECL_ID=2, tCOMP_DECL_DECLS=4, **C))
rule("struct_or_union_specifier: struct_or_union '{' struct_declaration_list '}'", N("T_DECL_COMPOUND", tCOMP_DECL_DECLS=3, **C))
rule("struct_or_union_specifier: struct_or_union IDENTIFIER", N("T_DECL_COMPOUND", tCOMP_DECL_ID=2, **C))
rule("struct_or_union: STRUCT", Enum("sstruct"))
rule("struct_or_union: UNION", Enum("uunion"))
rule("struct_declarator: ':' constant_expression", N("T_BITFIELD", tBITFIELD_SZ=2))
rule("struct_declarator: declarator ':' constant_expression", N("T_BITFIELD", tBITFIELD_SZ=3, tBITFIELD_DECLARATOR=1))
rule("enum_specifier: ENUM '{' enumerator_list '}' | enum_specifier: ENUM '{' enumerator_list ',' '}'", N("T_ENUMERATOR", tENUM_ENUMS=3))
rule("enum_specifier: ENUM IDENTIFIER '{' enumerator_list '}' | enum_specifier: ENUM IDENTIFIER '{' enumerator_list ',' '}'", N("T_ENUMERATOR", tENUM_NAME=2, tENUM_ENUMS=4))
rule("enum_specifier: ENUM IDENTIFIER", N("T_ENUMERATOR", tENUM_NAME=2))
rule("declarator: pointer direct_declarator | abstract_declarator: pointer direct_abstract_declarator", "pointer")
rule("direct_declarator: '(' declarator ')' | direct_abstract_declarator: '(' abstract_declarator ')'", 2)
D = "direct_declarator: direct_declarator "
rule(D + "'[' type_qualifier_list assignment_expression ']'", N("T_ARRAY", tARRAY_DECL=1, tARRAY_QUALIFIERS=3, tARRAY_SZ=4))
rule(D + "'[' type_qualifier_list ']'", N("T_ARRAY", tARRAY_DECL=1, tARRAY_QUALIFIERS=3))
rule(D + "'[' assignment_expression ']'", N("T_ARRAY", tARRAY_DECL=1, tARRAY_SZ=3))
rule(D + "'[' STATIC type_qualifier_list assignment_expression ']'", N("T_ARRAY", tARRAY_DECL=1, tARRAY_QUALIFIERS=4, tARRAY_SZ=5))
rule(D + "'[' type_qualifier_list STATIC assignment_expression ']'", N("T_ARRAY", tARRAY_DECL=1, tARRAY_QUALIFIERS=3, tARRAY_SZ=5))
rule(D + "'[' type_qualifier_list '*' ']'", N("T_ARRAY", tARRAY_DECL=1, tARRAY_QUALIFIERS=3))
rule(D + "'[' '*' ']' | " + D + "'[' ']'", N("T_POINTER", tPTR_EXP=1))
rule(D + "'(' parameter_type_list ')' | " + D + "'(' identifier_list ')'", N("T_FN", tFN_DECL=1, tFN_ARGS=3))
rule(D + "'(' ')'", N("T_FN", tFN_DECL=1))
rule("pointer: '*'", N("T_POINTER"))
rule("pointer: '*' type_qualifier_list", N("T_POINTER", tPTR_QUALIFIERS=2))
rule("pointer: '*' pointer", N("T_POINTER", tPTR_EXP=2))
rule("pointer: '*' type_qualifier_list pointer", N("T_POINTER", tPTR_QUALIFIERS=2, tPTR_EXP=3))
rule("parameter_type_list: parameter_list", "parameters")
rule("parameter_type_list: parameter_list ',' ELLIPSIS", A(1, N("T_VARIADIC")))
rule("type_name: specifier_qualifier_list", N("T_TYPE_SPECIFIER", tTYPE_SPECIFIER_SPECS=1))
rule("type_name: specifier_qualifier_list abstract_declarator", N("T_TYPE_SPECIFIER", tTYPE_SPECIFIER_SPECS=1, tTYPE_SPECIFIER_DECL=2))
B = "direct_abstract_declarator: "
rule(B + "'[' ']' | " + B + "'[' '*' ']'", N("T_ARRAY"))
rule(B + "'[' assignment_expression ']'", N("T_ARRAY", tARRAY_SZ=2))
rule(B + B[:-2] + " '[' ']' | " + B + B[:-2] + " '[' '*' ']'", N("T_ARRAY", tARRAY_DECL=1))
rule(B + B[:-2] + " '[' assignment_expression ']'", N("T_ARRAY", tARRAY_DECL=1, tARRAY_SZ=3))
rule(B + "'(' ')'", N("T_FN"))
rule(B + "'(' parameter_type_list ')'", N("T_FN", tFN_ARGS=2))
rule(B + B[:-2] + " '(' ')'", N("T_FN", tFN_DECL=1))
rule(B + B[:-2] + " '(' parameter_type_list ')'", N("T_FN", tFN_DECL=1, tFN_ARGS=3))
rule("initializer: '{' initializer_list '}' | initializer: '{' initializer_list ',' '}'", 2)
rule("initializer_list: designation initializer", "designated")
rule("initializer_list: initializer_list ',' designation initializer", "designated")
rule("designation: designator_list '='", N("T_ASSIGN", tASSIGN_LHS=1))
rule("designator: '[' constant_expression ']'", N("T_ARRAY_ACCESS", tARR_ACCESS_IDX=2))
rule("designator: '.' IDENTIFIER", N("T_COMP_ACCESS", tCOMP_ACCESS_MEMBER=2))
# statements
rule("expression_statement: ';' | compound_statement: '{' '}'", N("T_EMPTY"))
rule("expression_statement: expression ';'", 1)
rule("compound_statement: '{' block_item_list '}'", 2)
rule("statement: compound_statement", N("T_BLOCK", tBLOCK_STMTS=1))
rule("statement: REPL ';'", N("T_REPL"))
rule("selection_statement: IF '(' expression ')' statement", N("T_IF", tIF_COND=3, tIF_TRUE_STMTS=5))
rule("selection_statement: IF '(' expression ')' statement ELSE statement", N("T_IF", tIF_COND=3, tIF_TRUE_STMTS=5, tIF_ELSE_STMTS=7))
rule("iteration_statement: WHILE '(' expression ')' statement", N("T_LOOP_WHILE", tWLOOP_COND=3, tWLOOP_STMTS=5))
for init in ("expression_statement", "declaration"):
    rule("iteration_statement: FOR '(' %s expression_statement ')' statement" % init, N("T_LOOP_FOR", tFLOOP_INIT=3, tFLOOP_COND=4, tFLOOP_STMTS=6))
    rule("iteration_statement: FOR '(' %s expression_statement expression ')' statement" % init, N("T_LOOP_FOR", tFLOOP_INIT=3, tFLOOP_COND=4, tFLOOP_AFTER=5, tFLOOP_STMTS=7))
rule("jump_statement: BREAK ';'", N("T_BREAK"))
rule("jump_statement: RETURN ';'", N("T_RETURN"))
rule("jump_statement: RETURN expression ';'", N("T_RETURN", tRET_EXP=2))
rule("function_definition: declaration_specifiers declarator declaration_list compound_statement", "function")
rule("function_definition: declaration_specifiers declarator compound_statement", "function")
for t, el in (("cscript", "cscript_external_declaration"), ("repl", "repl_statement")):
    rule("%s_translation_unit: %s" % (t, el), Head(L(1)))
    rule("%s_translation_unit: %s_translation_unit %s" % (t, t, el), A(1, 2))
rule("repl_statement: C_PRE_INC", N("CPP_INCLUDE", tCPP_INCLUDE_STR=1))
rule("repl_statement: '?' IDENTIFIER", N("T_INSPECT", tINSPECT_EXP=2))


def want(p):
    """the tree that a production stands for"""
    t = str(p)
    if t in SPEC:
        return SPEC[t]
    if len(p.rhs) == 3 and p.rhs[1] in INFIX and all(x[0].islower() for x in (p.rhs[0], p.rhs[2])):
        return INFIX[p.rhs[1]]
    if len(p.rhs) == 5 and p.rhs[1::2] == ["'?'", "':'"]:
        return TERNARY
    if len(p.rhs) == 1:
        return 1          # another name for its part
    return None


# ---- the actions -----------------------------------------------------------------------------------
def grammar(S, target):
    k = "grammar_" + target
    if not hasattr(S, k):
        g = actions.Grammar(S.tree, target)
        setattr(S, k, g)
        g.mod = ir.parse(open(S.tree.ir(g.file)).read(), g.file)
    return getattr(S, k)


def engine(S, target):
    import sym
    g = grammar(S, target)
    mods = S.mods + [g.mod]
    E = sym.Engine(mods, S.meta, ir.Layout(mods))
    contracts.install(E)
    E.contracts["set_locus"] = lambda E, st, a: None
    E.contracts["maybe_add_typenames"] = noted("names")
    for f in ("__gmpf_init_set", "__gmpf_neg"):
        E.contracts[f] = noted(f)
    return g, E


class Made:
    """what a path has made, compared with what is wanted"""

    def __init__(self, p, args):
        self.p, self.E, self.st, self.args = p, p.E, p.st, args
        self.appends = []
        self.why = None

    def no(self, why):
        self.why = self.why or why
        return False

    def same(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return valid(self.p, tobool(self.p.ptr_eq(a, b)))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return False
        return valid(self.p, tobv(a, 32) == tobv(b, 32))

    def null(self, v):
        return valid(self.p, v.base == ZERO64) and v.off == 0 if isinstance(v, Ptr) else valid(self.p, tobv(v, 32) == 0)

    def is_(self, v, w):
        p, E = self.p, self.E
        if isinstance(w, int):
            return self.same(v, self.args[w]) or self.no("not $%d" % w)
        if isinstance(w, Enum):
            return valid(p, tobv(v, 32) == E_ENUM(p, w.name)) or self.no("not " + w.name)
        if isinstance(w, Head):
            return self.is_(v, w.of) and (self.same(st_global(p, self.target + "_parse_head"), v) or self.no("not what the parser's caller gets"))
        if isinstance(w, A):
            if not self.same(v, self.args[w.lst]):
                return self.no("not the list $%d" % w.lst)
            hits = [e for e in order(p, "append") if e[2].eq(v.base) and e[3] == "tail"]
            if len(hits) != 1:
                return self.no("%d elements are added to the list" % len(hits))
            self.appends += hits
            return self.is_(Ptr(hits[0][1]), w.el)
        if not (isinstance(v, Ptr) and p.fresh(v)):
            return self.no("not a new object")
        if isinstance(w, L):
            hits = [e for e in order(p, "append") if e[2].eq(v.base)]
            if not (is_a(p, v, "CHAIN_HEAD") and len(hits) == 1):
                return self.no("not a list of one element")
            self.appends += hits
            return self.is_(Ptr(hits[0][1]), w.k)
        if isinstance(w, Zero):
            return is_a(p, v, "T_INTEGER") and valid(p, p.get(v, "tINT_VAL") == 0) or self.no("not zero")
        if not is_a(p, v, w.tag):
            return self.no("not a " + w.tag)
        for acc, (tag, mem) in E.M.acc.items():
            if tag != w.tag or mem.startswith(("integer", "ffloat")) or E.M.field[mem][1][0] not in ("ptr", "int"):
                continue
            x = p.get(v, acc)
            if acc in w.m:
                if not self.is_(x, w.m[acc]):
                    return self.no("%s isn't as it should be" % acc)
            elif not self.null(x):
                return self.no("%s isn't empty" % acc)
        return all(a in E.M.acc for a in w.m) or self.no("members are missing")

    def nothing_else(self, stores=(), globals_=(), names=0):
        """nothing that the parts consist of is changed"""
        p, M = self.p, self.E.M
        for e in order(p, "store"):
            if not (e[2] >= M.off_locus and e[2] < M.off_chain) and not any(e[1].eq(b) and M.off(a) == e[2] for b, a in stores):
                return self.no("changes a part's %s" % M.at.get(e[2]))
        for e in order(p, "append"):
            if not any(e is x for x in self.appends):
                return self.no("changes a list")
        if order(p, "unlink", "pstore", "retag", "treecopy"):
            return self.no("changes something else")
        if any(e[1] not in globals_ for e in order(p, "gstore")):
            return self.no("changes a variable")
        if len(order(p, "names")) != names:
            return self.no("type names are declared")
        return True


def E_ENUM(p, name):
    return p.G.S.tree.enums("evaluate.c")[name]


def arguments(G, st, prod):
    args = {}
    for k, f in sorted(prod.params.items()):
        if f == "tree":
            args[k] = G.node(st, "v%d" % k)
        elif f == "string":
            args[k] = Ptr(z3.BitVec("s%d" % k, 64))
        elif f == "compound_type":
            args[k] = z3.BitVec("c%d" % k, 32)
        else:
            n = G.node(st, "number%d" % k, "T_INTEGER" if f == "integer" else "T_FLOAT")
            o = G.M.off("tINT_VAL" if f == "integer" else "tFLOAT_VAL")
            args[k] = Ptr(n.base, n.off + o)
    return args


def rule_of(target, section, pick):
    def f(S):
        G = Group(S, "grammar/%s/%s" % (target, section))
        g, G.E = engine(S, target)
        E = G.E
        for prod in g.productions:
            if prod.lhs == "$accept" or not pick(prod):
                continue
            w = want(prod)
            name = str(prod)
            if w is None:
                o = G.obl("known: " + name)
                o.paths += 1
                o.failed.append(("", "no tree is known for this form", None))
                continue
            if prod.fn is None:
                G.paths_ok(name, [], w == 1 and len(prod.rhs) > 0, "nothing is made of it")
                continue
            if isinstance(w, str):
                SPECIAL[w](G, E, g, prod, name)
                continue
            st = G.state()
            args = arguments(G, st, prod)
            lists(G, st, args, w)
            for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name):
                m = Made(p, args)
                m.target = target
                p.require(name, m.is_(p.val, w) and m.nothing_else(globals_=(target + "_parse_head",) if isinstance(w, Head) else ()), m.why or "")
        return G
    f.group = "grammar/%s/%s" % (target, section)
    return f


def lists(G, st, args, w):
    """the list that is added to is one, and isn't its own element"""
    if isinstance(w, A):
        G.E.assume_tags(st, args[w.lst], G.M.tagset("CHAIN_HEAD"))
        G.E.assume_ring(st, args[w.lst]) if hasattr(G.E, "assume_ring") else None


# -- actions that aren't of that form
def s_comma(G, E, g, prod, name):
    st = G.state()
    args = arguments(G, st, prod)
    if 3 not in args or 1 not in args:
        G.paths_ok(name, [], False, "nothing is made of an operand")
        return
    G.E.assume_tags(st, args[1], G.M.tagset("T_EXPR_LIST"))
    ch = G.operand(st, args[1], "tEXPR_LIST_CHAIN", "CHAIN_HEAD")
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name):
        m = Made(p, {0: ch, **args})
        ok = m.same(p.val, args[1]) or m.no("another expression")
        p.require(name, ok and m.is_(ch, A(0, 3)) and m.nothing_else(), m.why or "")


def s_minus(G, E, g, prod, name):
    """a negative constant, or 0 - operand"""
    for kind in ("T_INTEGER", "T_FLOAT", None):
        st = G.state()
        args = arguments(G, st, prod)
        if 2 not in args:
            G.paths_ok(name, [], False, "nothing is made of the operand")
            return
        x = args[2]
        if kind:
            E.assume_tags(st, x, G.M.tagset(kind))
        else:
            E.assume_tags(st, x, frozenset(range(len(G.M.names))) - G.M.tagset("T_INTEGER", "T_FLOAT"))
        v0 = E.get(st, x, "tINT_VAL") if kind == "T_INTEGER" else None
        for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: %s/%s" % (name, kind)):
            m = Made(p, args)
            ng = order(p, "__gmpf_neg")
            sub = lambda: m.is_(p.val, N("T_SUB", tSUB_LHS=Zero(), tSUB_RHS=2))
            if kind == "T_INTEGER":
                ok = m.same(p.val, x) and valid(p, p.get(x, "tINT_VAL") == -v0) or p.fresh(p.val) and (sub() or is_a(p, p.val, "T_INTEGER") and valid(p, p.get(p.val, "tINT_VAL") == -v0))
            elif kind == "T_FLOAT":
                o = x.off + G.M.off("tFLOAT_VAL")
                ok = m.same(p.val, x) and len(ng) == 1 and all(a.base.eq(x.base) and a.off == o for a in ng[0][1]) or p.fresh(p.val) and sub()
            else:
                ok = sub() and not ng
            p.require("%s/%s" % (name, kind), ok and m.nothing_else(stores=[(x.base, "tINT_VAL"), (x.base, "tFLOAT_VAL")]), m.why or "not the negative operand")


def s_integer(G, E, g, prod, name):
    st = G.state()
    args = arguments(G, st, prod)
    v0 = E.mpz_get(st, args[1])
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name):
        m = Made(p, args)
        p.require(name, p.fresh(p.val) and is_a(p, p.val, "T_INTEGER") and valid(p, p.get(p.val, "tINT_VAL") == v0) and m.nothing_else(), m.why or "not a constant of that value")


def s_float(G, E, g, prod, name):
    st = G.state()
    args = arguments(G, st, prod)
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name):
        m = Made(p, args)
        i = order(p, "__gmpf_init_set")
        ok = p.fresh(p.val) and is_a(p, p.val, "T_FLOAT") and len(i) == 1 and not order(p, "__gmpf_neg")
        ok = ok and i[0][1][0].base.eq(p.val.base) and i[0][1][0].off == G.M.off("tFLOAT_VAL") and i[0][1][1].base.eq(args[1].base) and i[0][1][1].off == args[1].off
        p.require(name, ok and m.nothing_else(), m.why or "not a constant of that value")


def s_declaration(G, E, g, prod, name):
    """a declaration; the names of a typedef's are type names from then on"""
    st = G.state()
    args = arguments(G, st, prod)
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name):
        m = Made(p, args)
        nm = order(p, "names")
        ok = m.is_(p.val, DECL) and m.nothing_else(names=1)
        p.require(name, ok and m.same(nm[0][1][0], p.val), m.why or "not the declaration's names become type names")


def s_pointer(G, E, g, prod, name):
    """the pointers' innermost one points to the rest of the declarator"""
    st = G.state()
    args = arguments(G, st, prod)
    if 1 not in args or 2 not in args:
        G.paths_ok(name, [], False, "nothing is made of a part")
        return
    E.assume_tags(st, args[1], G.M.tagset("T_POINTER"))
    # what a pointer of `pointer' points to is another pointer of it, or nothing yet
    def inner(E, st, key, entry, phis):
        for v in phis.values():
            if isinstance(v, Ptr):
                G.as_node(st, v, "T_POINTER")
    E.on_loop = inner
    done = set()
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name, ok=("ret", "back")):
        m = Made(p, args)
        lp = order(p, "loop")
        if not p.require("%s/search" % name, len(lp) == 1 and len(lp[0][2]) == 1 and m.same(list(lp[0][2].values())[0], args[1]), "the search doesn't start at the first pointer"):
            continue
        cur = list(lp[0][3].values())[0]
        done.add(p.out.kind)
        if p.out.kind == "back":
            nxt = list(order(p, "back")[-1][2].values())[0]
            p.require("%s/next" % name, m.same(nxt, before(p, cur, "tPTR_EXP")) and m.nothing_else(), m.why or "pointers are skipped")
            continue
        ok = valid(p, before(p, cur, "tPTR_EXP").base == ZERO64) and m.same(p.get(cur, "tPTR_EXP"), args[2])
        p.require(name, ok and (m.same(p.val, args[1]) or m.no("another declarator")) and m.nothing_else(stores=[(cur.base, "tPTR_EXP")]), m.why or "not the innermost pointer points to the rest")
    G.paths_ok("%s/reach" % name, [], done == {"ret", "back"}, str(done))
    E.on_loop = None


def s_function(G, E, g, prod, name):
    """the statements become those of the declarator's function"""
    body = len(prod.rhs)
    st = G.state()
    args = arguments(G, st, prod)
    if not {1, 2, body} <= set(args):
        G.paths_ok(name, [], False, "nothing is made of a part")
        return
    def outer(E, st, key, entry, phis):
        for v in phis.values():
            if isinstance(v, Ptr):
                G.as_node(st, v)
    E.on_loop = outer
    done = set()
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name, ok=("ret", "back", "die")):
        m = Made(p, args)
        lp = order(p, "loop")
        if not p.require("%s/search" % name, len(lp) == 1 and len(lp[0][2]) == 1 and m.same(list(lp[0][2].values())[0], args[2]), "the search for the function doesn't start at the declarator"):
            continue
        cur = list(lp[0][3].values())[0]
        done.add(p.out.kind)
        if p.out.kind == "back":
            nxt = list(order(p, "back")[-1][2].values())[0]
            p.require("%s/next" % name, is_a(p, cur, "T_POINTER") and m.same(nxt, before(p, cur, "tPTR_EXP")), "declarators are skipped")
            continue
        if p.out.kind == "die":
            p.require("%s/refused" % name, not p.names(cur) & {"T_FN", "T_POINTER"}, "a function definition is refused")
            continue
        ok = m.is_(p.val, N("T_DECL", tDECL_SPECS=1, tDECL_DECLS=L(2)))
        ok = ok and (is_a(p, cur, "T_FN") and m.same(p.get(cur, "tFN_STMTS"), args[body]) or m.no("not the function gets the statements"))
        p.require(name, ok and m.nothing_else(stores=[(cur.base, "tFN_STMTS")]), m.why or "")
    G.paths_ok("%s/reach" % name, [], {"ret", "back"} <= done, str(done))
    E.on_loop = None


def s_designated(G, E, g, prod, name):
    """a designation gets its value"""
    d = prod.rhs.index("designation") + 1
    st = G.state()
    args = arguments(G, st, prod)
    if not {d, d + 1} <= set(args):
        G.paths_ok(name, [], False, "nothing is made of a part")
        return
    E.assume_tags(st, args[d], G.M.tagset("T_ASSIGN"))
    if d > 1:
        lists(G, st, args, A(1, d))
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name):
        m = Made(p, args)
        ok = m.is_(p.val, L(d) if d == 1 else A(1, d)) and (m.same(p.get(args[d], "tASSIGN_RHS"), args[d + 1]) or m.no("not its value"))
        p.require(name, ok and m.nothing_else(stores=[(args[d].base, "tASSIGN_RHS")]), m.why or "")


def s_parameters(G, E, g, prod, name):
    """(void) are no parameters (obligations is_void_parameter_list/...)"""
    E.contracts["is_void_parameter_list"] = noted("void", lambda E, st, a: E.fresh("isvoid", z3.BitVecSort(1)) == 1)
    st = G.state()
    args = arguments(G, st, prod)
    for p in G.paths(G.run(st, prod.fn, [args[k] for k in sorted(args)]), "total: " + name):
        m = Made(p, args)
        v = order(p, "void")
        ok = len(v) == 1 and m.same(v[0][1][0], args[1]) and (valid(p, tobool(v[0][2])) and m.null(p.val) or valid(p, z3.Not(tobool(v[0][2]))) and m.same(p.val, args[1]))
        p.require(name, ok and m.nothing_else(), m.why or "not the parameters")


SPECIAL = {"comma": s_comma, "minus": s_minus, "integer": s_integer, "float": s_float, "declaration": s_declaration, "pointer": s_pointer,
           "function": s_function, "designated": s_designated, "parameters": s_parameters}

EXPR = lambda p: p.lhs.endswith("expression") or p.lhs == "argument_expression_list"
STMT = lambda p: any(x in p.lhs for x in ("statement", "block_item", "translation_unit", "external_declaration", "function_definition"))
ACTIONS = [rule_of(t, s, f) for t in ("cscript", "repl") for s, f in (
    ("expressions", EXPR), ("statements", lambda p: STMT(p) and not EXPR(p)), ("declarations", lambda p: not EXPR(p) and not STMT(p)))]


def void_list(S):
    """a parameter list is void's: one declaration without a declarator whose specifiers have void"""
    G = Group(S, "is_void_parameter_list")
    g, G.E = engine(S, "cscript")
    E = G.E
    E.contracts["chain_has_T_VOID_TS"] = noted("has", lambda E, st, a: z3.If(E.fresh("has", z3.BitVecSort(1)) == 1, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    st = G.state()
    h = G.node(st, "list", "CHAIN_HEAD")
    def on_elem(E, st, hd, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        G.as_node(st, el)
    def on_loop(E, st, key, entry, phis):
        for v in phis.values():
            if isinstance(v, Ptr):
                G.as_tree(st, v)
        # what the loop carries is the last element, if there has been one
        for c in [v for v in phis.values() if z3.is_bv(v) and v.size() == 32]:
            for v in phis.values():
                if isinstance(v, Ptr):
                    st.pc.append(z3.Or(c == 0, v.base != ZERO64))
    E.on_elem, E.on_loop = on_elem, on_loop
    kinds = set()
    for p in G.paths(G.run(st, "is_void_parameter_list", [h]), ok=("ret", "back")):
        lp = order(p, "loop")
        if not p.require("all", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(h.base), "not all parameters are looked at"):
            continue
        kinds.add(p.out.kind)
        entry, phis, ring = lp[0][2], lp[0][3], lp[0][6]
        cs = [r for r, v in phis.items() if not isinstance(v, Ptr)]
        ls = [r for r, v in phis.items() if isinstance(v, Ptr) and r != ring[2]]
        if not p.require("carried", len(cs) == 1 and len(ls) == 1 and valid(p, z3.And(tobv(entry[cs[0]], 32) == 0, entry[ls[0]].base == ZERO64)), "not the number of parameters and one of them"):
            continue
        if p.out.kind == "back":
            back = order(p, "back")[-1][2]
            hd = E.ring_of(back[ring[2]])
            p.require("next", hd is not None and hd.base.eq(ring[3]), "parameters are skipped")
            p.require("count", z3.And(tobv(back[cs[0]], 32) == tobv(phis[cs[0]], 32) + 1, tobool(p.ptr_eq(back[ls[0]], Ptr(ring[3])))), "parameters aren't counted")
            continue
        n, x = tobv(phis[cs[0]], 32), phis[ls[0]]
        hs = order(p, "has")
        one = z3.And(n == 1, tobool(p.is_tag(x, "T_DECL")))
        bare = z3.And(one, before(p, x, "tDECL_DECLS").base == ZERO64) if valid(p, one) else one
        r = tobv(p.val, 8) if not z3.is_bool(p.val) and not isinstance(p.val, bool) else z3.If(tobool(p.val), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if hs:
            ok = len(hs) == 1 and valid(p, bare) and valid(p, tobool(p.ptr_eq(hs[0][1][0], before(p, x, "tDECL_SPECS"))))
            p.require("void", (z3.Extract(0, 0, r) == 1) == (tobv(hs[0][2], 32) != 0) if ok else False, "not whether the only parameter is void")
        else:
            p.require("void", z3.And(z3.Extract(0, 0, r) == 0, z3.Not(bare)), "not whether the only parameter is void")
        G.frame(p)
    G.paths_ok("reach", [], kinds == {"ret", "back"}, str(kinds))
    return G


void_list.group = "is_void_parameter_list"


# ---- the grammar -------------------------------------------------------------------------------------
class Levels:
    """the levels of the operators that a nonterminal's texts can have outermost"""

    def __init__(self, g):
        self.g = g
        self.by = {}
        for p in g.productions:
            self.by.setdefault(p.lhs, []).append(p)
        self.exprs = {"expression"}
        while True:
            new = set(self.exprs)
            for n in self.exprs:
                for p in self.by.get(n, []):
                    new |= {x for x in (p.rhs[:1] + p.rhs[-1:]) if x in self.by}
            if new == self.exprs:
                break
            self.exprs = new
        self.level = {}
        for n in self.exprs:
            for p in self.by[n]:
                self.level[p] = self.of(p)

    def nt(self, x):
        return x in self.exprs

    def of(self, p):
        """(level, {operand position: (bound, exact)}); the bounds are those of C's grammar"""
        r = p.rhs
        ops = {tok: lv for tok, lv, t, a in BINARY}
        if len(r) == 1:
            return None if self.nt(r[0]) else (0, {})
        if r[0] == "'('" and r[-1] == "')'" and len(r) == 3:
            return (0, {2: 16})
        if len(r) == 3 and self.nt(r[0]) and self.nt(r[2]):
            if r[1] in ops:
                return (ops[r[1]], {1: ops[r[1]], 3: ops[r[1]] - 1})
            if r[1] == "'='" or r[1] in [a[0] for a in ASSIGN]:
                return (15, {1: 2, 3: 15})
            if r[1] == "','":
                return (16, {1: 16, 3: 15})
            return "unknown operator"
        if len(r) == 5 and r[1::2] == ["'?'", "':'"]:
            return (14, {1: 13, 3: 16, 5: 14})
        if self.nt(r[0]):
            # a suffix
            return (1, {1: 1}) if not self.nt(r[-1]) else "unknown form"
        if self.nt(r[-1]):
            if r[0] == "'('":
                return (3, {len(r): 3})
            return (2, {len(r): (2, 3) if r[0] not in ("SIZEOF", "INC", "DEC") else 2})
        if r[0] == "SIZEOF":
            return (2, {})
        return "unknown form"

    def tops(self, n, seen=()):
        out = set()
        for p in self.by.get(n, []):
            if len(p.rhs) == 1 and p.rhs[0] in self.by:
                if p.rhs[0] not in seen:
                    out |= self.tops(p.rhs[0], seen + (n,))
            elif isinstance(self.level.get(p), tuple):
                out.add(self.level[p][0])
        return out


def precedence(target):
    def f(S):
        G = Group(S, "grammar/%s/precedence" % target)
        g = grammar(S, target)
        v = Levels(g)
        there = {l[0] for l in v.level.values() if isinstance(l, tuple)}
        bad = [str(p) for p, c, t in g.solved if not (c == "ELSE" and t == "shift" and p.rhs[:1] == ["IF"])]
        G.paths_ok("unambiguous", [], not bad and g.conflicts == 0, "texts with two meanings: %d %s" % (g.conflicts, bad[:3]))
        G.paths_ok("operators", [], there >= {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, "operators are missing: %s" % sorted(there))
        for p, l in v.level.items():
            if l is None:
                continue
            if not G.paths_ok("form: %s" % p, [], isinstance(l, tuple), str(l)):
                continue
            for i, bounds in l[1].items():
                bounds = bounds if isinstance(bounds, tuple) else (bounds,)
                tops = v.tops(p.rhs[i - 1])
                G.paths_ok("%s/$%d" % (p, i), [], any(tops == {x for x in there if x <= b} for b in bounds), "its operand has the levels %s, not those up to %s" % (sorted(tops), bounds))
        # what stands between commas has no comma of its own; what a declarator's suffixes apply to has no pointers of its own
        for p in g.productions:
            if "','" in p.rhs and p.lhs not in v.exprs:
                for x in p.rhs:
                    if x in v.exprs:
                        G.paths_ok("%s/comma" % p, [], 16 not in v.tops(x), "commas have two meanings")
            if len(p.rhs) == 2 and p.rhs[0] == "pointer":
                def pointers(n, seen):
                    return any(q.rhs[0] == "pointer" or (len(q.rhs) == 1 and q.rhs[0] in v.by and q.rhs[0] not in seen and pointers(q.rhs[0], seen | {n})) for q in v.by[n])
                G.paths_ok("%s/suffix" % p, [], p.rhs[1] in v.by and not pointers(p.rhs[1], set()), "a suffix would apply to the pointers")
        return G
    f.group = "grammar/%s/precedence" % target
    return f


ACTIONS += [void_list, precedence("cscript"), precedence("repl")]
CONSTANTS = [r for r in ACTIONS if r.group.endswith("/expressions")]
