"""C28: executing a program doesn't change its text.

Every node evaluator's frame (obligations .../frame of the other modules) says
which members of existing objects it may write; here are the evaluators that
no other property needs, and the nodes that nothing evaluates."""
import z3
from sym import *
from spec import *
import contracts
from specs_main import noted
from specs_scope import c_resolve

# what specs_expr, .. specs_cpp have groups for
COVERED = """T_IDENTIFIER T_FN_CALL T_FN T_DECL T_ASSIGN T_FLOAT T_INTEGER T_STRING T_P_INC T_P_DEC T_INC T_DEC T_ADD T_SUB T_NEGATE T_ONES_COMP
T_X_OR T_I_OR T_I_AND T_LSHIFT T_RSHIFT T_MUL T_DIV T_MOD T_COMMA T_LT T_GT T_LTEQ T_GTEQ T_L_OR T_EQ T_N_EQ T_L_AND T_CAST T_LIVE_VAR T_LIVE_COMPOUND
T_EXTERN T_TYPEDEF T_STATIC T_LOOP_FOR T_LOOP_WHILE T_INFIX T_IF T_BLOCK T_RETURN T_BREAK T_DECL_COMPOUND T_ENUMERATOR T_SIZEOF T_TYPE_SPECIFIER
T_COMP_ACCESS T_ARRAY_ACCESS T_ADDR T_DEREF T_POINTER D_T_VOID CPP_INCLUDE E_CTX T_EXT_FUNC T_EXPR_LIST T_INSPECT T_REPL""".split()


def other(S):
    """nodes that aren't expressions or statements: nothing happens"""
    G = Group(S, "other nodes")
    for n in G.M.names:
        if n in COVERED or n in G.M.ctypes:
            continue
        st = G.state()
        t = G.node(st, "t_" + n, n)
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), "total/" + n):
            p.require("effects/" + n, not p.ev("eval", "selfeval", "stmts", "malloc", "append"), "evaluating has an effect")
            G.frame(p, name="frame/" + n)
    return G


other.group = "other nodes"


def inspect(S):
    """%inspect and repl(): only show or read"""
    G = Group(S, "T_INSPECT, T_REPL")
    E = G.E
    E.contracts["inspect"] = noted("inspect")
    E.contracts["bic_repl"] = noted("repl")
    E.contracts["__resolve_identifier"] = c_resolve
    for n in ("T_INSPECT", "T_REPL"):
        st = G.state()
        t = G.node(st, "t", n)
        if n == "T_INSPECT":
            G.operand(st, t, "tINSPECT_EXP", "T_IDENTIFIER")
        for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), "total/" + n):
            p.require("once/" + n, len(p.ev("inspect", "repl")) == 1, "not shown once")
            G.frame(p, name="frame/" + n)
    return G


inspect.group = "T_INSPECT, T_REPL"

REST = [other, inspect]
