"""What decides each property: obligation groups and battery programs."""
X, F = "specs_expr", "specs_flow"
GC_MODS = ["gc.c", "gc-internal.c", "tree.c", "cscript.c", "repl.c", "evaluate.c", "typename.c", "function-call.c", "preprocess.c", "main.c", "inspect.c"]
EVAL_MODS = ["evaluate.c", "tree.c", "list.c", "function-call.c", "typename.c", "spec-resolver.c"]
FLEX = ("flex: its tables make the scanner take the longest match, the first rule among equals; the automata of the rules and of C's tokens are compared by computation, not by z3; "
        "engine/lexer.py: the extraction of the rules and their actions; positions of tokens are dropped")
PROPS = {
    "C01": dict(level="proof", groups=[(X, "ARITH")]),
    "C02": dict(level="proof", groups=[(X, "COMPARE"), (X, "LOGIC")]),
    "C03": dict(level="proof", groups=[(X, "ASSIGN")]),
    "C04": dict(level="proof", groups=[(X, "CAST")]),
    "C05": dict(level="proof", groups=[(X, "INCDEC")]),
    "C06": dict(level="proof", groups=[(F, "FLOW"), (X, "SELF")]),
    "C07": dict(level="proof", groups=[("specs_call", "VALUES"), ("specs_call", "ARGS"), ("specs_call", "CALLS"), (F, "FLOW"), ("specs_scope", "SCOPE")]),
    "C08": dict(level="proof", groups=[("specs_scope", "SCOPE"), ("specs_decl", "DECLARE"), ("specs_comp", "COMPOUND"), ("specs_comp", "ENUM")]),
    "C09": dict(level="proof", groups=[("specs_type", "RESOLVE"), ("specs_type", "NAMES")]),
    "C10": dict(level="proof", groups=[("specs_comp", "COMPOUND"), ("specs_comp", "MEMBERS"), ("specs_comp", "OBJECTS")]),
    "C13": dict(level="proof", groups=[("specs_comp", "ENUM")]),
    "C11": dict(level="proof", groups=[(X, "PTRARITH"), (X, "POINTERS")]),
    "C14": dict(level="proof", groups=[("specs_call", "EXTERNAL"), ("specs_call", "ARGS"), ("specs_call", "VALUES"), ("specs_lib", "LIBRARY")], modules=EVAL_MODS + ["ffi-types.c", "main.c", "util.c"]),
    "C15": dict(level="proof", groups=[("specs_closure", "ENTRY"), ("specs_closure", "CALLBACK"), ("specs_call", "CALLS")], modules=EVAL_MODS + ["ffi-types.c"]),
    "C16": dict(level="proof", groups=[("specs_gc", "MARK")], modules=GC_MODS),
    "C17": dict(level="proof", groups=[("specs_gc", "TABLE")], modules=GC_MODS),
    "C18": dict(level="proof", groups=[("specs_list", "LIST")], modules=["cscriptparser.c", "list.c", "tree.c", "evaluate.c"]),
    "C12": dict(level="proof", groups=[(X, "SIZE"), ("specs_type", "NAMES")]),
    "C20": dict(level="proof", groups=[("specs_static", "STATIC")]),
    "C21": dict(level="proof", groups=[("specs_main", "STATUS"), (F, "FLOW")], modules=EVAL_MODS + ["cscript.c", "main.c"]),
    "C22": dict(level="proof", groups=[("specs_main", "ARGS")], modules=EVAL_MODS + ["cscript.c", "main.c"]),
    "C28": dict(level="proof", only=r"/(.*/)?(frame|effects)(/|$)", groups=[
        (X, "ARITH"), (X, "COMPARE"), (X, "LOGIC"), (X, "ASSIGN"), (X, "CAST"), (X, "INCDEC"), (X, "PTRARITH"), (X, "POINTERS"), (X, "SIZE"), (X, "SELF"),
        (F, "FLOW"), ("specs_call", "VALUES"), ("specs_call", "ARGS"), ("specs_call", "CALLS"), ("specs_call", "EXTERNAL"), ("specs_scope", "SCOPE"),
        ("specs_decl", "DECLARE"), ("specs_comp", "COMPOUND"), ("specs_comp", "ENUM"), ("specs_comp", "MEMBERS"), ("specs_comp", "OBJECTS"),
        ("specs_static", "STATIC"), ("specs_type", "RESOLVE"), ("specs_type", "NAMES"), ("specs_closure", "ENTRY"), ("specs_cpp", "INCLUDE"), ("specs_text", "REST")],
        modules=EVAL_MODS + ["ffi-types.c", "cscript.c", "main.c", "preprocess.c"]),
    "C19": dict(level="proof", groups=[("specs_name", "NAMES"), ("specs_lex", "WORDS")], modules=["typename.c", "tree.c", "list.c", "evaluate.c"],
                trusted=["bison: its report of the grammar and the automaton's default reductions (the lemma at_once is computed over that report)", FLEX]),
    "C23": dict(level="proof", groups=[("specs_complete", "OFFERS"), ("specs_complete", "MEMBERS"), ("specs_complete", "SPLITS"), ("specs_complete", "PROCESSES"), ("specs_lib", "CONCAT")],
                modules=["util.c", "repl.c", "tree.c", "list.c", "evaluate.c"],
                trusted=["readline: calls the function that it was given with the word to complete, and replaces the word by the first string of the array, or lists the others",
                         "fork, pipe, read, write: what is written to a pipe is read from it, whole and in order; a process of its own changes nothing in the one that goes on",
                         "the C library's string functions (strlen, strncmp, strstr, strdup, strcpy, strcat)"]),
    "C24": dict(level="proof", groups=[("specs_print", "VALUES"), ("specs_print", "INSPECT"), ("specs_print", "PROMPT")],
                modules=["pretty-printer.c", "inspect.c", "repl.c", "tree.c", "list.c", "evaluate.c"],
                trusted=["printf, puts, putchar and gmp_printf print their format with the conversions replaced by the arguments' values"]),
    "C25": dict(level="proof", groups=[("specs_parse", "ACTIONS"), ("specs_list", "LIST"), ("specs_lex", "TOKENS")], modules=["cscriptparser.c", "list.c", "tree.c", "evaluate.c"],
                trusted=["bison: its report of the grammar, the automaton and the skeleton's value stack ($k, $$ = $1); the grammar lemma (levels, associativity, conflicts) is computed over that report, "
                         "not discharged by z3", "engine/actions.py: the extraction of the actions; positions of tokens are dropped", FLEX]),
    "C26": dict(level="proof", groups=[("specs_lex", "TOKENS"), ("specs_lex", "LITERALS"), ("specs_parse", "CONSTANTS")], modules=["cscriptparser.c", "list.c", "tree.c", "evaluate.c"],
                trusted=[FLEX, "GMP: mpz_init_set_str, mpz_init_set_si and mpf_init_set_d give the number that is written or passed, strtod the nearest double, strtol the octal number",
                         "engine/actions.py: the extraction of the parser's actions"]),
    "C27": dict(level="proof", groups=[("specs_cpp", "CPP")], modules=EVAL_MODS + ["cscript.c", "main.c", "preprocess.c"]),
}

LATER = "no contracts written for it yet; "
NOT_APPLICABLE = {
}
