#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
EV, FC = "src/evaluate.c", "src/function-call.c"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Integer arithmetic, bitwise and shift expressions yield C's values",
     "For operands of any integer types, + - * / % & | ^ ~ << >> and unary minus yield the exact integer that C's operator denotes (division "
     "truncates towards zero, the remainder has the dividend's sign, >> of a negative value rounds down), which is reduced to a type's range when "
     "it is stored or cast.  Each operand is evaluated exactly once and no object is changed.  A division by zero or a shift by a negative amount isn't covered.",
     ["inputs", "programs"], "all operand values, all pairs of operand types (constant or object of any integer type), all operand expressions",
     "The tests evaluate a few small positive constants per operator; sign, width and operand-kind combinations are hardly sampled.",
     [EV, "src/tree.c"], ["eval_add, eval_sub, eval_mul, eval_div, eval_mod, eval_i_and, eval_i_or, eval_x_or, eval_lshift, eval_rshift, eval_ones_comp",
      "make_int_from_live_var, get_live_var"])
prop("C02", "Comparison, logical, conditional and comma operators are C's",
     "< > <= >= == != yield 1 or 0 according to the operands' values, ! && || according to whether they are zero, and ?: the value of the selected "
     "operand.  && and || evaluate the right operand, and ?: evaluates its second or third operand, only when the left one calls for it; all else is evaluated exactly once, "
     "and the comma operator evaluates from left to right and yields the last value.",
     ["inputs", "programs"], "all operand values and integer/pointer types, all operand expressions with effects",
     "The tests use a handful of constants; short circuits, unsigned values beyond a long's range, negative values and pointers aren't sampled.",
     [EV], ["eval_lt, eval_gt, eval_lteq, eval_gteq, eval_eq, eval_n_eq, eval_l_or, eval_l_and, eval_negate, eval_infix, eval_expr_list", "convert_to_comparable_type"])
prop("C03", "Assignment stores the converted value, in exactly the object's bytes",
     "An assignment stores the right operand's value, converted to the type of the object as C does (modulo the width for integers), into that object; "
     "exactly the object's bytes change and later reads give the stored value.  The assignment's own value is the object's new value.",
     ["inputs", "programs"], "all values, all object types, all source types and kinds (constant, object, string, pointer)",
     "The tests assign small constants to a few types and never look at neighbouring bytes or at values that don't fit.",
     [EV], ["eval_assign, assign_integer, assign_to_live_var and the per-type assignment generated from ctypes.def", "set_live_var"])
prop("C04", "Casts convert to the named type as C does",
     "A cast yields the operand's value converted to the named type (integers modulo the width with the type's sign, floating values truncated "
     "when converted to an integer), without changing the operand.",
     ["inputs", "programs"], "all operand values, all source and target arithmetic and pointer types",
     "One test file casts a few values between a few types.", [EV], ["eval_cast, handle_*_cast generated from ctypes.def, cast_live_var"])
prop("C05", "Increment and decrement change an object by one unit, exactly once",
     "++ and -- in prefix and postfix position change an integer object by one modulo its width and a pointer by the size of what it points "
     "to; prefix yields the new value, postfix the old one.  The operand is evaluated once and nothing else is changed.",
     ["inputs", "programs"], "all object types, all values, all pointer targets including structures of any size",
     "The tests increment a few ints; overflow, narrow and unsigned types and pointers to aggregates aren't sampled.",
     [EV], ["eval_inc, eval_dec, eval_p_inc, eval_p_dec", "get_ptr_scale / pointer element sizes"])
prop("C06", "Statements, loops, break and return execute in C's order",
     "if executes exactly the branch that its condition selects; while and for test the condition before every iteration and repeat body (and last expression) until "
     "it is zero; statements execute in order, each once.  break leaves exactly the innermost loop, return leaves exactly the innermost function (or ends the program at top level) with "
     "the returned value, from any depth of nesting; every body has a scope of its own.",
     ["programs", "inputs"], "all programs built from these statements, any nesting, any number of iterations",
     "The tests run a few fixed loops; nesting of break and return in loops, blocks and conditions isn't enumerated.",
     [EV], ["eval_if, eval_loop_while, eval_loop_for, eval_block, eval_break, eval_return, evaluate_stmt, __evaluate", "setjmp/longjmp in function calls"])
prop("C07", "A function call binds converted arguments and yields the returned value",
     "Calling a function that the program defines evaluates every argument once in the caller's scope, initialises each parameter with the value converted to its type, executes "
     "the body in a new scope that sees the file's objects but none of its caller's, and yields the returned value converted to the function's return type.  The "
     "caller's scope is current again afterwards and calls with a wrong number of arguments are diagnosed.",
     ["programs", "inputs", "histories"], "all functions, argument lists and call depths, including recursion",
     "The tests call a few functions with a few arguments; conversions, recursion depth and scope isolation aren't sampled together.",
     [FC, EV], ["eval_fn_call, eval_fn_args, handle_fn_def", "push_ctx/pop_ctx, setjmp"])
prop("C08", "Names denote the innermost visible declaration",
     "A name denotes the object of the innermost enclosing scope that declares it, tags of structures and unions live in name spaces of their own, and the use of an undeclared name or a second "
     "declaration of a name in one scope is diagnosed instead of silently picking another object.",
     ["programs", "histories"], "all nestings of scopes and declaration orders",
     "The tests declare a few names in one or two scopes.", [EV], ["resolve_identifier, __resolve_identifier, map_identifier, resolve_id", "per-context id maps"])
prop("C09", "Type specifiers resolve to C's types in any order",
     "Every combination of type specifiers that C allows (without _Bool and _Complex, which are diagnosed) denotes, in whatever order they are written and interspersed with qualifiers and storage classes, the same type as in C; a combination that C doesn't "
     "have is diagnosed.", ["inputs"], "all sequences of specifiers, of any length and order",
     "The tests use a few dozen of the several hundred orders.", ["src/genspecresolver.cpp", "src/c.lang", EV], ["resolve_spec (generated)", "eval_decl's use of it"])
prop("C10", "Structure and union members are laid out as in C",
     "Every member of a structure is placed at the smallest offset after its predecessor that its alignment allows, a union's members all at the start, and size and alignment are those of the "
     "platform's ABI, for nested structures, arrays and pointers too.  Accessing a member reads and writes exactly that member; an unknown member is diagnosed.",
     ["programs", "inputs"], "all structure and union declarations, any nesting and number of members",
     "The tests declare a few structures; layouts are compared with nothing.", [EV], ["expand_compound_decl, instantiate_struct, alloc_struct, eval_comp_access", "get_alignment / size bookkeeping"])
prop("C11", "Pointers, addresses, indexing and pointer arithmetic are C's",
     "&x yields x's address and *p the object at p, of the pointed-to type; a[i] is the object i elements after the first, and p + n, n + p and p - n move by n elements of the pointed-to type, for negative n too.  "
     "Reading and writing by way of a pointer acts on the pointed-to object itself.",
     ["inputs", "programs"], "all pointer targets, indices and offsets",
     "The tests index a few arrays with small non-negative constants.", [EV], ["eval_deref, eval_addr, eval_array_access, pointer arithmetic in eval_add and eval_sub"])
prop("C12", "sizeof yields the platform's sizes",
     "sizeof of a type, object or member yields the size that C has on this platform for it, for the basic types, pointers, arrays, structures and unions.",
     ["inputs", "programs"], "all types and objects", "The tests take the size of a few types.", [EV], ["eval_sizeof, get_size_of_type, get_array_size"])
prop("C13", "Enumerators have C's values",
     "An enumerator without a value is one more than its predecessor, the first is zero, and one with a value has that value; each is a constant that is visible in the "
     "scope of its enumeration.", ["programs", "inputs"], "all enumerations, any mix of explicit (also negative) and implicit values",
     "The tests have few enumerations with few explicit values.", [EV], ["eval_enumerator"])
prop("C14", "External functions get C's arguments and their results come back",
     "A call of an external function passes every argument in order with the declared parameter's type (or the type C's default promotions give it after an ellipsis) and value, and yields the function's "
     "result with the declared return type and value.", ["inputs", "programs"], "all argument types and values, fixed and variable argument lists",
     "The tests call printf, strlen and the like with a few values.", [EV, FC, "src/genffitypes.cpp"], ["eval_ext_fn_call / do_call", "ffi type tables (generated)"])
prop("C15", "Callbacks run the program's function with the caller's arguments",
     "When external code calls a function pointer that it was given for a function of the program, that function runs with exactly the passed argument values and the external caller "
     "gets the value it returns, however often and however much later.", ["programs", "histories"], "all parameter and return types, all call counts",
     "Only qsort and two others are tried.", [FC, EV], ["get_entry_point_for_fn, closure_entry", "handle_addr_fn_def"])
prop("C16", "The garbage collector keeps everything that is still in use",
     "A collection at any time reclaims no object that is reachable from the interpreter's roots, registers or stack by way of any member of any object, so the result of a program doesn't depend on when collections happen.",
     ["histories", "programs"], "all object graphs and all collection times", "A test would have to be unlucky: collections happen every 2000 allocations.",
     ["src/gc.c", "src/gengc.cpp"], ["mark functions (generated), gc"])
prop("C17", "The collector's bookkeeping stays exact",
     "Every live object is known to the collector exactly once and can be found by its address, reclaimed ones are not, and the tables are never read or written beyond their ends, however many allocations there are.",
     ["histories"], "all sequences of allocations and collections", "The tests allocate few objects.", ["src/gc.c"], ["alloc array growth, sort, bsearch, sweep"])
prop("C18", "List operations keep rings well formed",
     "Inserting and removing list elements yields well formed doubly linked rings that contain exactly the expected elements in the expected order.", ["inputs", "histories"], "all rings",
     "Lists are only tested by way of the interpreter.", ["src/list.c", "src/list.h"], ["list_add, list_add_tail, list_del, list_empty"])
prop("C19", "typedef names are types from their declaration on",
     "A name that a typedef declares is read as a type from the end of that declaration on, for any declarator form and any number of declarators, and no other name is; the tags of structures, unions "
     "and enumerations are read as names of their own even if a type has the same name.  (Type names aren't scoped: a name that is a type somewhere isn't accepted as that of an object, a member or a parameter afterwards.)",
     ["programs", "histories"], "all declarator forms, declaration orders and names", "A few typedefs are tried.",
     ["src/typename.c", "src/parser.m4", "src/lex.m4"], ["add_typename, is_typename, maybe_add_typenames, find_ids_to_map_to_typenames", "declaration", "lexer rule of names, compound_start_cond"])
prop("C20", "Static objects keep their value and are initialised once",
     "A static object of a function is initialised the first time its declaration is executed and keeps its value between calls; its name denotes that object whenever the declaration "
     "is executed again, in the scope that it is executed in, and nothing is evaluated again.  Objects of static storage duration without an initialiser start as zero; objects without static start anew in every call.",
     ["histories", "programs"], "all call sequences (recursive ones too), static scalars, arrays, pointers and structures, any number of declarators", "Two small functions are tried.",
     [EV], ["handle_static_decl, eval_evaluator_ctx", "eval_decl", "make_live_var, alloc_struct, alloc_array"])
prop("C21", "The exit status is the program's",
     "The interpreter exits with the value that main (or the program's top level) returns, converted as C does, from any depth of nesting; with zero without one; and with a failure status after any "
     "diagnosed error, be it of the preprocessor, the parser, or the evaluator.  A program that has no main is its top-level code, one that has main is what main does, and a mix of both is diagnosed.",
     ["programs", "inputs"], "all return values and types, all programs, error kinds", "The tests look at few exit values.",
     ["src/cscript.c", "src/main.c", EV], ["__evaluate_cscript, add_call_to_main, cscript_exit, parse_cscript, evaluate_cscript", "main", "get_c_main_return_value, evaluate_stmt, eval_die"])
prop("C22", "A program gets its command line",
     "A program's main gets as many of its parameters as its definition has: the number of command line arguments and their strings in order, the script's name first.  argc and argv are "
     "objects of the top level, which are there before anything of the program is executed.", ["configurations", "inputs"], "all argument lists, all numbers of arguments, all forms of main",
     "One fixed command line is tried.", ["src/cscript.c", "src/main.c"], ["create_arguments, add_call_to_main, __evaluate_cscript", "main"])
prop("C23", "Completion offers exactly the matching names",
     "In the prompt, completing a word that is no member's access offers the names that begin with it of the current scope, the scopes around it and the included headers, and nothing else; "
     "completing expression.prefix or expression->prefix (split at the last operator) offers the members of the structure or union that the expression denotes, or points to, that begin with the prefix, each after what leads to it.  "
     "A single match replaces the word, several are listed in order, none leaves it.  Completing changes no object and no name, whatever the expression does.",
     ["inputs", "histories"], "all words, scopes and objects", "There are no tests of it.", ["src/repl.c", "src/evaluate.c"],
     ["find_global_identifiers, match_identifiers_for_idmap, create_matches_array", "is_compound_access, split_compound_access_text", "get_compound_completion_object, do_compound_completion", "bic_completion, send_matches, recieve_matches"])
prop("C24", "The prompt evaluates each line once and shows the actual value",
     "Before the first line, the file ~/.bic is executed, if it exists.  Every line given at the prompt is evaluated exactly once, in the order of the lines, and its result is shown: an object with the value that its bytes have in its type (integers in decimal with "
     "the type's sign, floating values with six digits, pointers as addresses, with the string if they point to char), a structure or union as its members in order with their names and values, constants, strings and names as what they are.  "
     "?name shows what the name denotes: its type, value, size and, if known, the place of its declaration; no object is changed by it.",
     ["inputs", "histories"], "all types, values, objects and sequences of lines", "A few values are printed.", ["src/pretty-printer.c", "src/inspect.c", "src/repl.c", "src/c.lang"],
     ["pp_live_var, pp_live_compound, __pp_1, pretty_print", "inspect, print_object_type, print_object_value, print_sizeof_object, print_object_locus", "bic_repl, repl_parse_line, repl_do_parse"])
prop("C25", "The parser builds the tree that the source text means",
     "Every construct of the accepted language is turned into the tree of that construct with its parts in their roles (left operand left, condition as condition, statements and declarators in order), with C's precedence and associativity.  "
     "The constructs that the parser doesn't accept (switch, do, continue, unary operators on casts, some compound assignments) aren't covered.",
     ["programs"], "all accepted programs", "The tests parse a few fixed forms.", ["src/parser.m4", "src/lex.m4", "src/tree.c"], ["grammar actions", "tree_chain, tree_chain_head, tree_make_binmod"])
prop("C26", "Literals denote C's values",
     "Decimal, octal and hexadecimal integer constants of any length denote the number that is written, floating constants (digits on both sides of the point) the double nearest to it, and constants of "
     "one character or a supported escape (\\n \\r \\\\) the character's value.  A string contains exactly the written characters and a null character at its end, with the escapes \\n, \\t, \\\", \\\\ and "
     "octal ones (of up to three digits, null characters among them) replaced.  What isn't supported (other escapes, strings without an end, constants of more characters or with L) is diagnosed, but for two plain characters, which aren't covered.",
     ["inputs"], "all literals of any length", "A few short literals are read.", ["src/lex.m4", "src/parser.m4"],
     ["lexer rules of literals and their actions", "lex_char", "sl_begin, sl_append_str, sl_append_char", "primary_expression"])
prop("C27", "Sources are preprocessed with the requested include directories",
     "A script and the #include lines given at the prompt are run through the C preprocessor with exactly the include directories of the command line (-I), in the order in which they were given and whatever their names; at the prompt, all #include lines given so far are preprocessed together, in order, and the declarations of the included files replace those of the former inclusion. The preprocessor's complete output is what is parsed; if it fails, nothing is executed.",
     ["configurations", "histories"], "all command lines and histories of #include lines",
     "The tests use no include directories.", ["src/preprocess.c", "src/main.c", "src/cscript.c", EV], ["run_cpp", "preprocessor_include_dir_opts", "preprocessor_add_include_dir", "parse_args", "parse_cscript", "eval_cpp_include"])
prop("C28", "Executing a program never changes its text",
     "Executing an expression, statement or function any number of times leaves the program itself as it was parsed: the same text executed again in the same state does the same.  "
     "(The interpreter's own caches are allowed: a block-scope static declaration becomes the objects that it made, a function remembers its resolved return type, an incomplete type its definition.)",
     ["programs", "histories"], "all programs and execution histories", "Most test code is executed once.", [EV], ["every node evaluator's frame"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
