From 0d770a7dfc30a36d14d3270f8991eecf97da927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 01/67] fix: returning a value must not overwrite the
 function's body

eval_return stored the evaluated value in the T_RETURN node of the function's
AST, so every later call that executed the same return statement returned the
value of the first one.
---
 src/evaluate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0860e82..d758730 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,9 +2068,14 @@ static tree eval_if(tree t, int depth)
 
 static tree eval_return(tree t, int depth)
 {
-    tRET_EXP(t) = __evaluate_1(tRET_EXP(t), depth + 1);
+    /* Don't write the value back into `t': it is part of the function's body
+     * and needs to be evaluated again the next time around. */
+    tree ret = tree_make(T_RETURN);
 
-    return t;
+    tLOCUS(ret) = tLOCUS(t);
+    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+
+    return ret;
 }
 
 /* Build a simplified decl chain, ensuring all decls with multiple
-- 
2.43.0


From 15a654ddaaa79cd3fae67c720649809a45a3b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 02/67] fix: break, return and single statement bodies

A `break' inside an `if' didn't leave the loop: the flag was set on the
`if' statement's context, which was popped straight away.  A `break' directly
in the loop's body left the loop's context on the stack.  A `return' or
`break' that was the whole body of an `if' or a loop (no braces) was
evaluated, but it's result was dropped.

Pass an executed `break' back as the result of the statements instead.
---
 src/evaluate.c | 96 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 39 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d758730..f5c2416 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -42,7 +42,7 @@ const tree get_include_chain(void)
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
-static void __evaluate(tree t, int depth);
+static tree __evaluate(tree t, int depth);
 
 enum identifier_search_scope
 {
@@ -1695,8 +1695,6 @@ static tree eval_gteq(tree t, int depth)
 
 static tree eval_break(tree t, int depth)
 {
-    tECTX_SHOULD_BREAK(cur_ctx) = true;
-
     return t;
 }
 
@@ -1978,6 +1976,8 @@ static tree eval_cast(tree t, int depth)
 
 static tree eval_loop_for(tree t, int depth)
 {
+    tree result;
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
@@ -1994,13 +1994,12 @@ static tree eval_loop_for(tree t, int depth)
             break;
 
         push_ctx("For Loop");
-        __evaluate(tFLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        result = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
@@ -2010,6 +2009,8 @@ static tree eval_loop_for(tree t, int depth)
 
 static tree eval_loop_while(tree t, int depth)
 {
+    tree result;
+
     do {
 
         tree cond_result = __evaluate_1(tWLOOP_COND(t),
@@ -2024,13 +2025,12 @@ static tree eval_loop_while(tree t, int depth)
             break;
 
         push_ctx("While Loop");
-        __evaluate(tWLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        result = __evaluate(tWLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
     } while (1);
 
     return NULL;
@@ -2051,19 +2051,21 @@ static tree eval_infix(tree t, int depth)
 
 static tree eval_if(tree t, int depth)
 {
-    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth);
+    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth),
+        result;
 
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
     if (mpz_get_si(tINT_VAL(cond_result)))
-        __evaluate(tIF_TRUE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
-        __evaluate(tIF_ELSE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
     pop_ctx();
 
-    return NULL;
+    /* If a `break' has been executed, pass it on to the enclosing loop. */
+    return result;
 }
 
 static tree eval_return(tree t, int depth)
@@ -2717,39 +2719,55 @@ static tree __evaluate_1(tree t, int depth)
     return result;
 }
 
-static void __evaluate(tree head, int depth)
+/* Evaluate a single statement.  Returns a T_BREAK tree if the statement
+ * completed by executing a `break' that hasn't reached it's loop yet. */
+static tree evaluate_stmt(tree stmt, int depth)
 {
-    tree i;
+    tree result = __evaluate_1(stmt, depth);
 
-    if (!head)
-        return;
+    if (is_T_RETURN(result)) {
+        tree fn_ctx = cur_ctx;
 
-    if (!is_CHAIN_HEAD(head))
-        __evaluate_1(head, depth);
+        while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
+            fn_ctx = tECTX_PARENT_CTX(fn_ctx);
 
-    for_each_tree(i, head) {
-        tree result = __evaluate_1(i, depth);
+        /* If we reach the top of the evaluation stack, we have been
+         * executing a cscript and the top-level of it has called return. In
+         * that case, just return the result.
+         */
+        if (!fn_ctx)
+            cscript_exit(tRET_EXP(result));
 
-        if (is_T_RETURN(result)) {
-            tree fn_ctx = cur_ctx;
+        tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
+        longjmp(tECTX_JMP_BUF(fn_ctx), 1);
+    }
 
-            while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
-                fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+    return result;
+}
 
-            /* If we reach the top of the evaluation stack, we have been
-             * executing a cscript and the top-level of it has called return. In
-             * that case, just return the result.
-             */
-            if (!fn_ctx)
-                cscript_exit(tRET_EXP(result));
+/* Evaluate a statement or a chain of statements in the current context.
+ * Returns a T_BREAK tree if a `break' was executed, NULL otherwise. */
+static tree __evaluate(tree head, int depth)
+{
+    tree i, result;
 
-            tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
-            longjmp(tECTX_JMP_BUF(fn_ctx), 1);
-        }
+    if (!head)
+        return NULL;
+
+    if (!is_CHAIN_HEAD(head)) {
+        result = evaluate_stmt(head, depth);
+
+        return is_T_BREAK(result) ? result : NULL;
+    }
+
+    for_each_tree(i, head) {
+        result = evaluate_stmt(i, depth);
 
         if (is_T_BREAK(result))
-            return;
+            return result;
     }
+
+    return NULL;
 }
 
 int get_c_main_return_value(tree t)
-- 
2.43.0


From 161643cafd52547b73a7bc22ceb084d981a5b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 03/67] fix: nested compound statements

A compound statement inside another block was chained by it's own CHAIN_HEAD,
which tied the two statement chains together: the inner statements were
skipped.  Give compound statements a tree of their own.
---
 src/c.lang     |  3 +++
 src/evaluate.c | 12 ++++++++++++
 src/parser.m4  |  6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index 82aebba..e16df29 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -139,6 +139,9 @@
 (deftype T_VOLATILE "volatile type qualifier")
 
 (deftype T_EMPTY "Empty block")
+(deftype T_BLOCK "Compound statement" "tBLOCK"
+         ("STMTS"))
+
 (deftype T_EXPR_LIST "Expression List" "tEXPR_LIST"
          ("CHAIN"))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index f5c2416..41af6fa 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,6 +2068,17 @@ static tree eval_if(tree t, int depth)
     return result;
 }
 
+static tree eval_block(tree t, int depth)
+{
+    tree result;
+
+    push_ctx("Compound statement");
+    result = __evaluate(tBLOCK_STMTS(t), depth + 1);
+    pop_ctx();
+
+    return result;
+}
+
 static tree eval_return(tree t, int depth)
 {
     /* Don't write the value back into `t': it is part of the function's body
@@ -2691,6 +2702,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_LOOP_WHILE: result = eval_loop_while(t, depth + 1); break;
     case T_INFIX:      result = eval_infix(t, depth + 1);      break;
     case T_IF:         result = eval_if(t, depth + 1);         break;
+    case T_BLOCK:      result = eval_block(t, depth + 1);      break;
     case T_RETURN:     result = eval_return(t, depth + 1);     break;
     case T_BREAK:      result = eval_break(t, depth + 1);      break;
     case T_DECL_COMPOUND:result = eval_decl_compound(t, depth + 1);break;
diff --git a/src/parser.m4 b/src/parser.m4
index 2634589..0dbedae 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1416,6 +1416,12 @@ CSCRIPT_ONLY
     statement
     : expression_statement
     | compound_statement
+    {
+        tree block = tree_make(T_BLOCK);
+        tBLOCK_STMTS(block) = $1;
+        set_locus(block, @1);
+        $$ = block;
+    }
     | selection_statement
     | iteration_statement
     | jump_statement
-- 
2.43.0


From 924397d0461bb13ea4ad82262924a6c52fd0a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 04/67] fix: integer division truncates towards zero

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 41af6fa..af80bf5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1564,7 +1564,8 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_div(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    /* C's division truncates towards zero. */
+    mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
 }
-- 
2.43.0


From e11b953afe197c64a9dc993c553a0b6eb171b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 05/67] fix: right shift of a negative value is arithmetic

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index af80bf5..bf582f5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1452,7 +1452,8 @@ static tree eval_rshift(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_tdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    /* Arithmetic shift: round towards negative infinity. */
+    mpz_fdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
 
     return ret;
 }
-- 
2.43.0


From 8bf07d29fd4a8702f5f605e94aec057e15c314ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 06/67] fix: unsigned variables keep values above LONG_MAX

---
 src/evaluate.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index bf582f5..c5c448c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -316,18 +316,23 @@ static tree make_int_from_live_var(tree var)
         case type:                                                         \
             mpz_init_set_si(tINT_VAL(ret), (ptrdiff_t)tLV_VAL(var)->type); \
             break;
+#define SETUINT(type)                                                      \
+        case type:                                                         \
+            mpz_init_set_ui(tINT_VAL(ret), tLV_VAL(var)->type);            \
+            break;
         SETINT(D_T_CHAR);
         SETINT(D_T_SHORT);
         SETINT(D_T_INT);
         SETINT(D_T_LONG);
         SETINT(D_T_LONGLONG);
-        SETINT(D_T_UCHAR);
-        SETINT(D_T_USHORT);
-        SETINT(D_T_UINT);
-        SETINT(D_T_ULONG);
-        SETINT(D_T_ULONGLONG);
+        SETUINT(D_T_UCHAR);
+        SETUINT(D_T_USHORT);
+        SETUINT(D_T_UINT);
+        SETUINT(D_T_ULONG);
+        SETUINT(D_T_ULONGLONG);
         SETINT(D_T_PTR);
 #undef SETINT
+#undef SETUINT
     default:
         eval_die(var, "Could not create integer type from live var.");
     }
-- 
2.43.0


From d1a09a3b64c0cae94b3d7187405dae883092cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 07/67] fix: convert assigned and cast values to the
 destination's type

The value of a live variable was always read as a long (or double) no matter
what type it has, and integers above LONG_MAX were clamped rather than
wrapped.
---
 src/evaluate.c | 152 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 113 insertions(+), 39 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c5c448c..ee8d077 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1147,23 +1147,88 @@ static tree eval_decl(tree t, int depth)
     return ret;
 }
 
+/* Obtain the value of an integer modulo 2^64, this is what a conversion to a C
+ * integer type starts from. */
+static unsigned long int integer_to_ulong(tree integer)
+{
+    unsigned long int val = mpz_get_ui(tINT_VAL(integer));
+
+    return mpz_sgn(tINT_VAL(integer)) < 0 ? -val : val;
+}
+
+/* Obtain the value of a floating point object. `long double' represents the
+ * values of all types exactly. */
+static long double get_float_val(tree t)
+{
+    if (is_T_FLOAT(t))
+        return mpf_get_d(tFLOAT_VAL(t));
+
+    switch (TYPE(tLV_TYPE(t))) {
+    case D_T_FLOAT:
+        return tLV_VAL(t)->D_T_FLOAT;
+    case D_T_DOUBLE:
+        return tLV_VAL(t)->D_T_DOUBLE;
+    case D_T_LONGDOUBLE:
+        return tLV_VAL(t)->D_T_LONGDOUBLE;
+    default:
+        eval_die(t, "could not obtain value of non-float type");
+    }
+}
+
+static bool is_float_val(tree t)
+{
+    if (is_T_FLOAT(t))
+        return true;
+
+    return is_T_LIVE_VAR(t) && (is_D_T_FLOAT(tLV_TYPE(t)) ||
+                                is_D_T_DOUBLE(tLV_TYPE(t)) ||
+                                is_D_T_LONGDOUBLE(tLV_TYPE(t)));
+}
+
 static void assign_integer(tree var, tree right)
 {
-    signed long int val;
+    unsigned long int val;
+
+    if (is_float_val(right)) {
+        long double float_val = get_float_val(right);
+
+        switch (TYPE(tLV_TYPE(var))) {
+#define SETINT(TNAME)                                        \
+        case TNAME:                                          \
+            tLV_VAL(var)->TNAME = (TNAME##_t)float_val;      \
+            break;
+        SETINT(D_T_CHAR);
+        SETINT(D_T_SHORT);
+        SETINT(D_T_INT);
+        SETINT(D_T_LONG);
+        SETINT(D_T_LONGLONG);
+        SETINT(D_T_UCHAR);
+        SETINT(D_T_USHORT);
+        SETINT(D_T_UINT);
+        SETINT(D_T_ULONG);
+        SETINT(D_T_ULONGLONG);
+#undef SETINT
+        default:
+            eval_die(var, "could not assign to non-integer type");
+        }
+
+        return;
+    }
 
     /* Obtain the value with which to assign. */
     switch (TYPE(right))
     {
     case T_INTEGER:
-         val = mpz_get_si(tINT_VAL(right));
-         break;
+        break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_LONG;
+        right = make_int_from_live_var(right);
         break;
     default:
         eval_die(right, "unknown rvalue assignment to integer.\n");
     }
 
+    val = integer_to_ulong(right);
+
     switch (TYPE(tLV_TYPE(var))) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)         \
             case TNAME:                                  \
@@ -1178,22 +1243,27 @@ static void assign_integer(tree var, tree right)
 
 static void assign_float(tree var, tree right)
 {
-    double val;
+    long double val;
 
     /* Obtain the value with which to assign. */
-    switch (TYPE(right))
-    {
-    case T_INTEGER:
-        val = (double)mpz_get_si(tINT_VAL(right));
-         break;
-    case T_FLOAT:
-        val = (double)mpf_get_d(tFLOAT_VAL(right));
-        break;
-    case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_DOUBLE;
-        break;
-    default:
-        eval_die(right, "unknown rvalue assignment to float.\n");
+    if (is_float_val(right))
+        val = get_float_val(right);
+    else {
+        switch (TYPE(right))
+        {
+        case T_INTEGER:
+            break;
+        case T_LIVE_VAR:
+            right = make_int_from_live_var(right);
+            break;
+        default:
+            eval_die(right, "unknown rvalue assignment to float.\n");
+        }
+
+        if (mpz_sgn(tINT_VAL(right)) < 0)
+            val = mpz_get_si(tINT_VAL(right));
+        else
+            val = mpz_get_ui(tINT_VAL(right));
     }
 
     switch (TYPE(tLV_TYPE(var))) {
@@ -1201,7 +1271,10 @@ static void assign_float(tree var, tree right)
         tLV_VAL(var)->D_T_FLOAT = (float)val;
         break;
     case D_T_DOUBLE:
-        tLV_VAL(var)->D_T_DOUBLE = val;
+        tLV_VAL(var)->D_T_DOUBLE = (double)val;
+        break;
+    case D_T_LONGDOUBLE:
+        tLV_VAL(var)->D_T_LONGDOUBLE = val;
         break;
     default:
         eval_die(var, "could not assign to non-float type");
@@ -1218,10 +1291,10 @@ static void assign_ptr(tree var, tree right)
         ptr = track_alloc(strdup(tSTRING_VAL(right)));
         break;
     case T_LIVE_VAR:
-        ptr = (void *)tLV_VAL(right)->D_T_PTR;
-        break;
+        right = make_int_from_live_var(right);
+        /* Fall through. */
     case T_INTEGER:
-        ptr = (void *)mpz_get_ui(tINT_VAL(right));
+        ptr = (void *)integer_to_ulong(right);
         break;
     default:
         eval_die(right, "Could not assign to non-pointer type");
@@ -1230,20 +1303,15 @@ static void assign_ptr(tree var, tree right)
     tLV_VAL(var)->D_T_PTR = ptr;
 }
 
-static tree eval_assign(tree t, int depth)
+/* Assign `right' to the live variable `left', converting the value to `left's
+ * type. */
+static void assign_value(tree t, tree left, tree right)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
-
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
         break;
-    case D_T_FLOAT ... D_T_DOUBLE:
+    case D_T_FLOAT ... D_T_LONGDOUBLE:
         assign_float(left, right);
         break;
     case D_T_PTR:
@@ -1252,6 +1320,18 @@ static tree eval_assign(tree t, int depth)
     default:
         eval_die(t, "Unknown assignment rvalue type.");
     }
+}
+
+static tree eval_assign(tree t, int depth)
+{
+    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+
+    /* Ensure we have a valid lvalue. */
+    if (!is_T_LIVE_VAR(left))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    assign_value(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
      * a rvalue. */
@@ -1848,15 +1928,9 @@ static tree eval_cast(tree t, int depth)
         dest_type = __evaluate_1(tCAST_NEWTYPE(t), depth + 1),
         ret;
 
-    if (is_T_INTEGER(source)) {
-        tree lv = make_live_var(dest_type);
-        assign_integer(lv, source);
-        return lv;
-    }
-
-    if (is_T_FLOAT(source)) {
+    if (is_T_INTEGER(source) || is_T_FLOAT(source)) {
         tree lv = make_live_var(dest_type);
-        assign_float(lv, source);
+        assign_value(t, lv, source);
         return lv;
     }
 
-- 
2.43.0


From 93fe0751b6c0f2ccb0b04ca30361fd957289c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 08/67] fix: an assignment's value is the value of the assigned
 object

---
 src/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index ee8d077..726afa4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1334,8 +1334,8 @@ static tree eval_assign(tree t, int depth)
     assign_value(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
-     * a rvalue. */
-    return right;
+     * a rvalue.  This is the value after conversion to the type of `left'. */
+    return left;
 }
 
 static void live_var_add(tree var, unsigned long int val)
-- 
2.43.0


From 8683fcfc451e166c97a241c9b77d87c14953d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 09/67] fix: any non-zero condition is true

---
 src/evaluate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 726afa4..98d31b0 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2071,7 +2071,7 @@ static tree eval_loop_for(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("For Loop");
@@ -2102,7 +2102,7 @@ static tree eval_loop_while(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("While Loop");
@@ -2124,7 +2124,7 @@ static tree eval_infix(tree t, int depth)
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         return __evaluate_1(tINFIX_TRUE_STMT(t), depth + 1);
     else
         return __evaluate_1(tINFIX_FALSE_STMT(t), depth + 1);
@@ -2139,7 +2139,7 @@ static tree eval_if(tree t, int depth)
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
         result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
-- 
2.43.0


From 93e9f2ebf7b6f221322fb0c7ee9de771e2346ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 10/67] fix: a for loop without a condition

---
 src/evaluate.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 98d31b0..c114858 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2063,16 +2063,17 @@ static tree eval_loop_for(tree t, int depth)
 
     do {
 
-        tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                        depth + 1);
-
-        cond_result = convert_to_comparable_type(cond_result, depth + 1);
+        /* A missing condition is always true. */
+        if (!is_T_EMPTY(tFLOOP_COND(t))) {
+            tree cond_result = convert_to_comparable_type(tFLOOP_COND(t),
+                                                          depth);
 
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
+            if (!is_T_INTEGER(cond_result))
+                eval_die(t, "Unknown condition result");
 
-        if (!mpz_sgn(tINT_VAL(cond_result)))
-            break;
+            if (!mpz_sgn(tINT_VAL(cond_result)))
+                break;
+        }
 
         push_ctx("For Loop");
         result = __evaluate(tFLOOP_STMTS(t), depth + 1);
-- 
2.43.0


From a0d0fc46dbfb54df44851977fe3a9e81330786ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 11/67] fix: scope of the declaration in a for loop

---
 src/evaluate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index c114858..d6e1e5c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2059,6 +2059,10 @@ static tree eval_loop_for(tree t, int depth)
 {
     tree result;
 
+    /* Objects that are declared by the loop itself are only in scope for the
+     * duration of the loop. */
+    push_ctx("For Loop Declaration");
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
@@ -2086,6 +2090,8 @@ static tree eval_loop_for(tree t, int depth)
 
     } while (1);
 
+    pop_ctx();
+
     return NULL;
 }
 
-- 
2.43.0


From 7614129c443c63847dfc865ab5f2cfe269de0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 12/67] fix: subtraction of a constant and unary minus

A '-' in front of a number was always lexed as a part of the number, making
`3 -1' a syntax error.
---
 src/lex.m4    |  4 ++--
 src/parser.m4 | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 66c8db2..a35180a 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,8 +195,8 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
--?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
--?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
+[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
diff --git a/src/parser.m4 b/src/parser.m4
index 0dbedae..bfd1e4b 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -330,6 +330,22 @@ unary_expression
     set_locus(deref, @1);
     $$ = deref;
 }
+| '-' unary_expression
+{
+    if (is_T_INTEGER($2)) {
+        mpz_neg(tINT_VAL($2), tINT_VAL($2));
+        $$ = $2;
+    } else if (is_T_FLOAT($2)) {
+        mpf_neg(tFLOAT_VAL($2), tFLOAT_VAL($2));
+        $$ = $2;
+    } else {
+        tree minus = tree_make(T_SUB);
+        tSUB_LHS(minus) = get_integer(0);
+        tSUB_RHS(minus) = $2;
+        set_locus(minus, @1);
+        $$ = minus;
+    }
+}
 | '~' unary_expression
 {
     tree comp = tree_make(T_ONES_COMP);
-- 
2.43.0


From 119fbbdb0f223db4335664c9807c51cc82a57a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 13/67] fix: octal integer constants

---
 src/lex.m4 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index a35180a..4f636fe 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,7 +195,8 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
-[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+0[0-7]*                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
+[1-9][0-9]*                     mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
 [0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
-- 
2.43.0


From c27a8e2b9e7c85ab3eea652d9b96b111864f8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 14/67] fix: alignment and padding of nested structs, unions
 and arrays

---
 src/c.lang     |  1 +
 src/evaluate.c | 30 ++++++++++++++----------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index e16df29..cbb6b92 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -178,6 +178,7 @@
 (deftype T_DECL_COMPOUND "Compound Declataion" "tCOMP_DECL"
          ("ID" "DECLS"
                ("SZ" sz)
+               ("ALIGN" sz)
                ("EXPANDED" flag)
                ("TYPE"  comp_decl_type)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index d6e1e5c..0df574d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2243,27 +2243,18 @@ static size_t get_alignment_for_type(tree t, int depth)
              * array's base type. */
             tree array_type = tDTPTR_EXP(tLV_TYPE(t));
 
-            alignment = get_size_of_type(array_type, depth);
+            alignment = get_alignment_for_type(array_type, depth);
         }
         else
             alignment = get_size_of_type(tLV_TYPE(t), depth);
         break;
     }
     case T_LIVE_COMPOUND:
-    {
-        tree first_member = NULL;
-
-        for_each_tree(first_member, tLV_COMP_MEMBERS(t))
-            break;
-
-        if (!first_member)
-            eval_die(t, "First member not found in live compound");
-
-        first_member = tEMAP_RIGHT(first_member);
-
-        alignment = get_alignment_for_type(first_member, depth);
-    }
-    break;
+        alignment = get_alignment_for_type(tLV_COMP_DECL(t), depth);
+        break;
+    case T_DECL_COMPOUND:
+        alignment = tCOMP_DECL_ALIGN(t);
+        break;
     case D_T_CHAR...D_T_PTR:
         alignment = get_size_of_type(t, depth);
         break;
@@ -2278,7 +2269,7 @@ static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
-    size_t max_member_sz = 0;
+    size_t max_member_sz = 0, max_member_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
      *
@@ -2358,6 +2349,9 @@ static tree eval_decl_compound(tree t, int depth)
 
         tDECL_OFFSET(decl) = offset + padding_size;
 
+        if (member_alignment > max_member_alignment)
+            max_member_alignment = member_alignment;
+
         if (tCOMP_DECL_TYPE(t) == sstruct)
             offset += padding_size + member_size;
         else {
@@ -2374,6 +2368,10 @@ static tree eval_decl_compound(tree t, int depth)
     else
         tCOMP_DECL_SZ(t) = max_member_sz;
 
+    /* Pad the compound so that each element of an array of them is aligned. */
+    tCOMP_DECL_SZ(t) += -tCOMP_DECL_SZ(t) & (max_member_alignment - 1);
+    tCOMP_DECL_ALIGN(t) = max_member_alignment;
+
     tCOMP_DECL_EXPANDED(t) = 1;
 
     return t;
-- 
2.43.0


From 0add82f139584da942d56b6e66f8cec44ca68592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 15/67] fix: negative enumerators

---
 src/evaluate.c | 6 +++---
 src/tree.h     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0df574d..baa9cc3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2380,7 +2380,7 @@ static tree eval_decl_compound(tree t, int depth)
 static tree eval_enumerator(tree t, int depth)
 {
     tree enum_expr, enum_base_type = tree_make(ENUMTYPE);
-    unsigned int enum_val = 0;
+    long enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
     if (!tENUM_ENUMS(t))
@@ -2410,7 +2410,7 @@ static tree eval_enumerator(tree t, int depth)
                 convert_to_comparable_type(tASSIGN_RHS(enum_expr), depth);
 
             enum_id = tASSIGN_LHS(enum_expr);
-            enum_val = (unsigned int)mpz_get_ui(tINT_VAL(new_val));
+            enum_val = mpz_get_si(tINT_VAL(new_val));
 
             break;
         }
@@ -2418,7 +2418,7 @@ static tree eval_enumerator(tree t, int depth)
             eval_die(t, "Unknown enumerator expression\n");
         }
 
-        mpz_init_set_ui(tINT_VAL(integer), enum_val);
+        mpz_init_set_si(tINT_VAL(integer), enum_val);
         map_identifier(enum_id, integer);
         enum_val++;
     }
diff --git a/src/tree.h b/src/tree.h
index 38238a1..8ea03c7 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -57,7 +57,7 @@ union value {
 
 /* The underlying type that is used to represent a live enumeration
  * value. */
-#define ENUMTYPE D_T_UINT
+#define ENUMTYPE D_T_INT
 
 #include "tree-base.h"
 
-- 
2.43.0


From 43fc1ff78f7a747a195cc50aa9442b9b8e4e0cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 16/67] fix: pass all bits of an integer to external functions

---
 src/evaluate.c      | 18 +++++++++---------
 src/evaluate.h      |  1 +
 src/function-call.c |  8 +++++---
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index baa9cc3..09bfbe9 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -366,6 +366,15 @@ static tree convert_to_comparable_type(tree t, int depth)
     return ret;
 }
 
+/* Obtain the value of an integer modulo 2^64, this is what a conversion to a C
+ * integer type starts from. */
+unsigned long int integer_to_ulong(tree integer)
+{
+    unsigned long int val = mpz_get_ui(tINT_VAL(integer));
+
+    return mpz_sgn(tINT_VAL(integer)) < 0 ? -val : val;
+}
+
 #define DEFCTYPE(tname, desc, ctype, fmt, ffmem)                        \
     static inline tree convert_int_to_##tname(tree intval)              \
     {                                                                   \
@@ -1147,15 +1156,6 @@ static tree eval_decl(tree t, int depth)
     return ret;
 }
 
-/* Obtain the value of an integer modulo 2^64, this is what a conversion to a C
- * integer type starts from. */
-static unsigned long int integer_to_ulong(tree integer)
-{
-    unsigned long int val = mpz_get_ui(tINT_VAL(integer));
-
-    return mpz_sgn(tINT_VAL(integer)) < 0 ? -val : val;
-}
-
 /* Obtain the value of a floating point object. `long double' represents the
  * values of all types exactly. */
 static long double get_float_val(tree t)
diff --git a/src/evaluate.h b/src/evaluate.h
index 2be051a..2d4596d 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,6 +17,7 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+unsigned long int integer_to_ulong(tree integer);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
diff --git a/src/function-call.c b/src/function-call.c
index 5e9df69..3e66641 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -89,9 +89,11 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
                 break;
             case T_INTEGER:
                 {
-                    int *buf = alloca(sizeof(int));
-                    *buf = mpz_get_si(tINT_VAL(arg));
-                    push_arg(types, vals, &n, &ffi_type_sint, buf, should_promote);
+                    /* Pass all 64 bits, as the value might be that of a
+                     * `long' expression. */
+                    long *buf = alloca(sizeof(long));
+                    *buf = integer_to_ulong(arg);
+                    push_arg(types, vals, &n, &ffi_type_slong, buf, should_promote);
                     break;
                 }
             case T_FLOAT:
-- 
2.43.0


From a1b954d34f6a21feb11e70d0977b874c878e2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 17/67] fix: enumeration types in type names and compound
 members

---
 src/evaluate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 09bfbe9..310508d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -667,7 +667,8 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
         decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type))
+    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
+        || is_T_ENUMERATOR(decl_type))
         decl_type = __evaluate_1(decl_type, depth + 1);
 
     void *base = tLV_COMP_BASE(live_struct);
@@ -2550,7 +2551,8 @@ static tree eval_type_specifier(tree t, int depth)
     tree type =  resolve_decl_specs_to_type(tTYPE_SPECIFIER_SPECS(t)),
         decl = tTYPE_SPECIFIER_DECL(t);
 
-    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type))
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type)
+        || is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
     while (is_T_POINTER(decl)) {
-- 
2.43.0


From 9a3b410d5e2aa2a61aff2e3b6b6120fe4e6177de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 18/67] fix: convert a returned value to the function's return
 type

---
 src/evaluate.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 310508d..8c4889f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -389,6 +389,8 @@ unsigned long int integer_to_ulong(tree integer)
 #undef DEFCTYPE
 
 
+static void assign_value(tree t, tree left, tree right);
+
 static tree eval_fn_args(tree args, int depth)
 {
     tree arg, ret = tree_make(CHAIN_HEAD);
@@ -518,8 +520,20 @@ static tree eval_fn_call(tree t, int depth)
                 return_val = tECTX_RETVAL(cur_ctx);
             }
 
+            /* The value that is returned must have the function's return type.
+             * It also can't be kept in memory that is owned by the callee's
+             * context, since that context is going away. */
+            inhibit_gc();
             pop_ctx();
 
+            if (return_val && is_CTYPE(tFN_RET_TYPE(function))) {
+                tree ret_lv = make_live_var(tFN_RET_TYPE(function));
+                assign_value(t, ret_lv, return_val);
+                return_val = ret_lv;
+            }
+
+            enable_gc();
+
             return return_val;
         } else {
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
-- 
2.43.0


From 2124a54b1d98f5c352bc808dbca1d4e8df6cfdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 19/67] fix: functions with a void parameter list

---
 src/parser.m4 | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index bfd1e4b..5dba051 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -58,6 +58,22 @@ static void maybe_add_typenames(tree decl)
         find_ids_to_map_to_typenames(decl);
 }
 
+/* Return true if the parameter list consists of nothing but `void', i.e. the
+ * function doesn't have any parameters. */
+static bool is_void_parameter_list(tree params)
+{
+    tree i, first = NULL;
+    int num_params = 0;
+
+    for_each_tree(i, params) {
+        first = i;
+        num_params++;
+    }
+
+    return num_params == 1 && is_T_DECL(first) && !tDECL_DECLS(first) &&
+        chain_has_T_VOID_TS(tDECL_SPECS(first));
+}
+
 CSCRIPT_ONLY
     void TARGET()_parser_set_file(const char *fname)
     {
@@ -1153,6 +1169,9 @@ type_qualifier_list
 
 parameter_type_list
 : parameter_list
+{
+    $$ = is_void_parameter_list($1) ? NULL : $1;
+}
 | parameter_list ',' ELLIPSIS
 {
     tree_chain(tree_make(T_VARIADIC), $1);
-- 
2.43.0


From 4b22c8caaee5f5a4e10f39f3f05b1115a51d4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 20/67] fix: definitions of functions that return a pointer

---
 src/parser.m4 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 5dba051..172620c 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -79,6 +79,16 @@ CSCRIPT_ONLY
     {
         TARGET()_current_file = fname;
     }
+
+    /* A function that returns a pointer has a declarator where the function is
+     * wrapped in pointers. */
+    static tree get_fn_of_declarator(tree declarator)
+    {
+        while (is_T_POINTER(declarator))
+            declarator = tPTR_EXP(declarator);
+
+        return declarator;
+    }
 ALL_TARGETS
 
 %}
@@ -1599,7 +1609,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $4;
+        tFN_STMTS(get_fn_of_declarator($2)) = $4;
         set_locus(decl, @2);
         $$ = decl;
     }
@@ -1608,7 +1618,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $3;
+        tFN_STMTS(get_fn_of_declarator($2)) = $3;
         set_locus(decl, @2);
         $$ = decl;
     }
-- 
2.43.0


From b959b57dfd698edad0c6a9841729407d0e58dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 21/67] fix: hand a callback's return value to its caller

---
 src/function-call.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/function-call.c b/src/function-call.c
index 3e66641..9cd58ee 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -130,6 +130,8 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tree closure = (tree)user;
     tree arg,
         args = tCLOSURE_ARG_TYPES(closure),
+        ret_type = tCLOSURE_RET_TYPE(closure),
+        result,
         arg_chain = tree_make(CHAIN_HEAD),
         fn_call = tree_make(T_FN_CALL);
     int n = 0;
@@ -156,7 +158,36 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tFNCALL_ID(fn_call) = tCLOSURE_FN(closure);
     tFNCALL_ARGS(fn_call) = arg_chain;
 
-    evaluate(fn_call, "<PTRCALL>");
+    result = evaluate_expr(fn_call);
+
+    if (!result || !is_T_LIVE_VAR(result))
+        return;
+
+    /* Hand the returned value over to libffi, which expects integers that are
+     * smaller than a register to have been widened. */
+    switch (TYPE(ret_type)) {
+#define RETINT(TNAME, WIDE_TYPE)                                        \
+    case TNAME:                                                         \
+        *(WIDE_TYPE *)ret = tLV_VAL(result)->TNAME;                     \
+        break;
+    RETINT(D_T_CHAR, ffi_sarg);
+    RETINT(D_T_SHORT, ffi_sarg);
+    RETINT(D_T_INT, ffi_sarg);
+    RETINT(D_T_LONG, ffi_sarg);
+    RETINT(D_T_LONGLONG, ffi_sarg);
+    RETINT(D_T_UCHAR, ffi_arg);
+    RETINT(D_T_USHORT, ffi_arg);
+    RETINT(D_T_UINT, ffi_arg);
+    RETINT(D_T_ULONG, ffi_arg);
+    RETINT(D_T_ULONGLONG, ffi_arg);
+    RETINT(D_T_FLOAT, float);
+    RETINT(D_T_DOUBLE, double);
+    RETINT(D_T_LONGDOUBLE, long double);
+    RETINT(D_T_PTR, void *);
+#undef RETINT
+    default:
+        break;
+    }
 }
 
 void *get_entry_point_for_fn(tree fndef)
-- 
2.43.0


From a3429eeadf40f4876f2de3f3aa507b5895de51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 22/67] fix: keep callbacks alive that external code holds on
 to

---
 src/function-call.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/function-call.c b/src/function-call.c
index 9cd58ee..897104d 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -12,6 +12,11 @@
 
 #define ARG_STACK_SZ 32
 
+/* Entry points can be called at any time after they have been handed out, so
+ * closures must never be collected. */
+static tree closures = NULL;
+GC_STATIC_TREE(closures);
+
 static void push_arg(ffi_type **type_stack,
                      void **val_stack,
                      int *n,
@@ -244,5 +249,10 @@ void *get_entry_point_for_fn(tree fndef)
                          (void *)closure,
                          ret);
 
+    if (!closures)
+        closures = tree_make(CHAIN_HEAD);
+
+    tree_chain(closure, closures);
+
     return ret;
 }
-- 
2.43.0


From 05fc9d7411e413c8bf3e6dc93fa58cb0e078dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 23/67] fix: main's return value is the exit status

---
 src/cscript.c  | 6 +++++-
 src/evaluate.c | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 52310a5..fd8979b 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -121,7 +121,11 @@ static void add_call_to_main(tree head, int num_args)
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
 
-    tree_chain(main_fncall, head);
+    /* The value that main() returns is the script's exit status. */
+    tree ret = tree_make(T_RETURN);
+    tRET_EXP(ret) = main_fncall;
+
+    tree_chain(ret, head);
 }
 
 static void __evaluate_cscript(tree head, const char *fname, int argc,
diff --git a/src/evaluate.c b/src/evaluate.c
index 8c4889f..59be9c7 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2887,7 +2887,13 @@ static tree __evaluate(tree head, int depth)
 int get_c_main_return_value(tree t)
 {
     int ret;
-    tree retnum = convert_to_comparable_type(t, 0);
+    tree retnum;
+
+    /* No value has been returned. */
+    if (!t)
+        return 0;
+
+    retnum = convert_to_comparable_type(t, 0);
 
     if (!is_T_INTEGER(retnum))
         return 1;
-- 
2.43.0


From b19d8e25e0ef5a8417219cf9ee1199faf58a6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 24/67] fix: the garbage collector's allocation array bounds

---
 src/gc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 3498258..87eb437 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -134,10 +134,8 @@ static void fixup_alloc_array()
 
     /* Run the alloc pointer backward to see when the first allocation
      * is. */
-    while (alloc_ptr > 0 && !allocs[alloc_ptr])
+    while (alloc_ptr > 0 && !allocs[alloc_ptr - 1])
         alloc_ptr--;
-
-    alloc_ptr++;
 }
 
 static void collect(void)
@@ -172,7 +170,8 @@ static void extend_allocs()
     alloc_array_sz *= 2;
 
     allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0, old_alloc_array_sz);
+    memset(&allocs[old_alloc_array_sz], 0,
+           sizeof(*allocs) * (alloc_array_sz - old_alloc_array_sz));
 }
 
 static void track_new_alloc(gc_obj obj)
-- 
2.43.0


From 8274cd7a31e0f9252b43b35761640808d84610fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 25/67] fix: the garbage collector visits each object once

---
 src/gengc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gengc.cpp b/src/gengc.cpp
index a3a70b9..09b11c4 100644
--- a/src/gengc.cpp
+++ b/src/gengc.cpp
@@ -51,7 +51,8 @@ static void outputPreamble(FILE *f)
           "{\n"
           "    tree t;\n"
           "\n"
-          "    if (!obj)\n"
+          "    /* Nothing to do if the object has already been visited. */\n"
+          "    if (!obj || obj->reachable)\n"
           "        return;\n"
           "\n"
           "    obj->reachable = 1;\n"
-- 
2.43.0


From d9aece8dbb27fad897d5f99c44179ffcfbca3258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 26/67] fix: lifetime of string literals

---
 src/evaluate.c | 2 +-
 src/gc.c       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 59be9c7..4a0808b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1303,7 +1303,7 @@ static void assign_ptr(tree var, tree right)
     switch (TYPE(right))
     {
     case T_STRING:
-        ptr = track_alloc(strdup(tSTRING_VAL(right)));
+        ptr = tSTRING_VAL(right);
         break;
     case T_LIVE_VAR:
         right = make_int_from_live_var(right);
diff --git a/src/gc.c b/src/gc.c
index 87eb437..3de1b99 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -96,7 +96,8 @@ static void dealloc_object(gc_obj obj)
         free(tID_STR(t));
         break;
     case T_STRING:
-        free(tSTRING_VAL(t));
+        /* The program might hold a pointer to the string, string literals have
+         * static storage duration. */
         break;
     case E_ALLOC:
         free(tALLOC_PTR(t));
-- 
2.43.0


From 6cbefb5bbfdeaeb291fe83e3154f3c5198236634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 27/67] fix: diagnose access to an unknown compound member

---
 src/evaluate.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 4a0808b..2ea6e57 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2444,7 +2444,8 @@ static tree eval_enumerator(tree t, int depth)
 static tree eval_comp_access(tree t, int depth)
 {
     tree left = __evaluate_1(tCOMP_ACCESS_OBJ(t), depth + 1),
-        id = tCOMP_ACCESS_MEMBER(t);
+        id = tCOMP_ACCESS_MEMBER(t),
+        member;
 
     if (!is_T_LIVE_COMPOUND(left))
         eval_die(t, "Unknown compound type in compound access\n");
@@ -2452,7 +2453,12 @@ static tree eval_comp_access(tree t, int depth)
     if (!is_T_IDENTIFIER(id))
         eval_die(t, "Unknown accessor in compound access\n");
 
-    return __resolve_id(id, tLV_COMP_MEMBERS(left));
+    member = __resolve_id(id, tLV_COMP_MEMBERS(left));
+
+    if (!member)
+        eval_die(t, "No member named %s in compound\n", tID_STR(id));
+
+    return member;
 }
 
 static tree eval_repl(tree t, int depth)
-- 
2.43.0


From 7387095623c38e14ea5b375ce155d3bebfdedd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 28/67] fix: negative array indices

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 2ea6e57..3277f36 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2488,7 +2488,7 @@ static tree eval_array_access(tree t, int depth)
     if (!is_T_INTEGER(index))
         eval_die(index, "Unknown index type\n");
 
-    idx = mpz_get_ui(tINT_VAL(index));
+    idx = integer_to_ulong(index);
 
     base = tLV_VAL(array)->D_T_PTR;
 
-- 
2.43.0


From 960b907972f66fde6663cfbaf7f46b1469a68bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 29/67] fix: pointer arithmetic is in units of the pointed to
 type

---
 src/evaluate.c | 107 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 95 insertions(+), 12 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3277f36..b51412c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1353,9 +1353,67 @@ static tree eval_assign(tree t, int depth)
     return left;
 }
 
-static void live_var_add(tree var, unsigned long int val)
+static bool is_live_ptr(tree t)
+{
+    return is_T_LIVE_VAR(t) && is_D_T_PTR(tLV_TYPE(t));
+}
+
+/* Obtain the size of the objects that a pointer of type `ptr_type' points to.
+ * As with GCC, that's one for pointers to void and functions. */
+static size_t get_pointee_size(tree ptr_type, int depth)
+{
+    tree pointee = tDTPTR_EXP(ptr_type);
+
+    if (is_D_T_VOID(pointee) || is_T_FN(pointee))
+        return 1;
+
+    return get_size_of_type(pointee, depth);
+}
+
+/* Obtain a pointer that is `offset' objects away from `ptr'. */
+static tree offset_ptr(tree t, tree ptr, tree offset, bool subtract, int depth)
+{
+    tree ret = make_live_var(tLV_TYPE(ptr));
+    size_t sz;
+
+    if (is_T_LIVE_VAR(offset))
+        offset = make_int_from_live_var(offset);
+
+    if (!is_T_INTEGER(offset))
+        eval_die(t, "Could not offset pointer by non-integer type\n");
+
+    sz = integer_to_ulong(offset) * get_pointee_size(tLV_TYPE(ptr), depth);
+
+    if (subtract)
+        sz = -sz;
+
+    tLV_VAL(ret)->D_T_PTR = tLV_VAL(ptr)->D_T_PTR + sz;
+
+    return ret;
+}
+
+/* Obtain the value of a live variable, which doesn't change when the variable
+ * does. */
+static tree get_live_var_value(tree var)
+{
+    tree ret;
+
+    if (!is_live_ptr(var))
+        return make_int_from_live_var(var);
+
+    ret = make_live_var(tLV_TYPE(var));
+    tLV_VAL(ret)->D_T_PTR = tLV_VAL(var)->D_T_PTR;
+
+    return ret;
+}
+
+static void live_var_add(tree var, unsigned long int val, int depth)
 {
     tree type = tLV_TYPE(var);
+
+    if (is_D_T_PTR(type))
+        val *= get_pointee_size(type, depth);
+
     switch (TYPE(type)) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)        \
         case TNAME:                                     \
@@ -1368,9 +1426,13 @@ static void live_var_add(tree var, unsigned long int val)
     }
 }
 
-static void live_var_sub(tree var, unsigned long int val)
+static void live_var_sub(tree var, unsigned long int val, int depth)
 {
     tree type = tLV_TYPE(var);
+
+    if (is_D_T_PTR(type))
+        val *= get_pointee_size(type, depth);
+
     switch (TYPE(type)) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)        \
         case TNAME:                                     \
@@ -1390,9 +1452,9 @@ static tree eval_post_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
+    ret = get_live_var_value(exp);
 
-    live_var_add(exp, 1);
+    live_var_add(exp, 1, depth);
 
     return ret;
 }
@@ -1404,9 +1466,9 @@ static tree eval_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    live_var_add(exp, 1);
+    live_var_add(exp, 1, depth);
 
-    ret = make_int_from_live_var(exp);
+    ret = get_live_var_value(exp);
 
     return ret;
 }
@@ -1418,8 +1480,8 @@ static tree eval_post_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
-    live_var_sub(exp, 1);
+    ret = get_live_var_value(exp);
+    live_var_sub(exp, 1, depth);
     return ret;
 }
 
@@ -1430,8 +1492,8 @@ static tree eval_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    live_var_sub(exp, 1);
-    ret = make_int_from_live_var(exp);
+    live_var_sub(exp, 1, depth);
+    ret = get_live_var_value(exp);
     return ret;
 }
 
@@ -1472,8 +1534,15 @@ static tree eval_add(tree t, int depth)
 {
     tree left = __evaluate_1(tADD_LHS(t), depth + 1);
     tree right = __evaluate_1(tADD_RHS(t), depth + 1);
+    tree ret;
 
-    tree ret = tree_make(T_INTEGER);
+    if (is_live_ptr(left))
+        return offset_ptr(t, left, right, false, depth);
+
+    if (is_live_ptr(right))
+        return offset_ptr(t, right, left, false, depth);
+
+    ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
     /* Resolve all identifiers. */
@@ -1495,10 +1564,24 @@ static tree eval_sub(tree t, int depth)
 {
     tree left = __evaluate_1(tSUB_LHS(t), depth + 1);
     tree right = __evaluate_1(tSUB_RHS(t), depth + 1);
+    tree ret;
 
-    tree ret = tree_make(T_INTEGER);
+    if (is_live_ptr(left) && !is_live_ptr(right))
+        return offset_ptr(t, left, right, true, depth);
+
+    ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
+    if (is_live_ptr(left) && is_live_ptr(right)) {
+        ptrdiff_t difference =
+            tLV_VAL(left)->D_T_PTR - tLV_VAL(right)->D_T_PTR;
+
+        mpz_set_si(tINT_VAL(ret), difference /
+                   (ptrdiff_t)get_pointee_size(tLV_TYPE(left), depth));
+
+        return ret;
+    }
+
     if (is_T_LIVE_VAR(left))
         left = make_int_from_live_var(left);
 
-- 
2.43.0


From 28d0741aad1f2b3e8d33c0edfd69e198233c500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 30/67] fix: convert arguments of external functions to the
 parameter's type

---
 src/evaluate.c | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index b51412c..1be3217 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -391,9 +391,36 @@ unsigned long int integer_to_ulong(tree integer)
 
 static void assign_value(tree t, tree left, tree right);
 
-static tree eval_fn_args(tree args, int depth)
+/* Convert an argument to the arithmetic type of the parameter that it is passed
+ * to. */
+static tree convert_arg(tree param, tree arg, int depth)
 {
-    tree arg, ret = tree_make(CHAIN_HEAD);
+    tree type, ret;
+
+    if (!is_T_DECL(param))
+        return arg;
+
+    /* Pointers don't need any conversion. */
+    if (tDECL_DECLS(param) && !is_T_IDENTIFIER(tDECL_DECLS(param)))
+        return arg;
+
+    type = resolve_decl_specs_to_type(tDECL_SPECS(param));
+
+    if (is_T_IDENTIFIER(type))
+        type = __evaluate_1(type, depth + 1);
+
+    if (!is_CTYPE(type) || is_D_T_PTR(type))
+        return arg;
+
+    ret = make_live_var(type);
+    assign_value(arg, ret, arg);
+
+    return ret;
+}
+
+static tree eval_fn_args(tree args, tree params, int depth)
+{
+    tree arg, param = params, ret = tree_make(CHAIN_HEAD);
 
     if (!args)
         return NULL;
@@ -401,6 +428,18 @@ static tree eval_fn_args(tree args, int depth)
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
         tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+
+        /* Step to the next parameter, until the parameters run out. */
+        if (param && !is_T_VARIADIC(param)) {
+            param = list_entry(param->chain.next, typeof(*param), chain);
+
+            if (param == params)
+                param = NULL;
+            else
+                tFNARG_EXP(fn_arg) = convert_arg(param, tFNARG_EXP(fn_arg),
+                                                 depth);
+        }
+
         tree_chain(fn_arg, ret);
     }
 
@@ -559,7 +598,7 @@ static tree eval_fn_call(tree t, int depth)
 
             /* Evaluate all arguments before passing into the marshalling
              * function. */
-            fn_arg_chain = eval_fn_args(args, depth);
+            fn_arg_chain = eval_fn_args(args, tFN_ARGS(function), depth);
 
             if (!is_D_T_VOID(tFN_RET_TYPE(function)))
                 ret_lv = make_live_var(tFN_RET_TYPE(function));
@@ -601,7 +640,7 @@ static tree eval_fn_call(tree t, int depth)
 
         /* Evaluate all arguments before passing into the marshalling
          * function. */
-        fn_arg_chain = eval_fn_args(args, depth);
+        fn_arg_chain = eval_fn_args(args, tFN_ARGS(function_type), depth);
 
         do_ext_call(tLV_VAL(function)->D_T_PTR, fn_arg_chain, ret_lv,
                     is_variadic ? &variadic_pos : NULL);
-- 
2.43.0


From a1aaab300964913f8f339402076d0bcd9174e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 31/67] fix: evaluate all arguments in the caller's context

---
 src/evaluate.c | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1be3217..7bcaf82 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -480,11 +480,6 @@ static tree eval_fn_call(tree t, int depth)
                 arg_vals = tFNCALL_ARGS(t),
                 arg_decl, arg_val, return_val, fn_ctx;
 
-            push_ctx(tID_STR(tFN_DECL(function)));
-            tECTX_IS_FN_CALL(cur_ctx) = true;
-
-            fn_ctx = cur_ctx;
-
             if (arg_decls) {
                 size_t no_decls = 0, no_vals = 0;
                 /* Ensure that the number of parameters passed to the
@@ -500,44 +495,34 @@ static tree eval_fn_call(tree t, int depth)
                 if (no_vals != no_decls)
                     eval_die(t, "Invalid number of parameters to function\n");
 
+                /* All arguments need to be evaluated in the context of the
+                 * caller.  Otherwise the parameters that have already been
+                 * declared would hide the caller's objects of the same
+                 * name. */
+                arg_vals = eval_fn_args(arg_vals, NULL, depth);
+            }
+
+            push_ctx(tID_STR(tFN_DECL(function)));
+            tECTX_IS_FN_CALL(cur_ctx) = true;
+
+            fn_ctx = cur_ctx;
+
+            if (arg_decls) {
                 /* Evaluate an assignment for each passed value. */
                 arg_val = arg_vals;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree eval_arg_val,
-                        decl_identifier,
+                    tree decl_identifier,
                         assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    /* We need to evaluate the argument value before
-                     * adding the declaration on to the new context.  This
-                     * prevents bugs with things such as:
-                     *
-                     * 0: int foo(int a)
-                     * 1: {
-                     * 2:      use(a);
-                     * 3: }
-                     * 4:
-                     * 5: int main()
-                     * 6: {
-                     * 7:     int a = 10;
-                     * 8:     foo(a);
-                     * 9: }
-                     *
-                     * Notice that if we evaluated 'int a' on line 0
-                     * first, then we evaluate the assignment 'a = a' the
-                     * lhs would evaluate to the newly declared 'a' value.
-                     * Therefore, if we evaluate 'a' on line 8 before the
-                     * declaration on line 0, we obtain the correct lvalue
-                     * for assignment. */
-                    eval_arg_val = __evaluate_1(arg_val, depth + 1);
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
-                    tASSIGN_RHS(assign) = eval_arg_val;
+                    tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     __evaluate_1(assign, depth + 1);
                 }
             }
-- 
2.43.0


From 9639f1519b683b8ecb8cc6bbe4d5f846f77e69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 32/67] fix: the objects of a function's caller aren't in scope

---
 src/evaluate.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7bcaf82..c599fe1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -23,6 +23,11 @@
 static tree cur_ctx = NULL;
 GC_STATIC_TREE(cur_ctx);
 
+/* This is the context that holds all objects that are visible from within any
+ * function. */
+static tree toplevel_ctx = NULL;
+GC_STATIC_TREE(toplevel_ctx);
+
 /* This holds the evaluator state after the evaluation of any #include
  * directives.  */
 static tree include_ctx = NULL;
@@ -173,7 +178,11 @@ static tree __resolve_identifier(tree id,
         if (search_result)
             return search_result;
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        /* The objects of a function's caller aren't in scope. */
+        if (tECTX_IS_FN_CALL(search_ctx))
+            search_ctx = toplevel_ctx;
+        else
+            search_ctx = tECTX_PARENT_CTX(search_ctx);
     }
 
     /* Also search the include_ctx if it exists. */
@@ -3086,5 +3095,6 @@ void eval_init(void)
     push_ctx("Bultins");
     eval_init_builtins();
     push_ctx("Toplevel");
+    toplevel_ctx = cur_ctx;
     include_chain = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 76e0877a13f77a3c40c74ffaec88de285d475bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 33/67] fix: a declaration's initialiser must not overwrite its
 declarator

---
 src/evaluate.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c599fe1..9d1ee8b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -869,12 +869,16 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
     case T_ASSIGN:
     {
         tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
+        tree assign = tree_make(T_ASSIGN);
 
         /* handle_declarator will have stripped off any pointers from the decl name.
-         * Therefore ret now becomes the LHS of the assignment. */
-        tASSIGN_LHS(decl) = ret;
+         * Therefore ret now becomes the LHS of the assignment.  Don't write it back
+         * into `decl': its pointers are needed when it's evaluated again. */
+        tLOCUS(assign) = tLOCUS(decl);
+        tASSIGN_LHS(assign) = ret;
+        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
 
-        __evaluate_1(decl, depth + 1);
+        __evaluate_1(assign, depth + 1);
         return ret;
     }
     default:
-- 
2.43.0


From 7be2821646189d200a9b988589699a819e294ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 34/67] fix: a function can be declared before it is defined

---
 src/evaluate.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9d1ee8b..f5114fb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -850,13 +850,18 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
             return handle_declarator(id, fn, depth);
         }
 
-        /* Allow a declaration (not a definition!) of a funcion to be repeated. */
-        if (!tFN_STMTS(fn)) {
-            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
+        previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
 
-            if (previous_decl)
-                return previous_decl;
-    }
+        /* Allow a declaration (not a definition!) of a funcion to be repeated. */
+        if (!tFN_STMTS(fn) && previous_decl)
+            return previous_decl;
+
+        /* Anything that refers to the declaration of a function calls the
+         * function once it has been defined. */
+        if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+            tree_copy(previous_decl, fn);
+            return decl;
+        }
 
         map_identifier(tFN_DECL(fn), fn);
         return decl;
-- 
2.43.0


From 2907ee467d80649b641c33b3e37578073f517a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 35/67] fix: list_splice must close the joined ring

---
 src/list.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/list.c b/src/list.c
index 4592def..a629bfc 100644
--- a/src/list.c
+++ b/src/list.c
@@ -32,11 +32,14 @@ void list_splice(list *from, list *head)
     list *first = from->next;
     list *end = from->prev;
 
-    first->prev = head;
-    head->next = first;
+    if (list_empty(from))
+        return;
 
+    first->prev = head;
     end->next = head->next;
+
     head->next->prev = end;
+    head->next = first;
 }
 
 int list_empty(list *head)
-- 
2.43.0


From 48c31bb9f62450b5cad20428789cc85a428cfab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 36/67] fix: keep the chain of evaluated arguments alive while
 parameters are bound

---
 src/evaluate.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f5114fb..8004c5b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -517,15 +517,17 @@ static tree eval_fn_call(tree t, int depth)
             fn_ctx = cur_ctx;
 
             if (arg_decls) {
-                /* Evaluate an assignment for each passed value. */
-                arg_val = arg_vals;
+                /* Evaluate an assignment for each passed value. The values are
+                 * only reachable through the head of their chain, so the
+                 * iteration has to hold on to it. */
+                arg_decl = arg_decls;
 
-                for_each_tree(arg_decl, arg_decls) {
+                for_each_tree(arg_val, arg_vals) {
                     tree decl_identifier,
                         assign;
 
-                    arg_val = list_entry(arg_val->chain.next,
-                                         typeof(*arg_val), chain);
+                    arg_decl = list_entry(arg_decl->chain.next,
+                                          typeof(*arg_decl), chain);
 
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
-- 
2.43.0


From a492c749dfc3d6ed0453a293684fd22d70e8e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 37/67] fix: a typedef at the prompt is parsed twice

---
 src/repl.c     |  6 +++++-
 src/typename.c | 13 +++++++++++++
 src/typename.h |  2 ++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index c64d807..c64ae97 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -399,7 +399,7 @@ static tree repl_do_parse(char *line)
 
 static tree repl_parse_line(char *line)
 {
-    tree stmt;
+    tree stmt, last_typename = typename_last();
     char *line_after_cpp;
     /* Parsing a line happens in two passes.  We firstly parse the
      * line as given by the user to see whether we are including a
@@ -415,6 +415,10 @@ static tree repl_parse_line(char *line)
 
     stmt = repl_do_parse(line);
 
+    /* The names that a typedef declares don't become types until the second
+     * pass has seen their declaration. */
+    typename_forget_after(last_typename);
+
     if (!stmt)
         return NULL;
 
diff --git a/src/typename.c b/src/typename.c
index edc5b79..ae77e97 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -54,6 +54,19 @@ void typename_init(void)
     add_typename(get_identifier("_Float128"));
 }
 
+/* Return the type name that was added last. */
+tree typename_last(void)
+{
+    return list_entry(type_names->chain.prev, typeof(*type_names), chain);
+}
+
+/* Forget all type names that have been added since LAST was the last one. */
+void typename_forget_after(tree last)
+{
+    while (typename_last() != last)
+        tree_unchain(typename_last());
+}
+
 int is_typename(tree typename)
 {
     tree i;
diff --git a/src/typename.h b/src/typename.h
index cd9af85..8a0eb83 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -5,4 +5,6 @@ void typename_unset_include_file(void);
 void reset_include_typenames(void);
 void add_typename(tree typename);
 void typename_init(void);
+tree typename_last(void);
+void typename_forget_after(tree last);
 int is_typename(tree typename);
-- 
2.43.0


From 644cd91379d9ad3084af3fa04d1f05784ac295bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 38/67] fix: names in a compound's member declarations are
 those of its scope

The types of members were resolved again whenever an object was created, in
the scope of that object, and tags and enumerators that are defined inside of
a compound were lost.
---
 src/c.lang     |  5 +++--
 src/evaluate.c | 61 +++++++++++++++++++++++++++++---------------------
 2 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index cbb6b92..996931b 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -169,8 +169,9 @@
          ("BASE_TYPE" "SZ"))
 
 (deftype T_DECL "Declaration" "tDECL"
-         ("SPECS" "DECLS"
-          ("OFFSET" sz)))
+         ("SPECS" "DECLS" "TYPE"
+          ("OFFSET" sz)
+          ("SZ" sz)))
 
 (deftype T_TYPE_SPECIFIER "Type specifier" "tTYPE_SPECIFIER"
          ("SPECS" "DECL"))
diff --git a/src/evaluate.c b/src/evaluate.c
index 8004c5b..af48b6c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -713,13 +713,9 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base);
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 {
     tree live_element,
-        decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+        decl_type = tDECL_TYPE(decl),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
-        || is_T_ENUMERATOR(decl_type))
-        decl_type = __evaluate_1(decl_type, depth + 1);
-
     void *base = tLV_COMP_BASE(live_struct);
 
     if (is_T_FN(decl_element)) {
@@ -735,10 +731,9 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
         decl_element = tBITFIELD_DECLARATOR(decl_element);
 
     if (is_T_ARRAY(decl_element)) {
-        size_t array_sz = get_array_size(decl_element, decl_type, depth);
         live_element = instantiate_array(decl_element, decl_type,
                                          base + tDECL_OFFSET(decl),
-                                         array_sz);
+                                         tDECL_SZ(decl));
 
         __map_identifer(tARRAY_DECL(decl_element), live_element,
                         tLV_COMP_MEMBERS(live_struct));
@@ -2343,12 +2338,26 @@ static tree eval_return(tree t, int depth)
  *         char f;
  *     };
  */
-static tree expand_decl_chain(tree decl_chain)
+static tree expand_decl_chain(tree decl_chain, int depth)
 {
     tree tmp, decl, declarator, new_chain = tree_make(CHAIN_HEAD);
 
     for_each_tree_safe(decl, tmp, decl_chain) {
-        if (is_T_DECL(decl) && tDECL_DECLS(decl))
+        tree decl_type;
+
+        if (!is_T_DECL(decl))
+            continue;
+
+        /* The names of the types of members are those of the scope that the
+         * compound is declared in.  This also declares the tags and enumerators
+         * of any types that are defined here. */
+        decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
+
+        if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
+            || is_T_ENUMERATOR(decl_type))
+            decl_type = __evaluate_1(decl_type, depth + 1);
+
+        if (tDECL_DECLS(decl))
             for_each_tree(declarator, tDECL_DECLS(decl)) {
                 tree new_decl = tree_make(T_DECL);
 
@@ -2360,6 +2369,7 @@ static tree expand_decl_chain(tree decl_chain)
 
                 tDECL_SPECS(new_decl) = tDECL_SPECS(decl);
                 tDECL_DECLS(new_decl) = declarator;
+                tDECL_TYPE(new_decl) = decl_type;
 
                 tree_chain(new_decl, new_chain);
             }
@@ -2421,35 +2431,37 @@ static tree eval_decl_compound(tree t, int depth)
     if (!tCOMP_DECL_DECLS(t)) {
         tree ret = resolve_compound(t, SCOPE_GLOBAL);
 
-        if (!ret)
-            return handle_forward_decl(t);
+        if (!ret) {
+            handle_forward_decl(t);
+            ret = resolve_compound(t, SCOPE_GLOBAL);
+        }
 
         return ret;
     }
 
-    /* We map to ourselves here so that any references to the same
+    /* We map the compound here so that any references to the same
      * compound in the decls will result in a reference to the
      * struct_decl.  Also check to see if there are any forward
      * declarations of the type.  If there are, copy 't' to the
      * unresolved decl and use that as our new 't' so all referencies
-     * to it will be updated.*/
+     * to it will be updated.  Otherwise use a copy of 't', since it may
+     * be evaluated again in another scope. */
     if (struct_id) {
         tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
 
         if (forward_decl) {
             tree_copy(forward_decl, t);
             t = forward_decl;
-        } else
+        } else {
+            t = alloc_copy_tree(t);
             map_compound(t, t);
-    }
-
-    /* Don't attempt to expand an already expanded struct. */
-    if (tCOMP_DECL_EXPANDED(t))
-        return t;
+        }
+    } else
+        t = alloc_copy_tree(t);
 
     /* Expand the compound decl chain so each decl can have it's own
      * offset.  */
-    tCOMP_DECL_DECLS(t) = expand_decl_chain(tCOMP_DECL_DECLS(t));
+    tCOMP_DECL_DECLS(t) = expand_decl_chain(tCOMP_DECL_DECLS(t), depth);
 
     /* Populate the decls with their offsets, as well as the total
      * size of the compound. */
@@ -2462,14 +2474,10 @@ static tree eval_decl_compound(tree t, int depth)
          * within the new evaluation ctx, resolve the identifier back
          * to it's live var and finally pass that through a sizeof()
          * evaluation.
-         *
-         * NOTE: we don't evaluate the types of the decls here as we
-         * could create a loop back to ourselves (when declaring a
-         * pointer to the same struct).  Instead, we evaluate all decl
-         * types at struct installation time. */
+         */
         push_ctx("Compound Declaration");
 
-        id = __evaluate_1(decl, depth + 1);
+        id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
@@ -2490,6 +2498,7 @@ static tree eval_decl_compound(tree t, int depth)
             padding_size = (~offset + 1) & (member_alignment - 1);
 
         tDECL_OFFSET(decl) = offset + padding_size;
+        tDECL_SZ(decl) = member_size;
 
         if (member_alignment > max_member_alignment)
             max_member_alignment = member_alignment;
-- 
2.43.0


From 181b8beb786850321246be04cb180b89208a4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 39/67] fix: diagnose the redefinition of a compound

---
 src/evaluate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index af48b6c..06e9b8c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2450,6 +2450,9 @@ static tree eval_decl_compound(tree t, int depth)
         tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
 
         if (forward_decl) {
+            if (!is_E_INCOMP_TYPE(forward_decl))
+                eval_die(t, "Redefinition of %s\n", tID_STR(struct_id));
+
             tree_copy(forward_decl, t);
             t = forward_decl;
         } else {
-- 
2.43.0


From 5c9bf139ff0cd80169d76f0a6116c1d4b4bb4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 40/67] fix: enumeration tags aren't names of objects

---
 src/evaluate.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 06e9b8c..f355a12 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2537,13 +2537,26 @@ static tree eval_enumerator(tree t, int depth)
     long enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
-    if (!tENUM_ENUMS(t))
-        return __evaluate_1(tENUM_NAME(t), depth + 1);
+    if (!tENUM_ENUMS(t)) {
+        enum_base_type = __resolve_identifier(tENUM_NAME(t), SCOPE_GLOBAL,
+                                              STRUCT_TYPE);
+
+        if (!enum_base_type || !is_CTYPE(enum_base_type))
+            eval_die(t, "Could not resolve enumeration %s.\n",
+                     tID_STR(tENUM_NAME(t)));
+
+        return enum_base_type;
+    }
 
     /* Whenever we encounter this decl, we wish to treat it as just a
-     * normal integer. */
-    if (tENUM_NAME(t))
-        map_identifier(tENUM_NAME(t), enum_base_type);
+     * normal integer.  The name space of tags isn't that of objects. */
+    if (tENUM_NAME(t)) {
+        if (__resolve_identifier(tENUM_NAME(t), SCOPE_CURRENT_CTX, STRUCT_TYPE))
+            eval_die(t, "Redefinition of %s\n", tID_STR(tENUM_NAME(t)));
+
+        __map_identifer(tENUM_NAME(t), enum_base_type,
+                        tECTX_STRUCT_ID_MAP(cur_ctx));
+    }
 
     /* Allocate a number for each member of the enumerator and map the
      * identifier to the value. */
-- 
2.43.0


From 80aa59d4a8acf79ae824527a473f356aa4293145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 41/67] fix: diagnose type specifiers that are combined with a
 type's name

---
 src/genspecresolver.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/genspecresolver.cpp b/src/genspecresolver.cpp
index 2b5fc7b..ada3138 100644
--- a/src/genspecresolver.cpp
+++ b/src/genspecresolver.cpp
@@ -18,7 +18,7 @@ static void outputPreamble(FILE *output)
           "\n"
           "tree resolve_decl_specs_to_type(tree decl_specs)\n"
           "{\n"
-          "    tree i;\n"
+          "    tree i, self = NULL;\n"
           "    unsigned int spec_bitstring = 0;\n"
           "\n", output);
 }
@@ -75,7 +75,10 @@ static std::map<std::string, int> outputBitStirngSetLoop(const lang &lang, FILE
         for (auto selfSpecifier : lang.selfSpecifiers ) {
             fprintf(output, "        case %s:\n", selfSpecifier.c_str());
         }
-        fputs("            return i;\n", output);
+        fputs("            if (self)\n"
+              "                eval_die(i, \"more than one type in declaration specifier\\n\");\n"
+              "            self = i;\n"
+              "            break;\n", output);
     }
 
     // Output any ignored specifiers.
@@ -98,7 +101,13 @@ static std::map<std::string, int> outputBitStirngSetLoop(const lang &lang, FILE
 static void outputTypeReturn(const lang &lang, FILE *output,
                              std::map<std::string, int> bitAllocs)
 {
-    fputs("    switch(spec_bitstring)\n"
+    fputs("    if (self) {\n"
+          "        if (spec_bitstring)\n"
+          "            eval_die(self, \"more than one type in declaration specifier\\n\");\n"
+          "        return self;\n"
+          "    }\n"
+          "\n"
+          "    switch(spec_bitstring)\n"
           "    {\n", output);
 
     for (auto specMap : lang.specMaps) {
-- 
2.43.0


From f56cb76945450697c15315fcc968ee57b90b0418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 42/67] fix: the storage classes auto and register

---
 src/c.lang | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index 996931b..727129b 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -316,6 +316,8 @@
 (defspecifier :ignore T_EXTERN)
 (defspecifier :ignore T_TYPEDEF)
 (defspecifier :ignore T_STATIC)
+(defspecifier :ignore T_AUTO)
+(defspecifier :ignore T_REGISTER)
 (defspecifier :self T_IDENTIFIER)
 (defspecifier :self T_DECL_COMPOUND)
 (defspecifier :self T_ENUMERATOR)
-- 
2.43.0


From cf4846efd6db73da7d0ed24ef0c4002d04cd9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 43/67] fix: members of an array type that has a name

---
 src/evaluate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index f355a12..e428ca6 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -730,6 +730,13 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
     if (is_T_BITFIELD(decl_element))
         decl_element = tBITFIELD_DECLARATOR(decl_element);
 
+    if (is_T_ARRAY_TYPE(decl_type)) {
+        tree array = tree_make(T_ARRAY);
+        tARRAY_DECL(array) = decl_element;
+        decl_type = tARRAY_TYPE_BASE_TYPE(decl_type);
+        decl_element = array;
+    }
+
     if (is_T_ARRAY(decl_element)) {
         live_element = instantiate_array(decl_element, decl_type,
                                          base + tDECL_OFFSET(decl),
-- 
2.43.0


From 1e9e95cf036086ef157ab4a6441732706a1d1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 44/67] fix: a function can be defined after an extern
 declaration

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e428ca6..e32bc26 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -862,7 +862,8 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
 
         /* Anything that refers to the declaration of a function calls the
          * function once it has been defined. */
-        if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+        if ((is_T_FN(previous_decl) && !tFN_STMTS(previous_decl))
+            || is_T_EXT_FUNC(previous_decl)) {
             tree_copy(previous_decl, fn);
             return decl;
         }
-- 
2.43.0


From 155efef3fe34b95afeb2d3cd2e6159e9caca3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 45/67] fix: type names declare arrays and functions as C's do

In sizeof and casts everything of an abstract declarator after its pointers was
ignored: sizeof(int[4]) was sizeof(int).
---
 src/evaluate.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e32bc26..afaa1e2 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2735,11 +2735,26 @@ static tree eval_type_specifier(tree t, int depth)
         || is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
-    while (is_T_POINTER(decl)) {
-        tree ptr = tree_make(D_T_PTR);
-        tDTPTR_EXP(ptr) = type;
-        type = ptr;
-        decl = tPTR_EXP(decl);
+    while (decl) {
+        if (is_T_POINTER(decl)) {
+            tree ptr = tree_make(D_T_PTR);
+            tDTPTR_EXP(ptr) = type;
+            type = ptr;
+            decl = tPTR_EXP(decl);
+        } else if (is_T_ARRAY(decl)) {
+            tree array_type = tree_make(T_ARRAY_TYPE);
+            tARRAY_TYPE_BASE_TYPE(array_type) = type;
+            tARRAY_TYPE_SZ(array_type) = tARRAY_SZ(decl);
+            type = array_type;
+            decl = tARRAY_DECL(decl);
+        } else if (is_T_FN(decl)) {
+            tree fn = alloc_copy_tree(decl);
+            tFN_RET_TYPE(fn) = type;
+            decl = tFN_DECL(fn);
+            tFN_DECL(fn) = NULL;
+            type = fn;
+        } else
+            eval_die(decl, "Unknown declarator in type name.\n");
     }
 
     return type;
-- 
2.43.0


From fbfa98d0279083f6906bc42b8d93b4246877b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 46/67] fix: the address of an external function can be taken

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index afaa1e2..7821486 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2794,6 +2794,10 @@ static tree eval_addr(tree t, int depth)
     if (is_T_FN(exp))
         return handle_addr_fn_def(exp);
 
+    /* An external function evaluates to a pointer to it. */
+    if (is_T_EXT_FUNC(exp))
+        return __evaluate_1(exp, depth + 1);
+
     if (!is_LIVE(exp))
         eval_die(t, "attempted to take address of non-live variable.\n");
 
-- 
2.43.0


From e0ee45e5df1e988f3954ebab3df6a19eb9463957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 47/67] fix: entry points can be made for functions whose
 parameters have type names

The type of a parameter was looked up for libffi without having been
resolved when it was a typedef name or an enum, so taking the address of
such a function failed. Resolve it as declarations do.
---
 src/function-call.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/function-call.c b/src/function-call.c
index 897104d..7d1d241 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -218,6 +218,11 @@ void *get_entry_point_for_fn(tree fndef)
         arg_type = resolve_decl_specs_to_type(tDECL_SPECS(arg));
         declarator = tDECL_DECLS(arg);
 
+        /* Resolve any type names or compound declarators. */
+        if (is_T_IDENTIFIER(arg_type) || is_T_DECL_COMPOUND(arg_type)
+            || is_T_ENUMERATOR(arg_type))
+            arg_type = evaluate_expr(arg_type);
+
         if (is_T_POINTER(tDECL_DECLS(arg)))
             resolve_ptr_type(&declarator, &arg_type);
 
@@ -225,7 +230,10 @@ void *get_entry_point_for_fn(tree fndef)
             eval_die(arg, "Unknown declarator type in closure allocation");
 
         tCLOSURE_TYPES(closure)[n++] = get_ffi_type(TYPE(arg_type));
-        tree_chain(arg_type, arg_chain);
+
+        /* A type name's type is shared by all that use the name, so chain a
+         * copy of it. */
+        tree_chain(alloc_copy_tree(arg_type), arg_chain);
 
         if (n >= ARG_STACK_SZ)
             eval_die(fndef, "Argument stack size exceeded");
-- 
2.43.0


From 6f5a1eef8f48f4965141e25043b214e3ad36b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 48/67] fix: objects with static storage duration start as zero

The storage of objects was whatever malloc returned, so that a global or
static object without an initialiser could start with any value.
---
 src/evaluate.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7821486..375304c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -302,7 +302,9 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = malloc(sizeof(*tLV_VAL(live_var)));
+
+    /* Objects with static storage duration start as zero. */
+    tLV_VAL(live_var) = calloc(1, sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -787,7 +789,7 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = malloc(tCOMP_DECL_SZ(struct_decl));
+    void *base = calloc(1, tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -797,7 +799,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = malloc(array_sz);
+    void *array_mem = calloc(1, array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
-- 
2.43.0


From a0ac55a039d2e4b6418ddf2416f14af6bc818cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 49/67] fix: a declaration with a storage class may declare no
 more than a type

---
 src/evaluate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 375304c..94c9853 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1199,6 +1199,10 @@ static tree eval_decl(tree t, int depth)
         || is_T_ENUMERATOR(decl_type))
         decl_type = __evaluate_1(decl_type, depth + 1);
 
+    /* There are no declarators, only a type is declared. */
+    if (!decls)
+        return NULL;
+
     if (chain_has_T_TYPEDEF(decl_specs))
         return handle_typedef(decl_type, decls, depth + 1);
 
@@ -1208,9 +1212,6 @@ static tree eval_decl(tree t, int depth)
     if (chain_has_T_STATIC(decl_specs))
         return handle_static_decl(decl_type, t, depth + 1);
 
-    if (!decls)
-        return NULL;
-
     if (is_CHAIN_HEAD(decls)) {
         for_each_tree(decl, decls)
             ret = handle_declarator(decl, decl_type, depth);
-- 
2.43.0


From d5a62c5142b3715b29e8d1acddb9a532de5dbb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 50/67] fix: a source that can't be preprocessed isn't executed

---
 src/cscript.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cscript.c b/src/cscript.c
index fd8979b..a151553 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -51,7 +51,10 @@ static int parse_cscript(const char *fname)
     parse_result = cscriptparse();
     enable_gc();
 
-    fclose(f);
+    if (pclose(f)) {
+        fprintf(stderr, "Error: could not preprocess %s\n", fname);
+        return 1;
+    }
 
     return parse_result;
 }
-- 
2.43.0


From cf32e01d2d7d4a7eaa202b658aabaf1ad385dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 51/67] fix: main's parameters are those of its definition

---
 src/cscript.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cscript.c b/src/cscript.c
index a151553..b76abf4 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -166,6 +166,9 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
                 tree args = tFN_ARGS(fn);
                 tree arg;
 
+                /* main() may have been declared before. */
+                num_main_args = 0;
+
                 if (args)
                     for_each_tree(arg, tFN_ARGS(fn))
                         num_main_args++;
-- 
2.43.0


From 26f46c2289322732be59bd7ac11c948c564c384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 52/67] fix: names of include directories may contain spaces

---
 src/preprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 328c785..b0a8121 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -55,14 +55,15 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
       size_t include_len = 0;
 
       for_each_tree(i, include_dirs)
-          include_len += strlen(tSTRING_VAL(i)) + 4;
+          include_len += strlen(tSTRING_VAL(i)) + 6;
 
       include_dir_opts = malloc(include_len + 1);
       include_dir_opts[0] = '\0';
 
       for_each_tree(i, include_dirs) {
-          strcat(include_dir_opts, " -I ");
+          strcat(include_dir_opts, " -I \"");
           strcat(include_dir_opts, tSTRING_VAL(i));
+          strcat(include_dir_opts, "\"");
       }
   } else {
       include_dir_opts = malloc(1);
-- 
2.43.0


From d5393504bfb761684a0e32b61d554de052c933fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 53/67] fix: include directories are searched for a script's
 headers as well

---
 src/cscript.c    |  7 +++++--
 src/preprocess.c | 48 ++++++++++++++++++++++++++++++------------------
 src/preprocess.h |  1 +
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index b76abf4..f63626f 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -3,6 +3,7 @@
 #include "cscriptparser.h"
 #include "evaluate.h"
 #include "gc.h"
+#include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
 #include <string.h>
@@ -28,9 +29,11 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command;
+    char *command, *include_dir_opts = preprocessor_include_dir_opts();
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"", fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s \"%s\"",
+             include_dir_opts, fname);
+    free(include_dir_opts);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index b0a8121..cfd4f57 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -10,6 +10,35 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* Obtain the options that make the preprocessor search the include
+ * directories.  The caller frees them. */
+char *preprocessor_include_dir_opts(void)
+{
+  char *include_dir_opts;
+  tree i;
+
+  if (include_dirs) {
+      size_t include_len = 0;
+
+      for_each_tree(i, include_dirs)
+          include_len += strlen(tSTRING_VAL(i)) + 6;
+
+      include_dir_opts = malloc(include_len + 1);
+      include_dir_opts[0] = '\0';
+
+      for_each_tree(i, include_dirs) {
+          strcat(include_dir_opts, " -I \"");
+          strcat(include_dir_opts, tSTRING_VAL(i));
+          strcat(include_dir_opts, "\"");
+      }
+  } else {
+      include_dir_opts = malloc(1);
+      include_dir_opts[0] = '\0';
+  }
+
+  return include_dir_opts;
+}
+
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
@@ -51,24 +80,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   close(cpp_file_fd);
 
-  if (include_dirs) {
-      size_t include_len = 0;
-
-      for_each_tree(i, include_dirs)
-          include_len += strlen(tSTRING_VAL(i)) + 6;
-
-      include_dir_opts = malloc(include_len + 1);
-      include_dir_opts[0] = '\0';
-
-      for_each_tree(i, include_dirs) {
-          strcat(include_dir_opts, " -I \"");
-          strcat(include_dir_opts, tSTRING_VAL(i));
-          strcat(include_dir_opts, "\"");
-      }
-  } else {
-      include_dir_opts = malloc(1);
-      include_dir_opts[0] = '\0';
-  }
+  include_dir_opts = preprocessor_include_dir_opts();
 
   ret = asprintf(&command, "gcc %s %s %s > %s", opts, include_dir_opts,
           cpp_file_name, out_file_name);
diff --git a/src/preprocess.h b/src/preprocess.h
index a6050a9..b60e3ad 100644
--- a/src/preprocess.h
+++ b/src/preprocess.h
@@ -1,2 +1,3 @@
 FILE *run_cpp(tree include_chain, char *opts, char *line);
 void preprocessor_add_include_dir(char *dir);
+char *preprocessor_include_dir_opts(void);
-- 
2.43.0


From c0bf708ca8d5fdf48d996328560223b2481308dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 54/67] fix: octal escapes have at most three digits, strings
 may contain null characters

---
 src/lex.m4 | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 4f636fe..412bab7 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -25,6 +25,7 @@ static int linenum = 1;
 
 
 static char *sl_buf = NULL;
+static size_t sl_len;
 CSCRIPT_ONLY
     extern void TARGET()_parser_set_file(const char *fname);
 
@@ -61,26 +62,38 @@ ALL_TARGETS
 
 static void sl_begin(void)
 {
-    if (!sl_buf)
-        sl_buf = malloc(1);
+    sl_len = 0;
+}
 
-    sl_buf[0] = '\0';
+/* Append `len' characters, which may be null characters. */
+static void sl_append(const char *s, size_t len)
+{
+    sl_buf = realloc(sl_buf, sl_len + len);
+    memcpy(sl_buf + sl_len, s, len);
+    sl_len += len;
 }
 
 static void sl_append_str(const char *s)
 {
-    char *old_sl_buf = sl_buf;
-    sl_buf = concat_strings(sl_buf, s);
-    free(old_sl_buf);
+    sl_append(s, strlen(s));
 }
 
 static void sl_append_char(char c)
 {
-    char *s = malloc(2);
-    s[0] = c;
-    s[1] = '\0';
-    sl_append_str(s);
-    free(s);
+    sl_append(&c, 1);
+}
+
+/* Obtain the string literal. */
+static char *sl_end(void)
+{
+    char *ret;
+
+    sl_append_char('\0');
+
+    ret = malloc(sl_len);
+    memcpy(ret, sl_buf, sl_len);
+
+    return ret;
 }
 
 static void  __attribute__((noreturn))lex_err(char *fmt, ...)
@@ -204,10 +217,10 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
-<str_lit>\\[0-7]*               { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
+<str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
-<str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
-<str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
+<str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; return CONST_STRING; }
+<str_lit>\\(.|\n)               { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
 <INITIAL,compound_start_cond>[ \t\r]                         /* skip whitespace */
-- 
2.43.0


From 6b031cc8cfb5b2255255d2e877ef5fc5d72dd89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:04 +0000
Subject: [PATCH 55/67] fix: a floating constant is the double nearest to what
 is written

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 412bab7..7adfcd2 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -210,7 +210,7 @@ ALL_TARGETS
 
 0[0-7]*                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
 [1-9][0-9]*                     mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
-[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
+[0-9]+\.[0-9]+                mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
-- 
2.43.0


From 68f9e62e4185732f448989b92a4784ae5c3f9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 56/67] fix: an enumeration's tag may be the name of a type as
 well

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 7adfcd2..65b6876 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -169,7 +169,7 @@ X                               [0-9A-Fa-f]
 "do"				return DO;
 "double"			return DOUBLE;
 "else"				return ELSE;
-"enum"				return ENUM;
+"enum"				{ BEGIN compound_start_cond; return ENUM;}
 "extern"			return EXTERN;
 "float"				return FLOAT;
 "for"				return FOR;
-- 
2.43.0


From b4ce3bc1a0070e9da46088abb727b09af503ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 57/67] fix: scripts and headers may have any file name

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 65b6876..2e56475 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -200,7 +200,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"({L}|{D}|\-|\.|\/|<|>|\ )+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+"`#'"[ \t]*[0-9]+[ \t]*\"(\\.|[^\\"\n])+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From 0c63ae6ace2034772cff576271f677e7bcc0ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 58/67] fix: attributes and asm labels end with their own
 parentheses, not with the last ones of the line

---
 src/lex.m4 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 2e56475..dc6acff 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -144,16 +144,17 @@ L                               [a-zA-Z_]
 D                               [0-9]
 W                               [\ \t]
 X                               [0-9A-Fa-f]
+P                               "("([^()\n]|"("[^()\n]*")")*")"
 
 %x str_lit
 %x compound_start_cond
 
 %%
-"__attribute__"[ \t]*"((".*"))" /* Ignore attributes */
+"__attribute__"[ \t]*"(("([^()\n]|{P})*"))" /* Ignore attributes */
 "_Nullable"                     /* Ignore builtin */
 "_Nonnull"                      /* Ignore builtin */
 ("__")?"restrict"               /* Ignore builtin */
-"__asm"("__")?[ \t]*"(".*")"    /* Ignore asm stmts. */
+"__asm"("__")?[ \t]*"("[^()\n]*")"    /* Ignore asm stmts. */
 "__extension__"                 /* Ignore gcc warning suppression
 * extension. */
 "volatile"                      /* Ignore volatile */
-- 
2.43.0


From 1d46e54ad45f1ea30bcd73566de15effb10525dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 59/67] fix: inspecting an array ended in a crash

---
 src/inspect.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/inspect.c b/src/inspect.c
index 937dccc..3f5f074 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -64,6 +64,10 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
 static void print_object_locus(tree inspect_id, tree resolved_object)
 {
+    /* Some objects (arrays, for example) don't know where they were declared. */
+    if (!tLOCUS(resolved_object).file)
+        return;
+
     printf("%s was declared at: %s:%ld\n", tID_STR(inspect_id),
            tID_STR(tLOCUS(resolved_object).file),
            tLOCUS(resolved_object).line_no);
-- 
2.43.0


From 5481cb607bd79158e6d1961b0caf633435624784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 60/67] fix: inspecting a pointer to a structure without a tag
 ended in a crash

---
 src/inspect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inspect.c b/src/inspect.c
index 3f5f074..bba695f 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -53,7 +53,7 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
     object_type = handle_pointer_type(object_type);
 
-    if (is_T_DECL_COMPOUND(object_type))
+    if (is_T_DECL_COMPOUND(object_type) && tCOMP_DECL_ID(object_type))
         object_name = tID_STR(tCOMP_DECL_ID(object_type));
     else
         object_name = tree_description_string(object_type);
-- 
2.43.0


From 0643ba2e0375c4c68295923935046637208046ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:39 +0000
Subject: [PATCH 61/67] fix: an unsigned short was said to be a signed one

---
 src/c.lang | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.lang b/src/c.lang
index 727129b..89af843 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -263,7 +263,7 @@
 (defctype D_T_LONG "signed long" "long" "ld" "ival" ffi_type_slong)
 (defctype D_T_LONGLONG "signed long long" "long long" "lld" "ival" ffi_type_slong)
 (defctype D_T_UCHAR "unsigned char" "unsigned char" "u" "ival" ffi_type_uchar)
-(defctype D_T_USHORT "signed short" "unsigned short" "hu" "ival" ffi_type_ushort)
+(defctype D_T_USHORT "unsigned short" "unsigned short" "hu" "ival" ffi_type_ushort)
 (defctype D_T_UINT "unsigned integer" "unsigned int" "u" "ival" ffi_type_uint)
 (defctype D_T_ULONG "unsigned long" "unsigned long" "lu" "ival" ffi_type_ulong)
 (defctype D_T_ULONGLONG "unsigned long long" "unsigned long long" "llu" "ival" ffi_type_ulong)
-- 
2.43.0


From 32d5de4d3d4c48ec28c7da183b013f7d665fe3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:15 +0000
Subject: [PATCH 62/67] fix: completing a name took it out of the program's
 declaration

---
 src/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index c64ae97..3232042 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -141,7 +141,7 @@ void match_identifiers_for_idmap(tree chain, tree idmap,
     for_each_tree(i, idmap) {
         tree id = tEMAP_LEFT(i);
         if (strncmp(tID_STR(id), prefix, strlen(prefix)) == 0)
-            tree_chain(id, chain);
+            tree_chain(get_identifier(tID_STR(id)), chain);
     }
 }
 
-- 
2.43.0


From 011d631bef603285488a0eba0336c904f069848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 63/67] fix: members were never completed, a list of statements
 has no value

---
 src/repl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 3232042..7bdcb49 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -110,6 +110,7 @@ static int split_compound_access_text(const char *text,
 
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
+    tree i;
     char *comp_obj_expr = strdup(comp_access.obj_expr);
 
     if (comp_access.needs_deref) {
@@ -130,7 +131,10 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
     if (parse_result)
         return NULL;
 
-    return evaluate_expr(repl_parse_head);
+    for_each_tree(i, repl_parse_head)
+        return evaluate_expr(i);
+
+    return NULL;
 }
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
@@ -303,7 +307,7 @@ static char **bic_completion(const char *text, int start, int end)
 
             live_compound = get_compound_completion_object(comp_access);
 
-            if (is_T_LIVE_COMPOUND(live_compound))
+            if (live_compound && is_T_LIVE_COMPOUND(live_compound))
                 local_matches = do_compound_completion(comp_access,
                                                        text, live_compound);
 
-- 
2.43.0


From 59f3c65bf2b22181f1ff396c03894c929babe256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 64/67] fix: an object whose name has more than one character
 had no members to complete after ->

---
 src/repl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repl.c b/src/repl.c
index 7bdcb49..d80f2c4 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -99,6 +99,7 @@ static int split_compound_access_text(const char *text,
             comp_access->needs_deref = 1;
 
             comp_access->member_prefix = strdup(&text[i + 2]);
+            break;
         }
     }
 
-- 
2.43.0


From 4b9d793516d739164c92a488c0c574ae7f1d6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 65/67] fix: the number of matches was undefined if completion
 failed

---
 src/repl.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index d80f2c4..4fb3b4a 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -255,9 +255,8 @@ static char **recieve_matches(int fd)
     size_t n;
     int i;
 
-    read(fd, &n, sizeof(n));
-
-    if (!n)
+    /* There is nothing to read if the object couldn't be evaluated. */
+    if (read(fd, &n, sizeof(n)) != sizeof(n) || !n)
         return NULL;
 
     ret = malloc(sizeof(*ret) * (n + 1));
-- 
2.43.0


From 43b77215d2c6da145131e199645124e7087d7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 66/67] fix: completing a member left a file descriptor open

---
 src/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 4fb3b4a..c55a038 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -325,7 +325,7 @@ static char **bic_completion(const char *text, int start, int end)
             free(comp_access.access_operator);
             free(comp_access.member_prefix);
 
-            close(pfds[1]);
+            close(pfds[0]);
         }
     }
     else
-- 
2.43.0


From f7c188977cd0d119efda62bc1518481667d03c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 67/67] fix: names of a function's callers were completed

---
 src/evaluate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 94c9853..5e75a11 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -225,7 +225,11 @@ tree find_global_identifiers(const char *prefix)
     while (search_ctx) {
         match_identifiers_for_idmap(chain, tECTX_ID_MAP(search_ctx), prefix);
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        /* A function doesn't see the names of its callers. */
+        if (tECTX_IS_FN_CALL(search_ctx))
+            search_ctx = toplevel_ctx;
+        else
+            search_ctx = tECTX_PARENT_CTX(search_ctx);
     }
 
     if (include_ctx)
-- 
2.43.0

