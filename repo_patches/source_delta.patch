From 439b5c1ca3640dad742db6e7fb4a7a93dcd10c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 01/45] fix: branch to then_bb in detached ARM branches

A detached branch assumed that then_bb is laid out right after it.  The
condition block of a do-while loop containing a break violates that: neither
successor follows, and the loop ended after one iteration.
---
 src/arm-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index c6c020e..da67975 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -268,7 +268,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
     case OP_branch:
         emit(__teq(rn));
         if (ph2_ir->is_branch_detached) {
-            emit(__b(__NE, 8));
+            emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
             emit(__b(__AL, ph2_ir->else_bb->elf_offset - elf_code_idx));
         } else
             emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
-- 
2.43.0


From a5204096b963bbd58660f531c9d6bfa8b77c786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/45] fix: sign of ARM soft division when operands share a
 register

The sign of the divisor was taken after the dividend had been replaced by its
absolute value, so x / x evaluated to -1 for a negative x held in one register.
---
 src/arm-codegen.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index da67975..8a91532 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -333,6 +333,14 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         /* div/mod emulation */
         /* Preserve the values of the dividend and divisor */
         emit(__stmdb(__AL, 1, __sp, (1 << rn) | (1 << rm)));
+        /* Keep the sign of the result before the operands are modified; the
+         * dividend and the divisor may live in the same register. The sign of
+         * the divisor is irrelevant for the result's sign of modulo.
+         */
+        if (ph2_ir->op == OP_div)
+            emit(__eor_r(__AL, __r10, rn, rm));
+        else
+            emit(__mov_r(__AL, __r10, rn));
         /* Obtain absolute values of the dividend and divisor */
         emit(__srl_amt(__AL, 0, arith_rs, __r8, rn, 31));
         emit(__add_r(__AL, rn, rn, __r8));
@@ -340,16 +348,11 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         emit(__srl_amt(__AL, 0, arith_rs, __r9, rm, 31));
         emit(__add_r(__AL, rm, rm, __r9));
         emit(__eor_r(__AL, rm, rm, __r9));
-        if (ph2_ir->op == OP_div)
-            emit(__eor_r(__AL, __r10, __r8, __r9));
-        else {
-            /* If the requested operation is modulo, the result will be stored
-             * in __r9. The sign of the divisor is irrelevant for determining
-             * the result's sign.
-             */
+        /* If the requested operation is modulo, the result will be stored
+         * in __r9.
+         */
+        if (ph2_ir->op == OP_mod)
             interm = __r9;
-            emit(__mov_r(__AL, __r10, __r8));
-        }
         /* Unsigned integer division */
         emit(__zero(__r8));
         emit(__mov_i(__AL, __r9, 1));
@@ -381,7 +384,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         emit(__mov_r(__AL, rd, interm));
         /* Handle the correct sign for the quotient or remainder */
         emit(__cmp_i(__AL, __r10, 0));
-        emit(__rsb_i(__NE, rd, 0, rd));
+        emit(__rsb_i(__LT, rd, 0, rd));
         return;
     case OP_lshift:
         emit(__sll(__AL, rd, rn, rm));
-- 
2.43.0


From 4e8582b086650345e3c5b398d81fcf91c6b389d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 03/45] fix: emit nothing for a self-assignment on ARM, as the
 layout counts

The layout counted no bytes for a copy of a register to itself although the
instruction was emitted, shifting every later address.
---
 src/arm-codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index 8a91532..14bf14f 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -225,7 +225,9 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
             emit(__add_i(__AL, rd, interm, ph2_ir->src0));
         return;
     case OP_assign:
-        emit(__mov_r(__AL, rd, rn));
+        /* No code is laid out for a self-copy */
+        if (ph2_ir->dest != ph2_ir->src0)
+            emit(__mov_r(__AL, rd, rn));
         return;
     case OP_load:
     case OP_global_load:
-- 
2.43.0


From ffeea7eca5e7bedae25c30c2d08d67b157cd740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 04/45] fix: give shifts their C precedence

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index cfa0100..96fefa5 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -90,6 +90,9 @@ int get_operator_prio(opcode_t op)
     case OP_gt:
     case OP_geq:
         return 10;
+    case OP_lshift:
+    case OP_rshift:
+        return 11;
     case OP_add:
     case OP_sub:
         return 12;
-- 
2.43.0


From 8e7dbcfc50251f1b288d4934af2098c7f56f4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 05/45] fix: evaluate #if operators by precedence, diagnose
 division by zero

---
 src/parser.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 96fefa5..cc37023 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -189,6 +189,8 @@ int read_numeric_constant(char buffer[])
     return value;
 }
 
+int read_constant_infix_expr(int precedence);
+
 int read_constant_expr_operand()
 {
     char buffer[MAX_ID_LEN];
@@ -200,7 +202,7 @@ int read_constant_expr_operand()
     }
 
     if (lex_accept(T_open_bracket)) {
-        value = read_constant_expr_operand();
+        value = read_constant_infix_expr(0);
         lex_expect(T_close_bracket);
         return value;
     }
@@ -220,6 +222,9 @@ int read_constant_expr_operand()
     return -1;
 }
 
+/* operator found after the last operand, not applied yet */
+opcode_t infix_op;
+
 int read_constant_infix_expr(int precedence)
 {
     int lhs, rhs;
@@ -247,10 +252,11 @@ int read_constant_infix_expr(int precedence)
         }
     } else {
         lhs = read_constant_expr_operand();
+        infix_op = get_operator();
     }
 
     while (true) {
-        op = get_operator();
+        op = infix_op;
         current_precedence = get_operator_prio(op);
 
         if (current_precedence == 0 || current_precedence <= precedence) {
@@ -270,7 +276,20 @@ int read_constant_infix_expr(int precedence)
             lhs *= rhs;
             break;
         case OP_div:
-            lhs /= rhs;
+            if (rhs == 0)
+                error("Division by zero while evaluating constant");
+            if (rhs == -1) /* cannot overflow as the division would */
+                lhs = -lhs;
+            else
+                lhs /= rhs;
+            break;
+        case OP_mod:
+            if (rhs == 0)
+                error("Division by zero while evaluating constant");
+            if (rhs == -1)
+                lhs = 0;
+            else
+                lhs %= rhs;
             break;
         case OP_bit_and:
             lhs &= rhs;
@@ -314,8 +333,6 @@ int read_constant_infix_expr(int precedence)
         default:
             error("Unexpected infix token while evaluating constant");
         }
-
-        op = get_operator();
     }
 
     return lhs;
-- 
2.43.0


From 57acc1291653af404b6e66655fa280be7c0962a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 06/45] fix: signed modulo and division traps in global
 initialisers

---
 src/parser.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index cc37023..07f241a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2135,16 +2135,25 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
         res = op1 * op2;
         break;
     case OP_div:
-        res = op1 / op2;
+        if (op2 == 0)
+            error("Division by zero in constant expression");
+        if (op2 == -1) /* cannot overflow as the division would */
+            res = -op1;
+        else
+            res = op1 / op2;
         break;
     case OP_mod:
+        if (op2 == 0)
+            error("Division by zero in constant expression");
         /* TODO: provide arithmetic & operation instead of '&=' */
         /* TODO: do optimization for local expression */
         tmp &= (tmp - 1);
-        if ((op2 != 0) && (tmp == 0)) {
+        if ((op1 >= 0) && (tmp == 0)) {
             res = op1;
             res &= (op2 - 1);
-        } else
+        } else if (op2 == -1)
+            res = 0;
+        else
             res = op1 % op2;
         break;
     case OP_lshift:
-- 
2.43.0


From c1ec6b1e8114e34bfab7d8f62d381a8552930e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 07/45] fix: do not fold divisions that trap or overflow

---
 src/ssa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index 0eccec4..455bd29 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1350,9 +1350,14 @@ bool eval_const_arithmetic(insn_t *insn)
         res = l * r;
         break;
     case OP_div:
+        /* leave a division that traps or overflows to the program */
+        if (r == 0 || r == -1)
+            return false;
         res = l / r;
         break;
     case OP_mod:
+        if (r == 0 || r == -1)
+            return false;
         res = l % r;
         break;
     default:
-- 
2.43.0


From 72c105de94a40e47b40813eb7f05fd71f46bc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 08/45] fix: accept bitwise operators in global initialisers

---
 src/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 07f241a..cb8c755 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2162,6 +2162,15 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
     case OP_rshift:
         res = op1 >> op2;
         break;
+    case OP_bit_and:
+        res = op1 & op2;
+        break;
+    case OP_bit_or:
+        res = op1 | op2;
+        break;
+    case OP_bit_xor:
+        res = op1 ^ op2;
+        break;
     case OP_log_and:
         res = op1 && op2;
         break;
-- 
2.43.0


From bbd14ab30fd664fb15c025d2d75d31b25bb5f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 09/45] fix: negate parenthesised operands of unary minus

---
 src/parser.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index cb8c755..bf77491 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -773,6 +773,17 @@ void read_lvalue(lvalue_t *lvalue,
                  bool eval,
                  opcode_t op);
 
+void negate_operand(block_t *parent, basic_block_t *bb)
+{
+    ph1_ir_t *ph1_ir = add_ph1_ir(OP_negate);
+    ph1_ir->src0 = opstack_pop();
+    var_t *vd = require_var(parent);
+    strcpy(vd->var_name, gen_name());
+    ph1_ir->dest = vd;
+    opstack_push(vd);
+    add_insn(parent, bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL, 0, NULL);
+}
+
 /* Maintain a stack of expression values and operators, depending on next
  * operators' priority. Either apply it or operator on stack first.
  */
@@ -865,6 +876,9 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
         lex_expect(T_close_bracket);
+
+        if (is_neg)
+            negate_operand(parent, *bb);
     } else if (lex_accept(T_sizeof)) {
         /* TODO: Use more generalized type grammar parsing function to handle
          * type reading
@@ -1022,16 +1036,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             error("Unrecognized expression token");
         }
 
-        if (is_neg) {
-            ph1_ir = add_ph1_ir(OP_negate);
-            ph1_ir->src0 = opstack_pop();
-            vd = require_var(parent);
-            strcpy(vd->var_name, gen_name());
-            ph1_ir->dest = vd;
-            opstack_push(vd);
-            add_insn(parent, *bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL,
-                     0, NULL);
-        }
+        if (is_neg)
+            negate_operand(parent, *bb);
     }
 }
 
-- 
2.43.0


From 4748f67d6b2479a27b27962051a22874281ceb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 10/45] fix: let ternary arms contain && and ||

---
 src/parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index bf77491..8552751 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1829,8 +1829,8 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     basic_block_t *then_ = bb_create(parent);
     basic_block_t *else_ = bb_create(parent);
     basic_block_t *end_ternary = bb_create(parent);
-    bb_connect(then_, end_ternary, NEXT);
-    bb_connect(else_, end_ternary, NEXT);
+    bb_connect(*bb, then_, THEN);
+    bb_connect(*bb, else_, ELSE);
 
     /* true branch */
     ph1_ir = add_ph1_ir(OP_label);
@@ -1838,8 +1838,8 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     strcpy(vd->var_name, true_label);
     ph1_ir->src0 = vd;
 
+    /* an arm may end in another block than it starts in */
     read_expr(parent, &then_);
-    bb_connect(*bb, then_, THEN);
 
     if (!lex_accept(T_colon)) {
         /* ternary operator in standard C needs three operands */
@@ -1854,6 +1854,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->dest = var;
     add_insn(parent, then_, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0,
              NULL);
+    bb_connect(then_, end_ternary, NEXT);
 
     /* jump true branch to end of expression */
     ph1_ir = add_ph1_ir(OP_jump);
@@ -1868,13 +1869,13 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &else_);
-    bb_connect(*bb, else_, ELSE);
 
     ph1_ir = add_ph1_ir(OP_assign);
     ph1_ir->src0 = opstack_pop();
     ph1_ir->dest = var;
     add_insn(parent, else_, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0,
              NULL);
+    bb_connect(else_, end_ternary, NEXT);
 
     ph1_ir = add_ph1_ir(OP_label);
     vd = require_var(parent);
-- 
2.43.0


From 0d915813250a8096c5720c5ad13bd6796d1af964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 11/45] fix: continue in a for loop without increment

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 8552751..7c12722 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2959,7 +2959,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         if (body_) {
             bb_connect(body_, inc_, NEXT);
             bb_connect(inc_, cond_start, NEXT);
-        } else if (inc_->insn_list.head) {
+        } else if (inc_->insn_list.head || inc_->prev[0].bb) {
+            /* reached by 'continue' only */
             bb_connect(inc_, cond_start, NEXT);
         } else {
             /* TODO: Release dangling inc basic block */
-- 
2.43.0


From 288fb1afc07fe14cbe3723e733b2fb368a73f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 12/45] fix: accept postfix decrement in expressions

---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 7c12722..bca1938 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1544,7 +1544,12 @@ void read_lvalue(lvalue_t *lvalue,
             side_effect[se_idx].src1 = NULL;
             se_idx++;
 
-            side_effect[se_idx].op = lex_accept(T_increment) ? OP_add : OP_sub;
+            if (lex_accept(T_increment))
+                side_effect[se_idx].op = OP_add;
+            else {
+                lex_expect(T_decrement);
+                side_effect[se_idx].op = OP_sub;
+            }
             side_effect[se_idx].src1 = vd;
             if (lvalue->is_reference)
                 side_effect[se_idx].src0 = opstack_pop();
-- 
2.43.0


From b8c16e56ddb8db09d74ee6ead4568c4799e060f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 13/45] fix: complete postfix side effects at sequence points

---
 src/parser.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index bca1938..5d99cc1 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -766,6 +766,32 @@ void read_indirect_call(block_t *parent, basic_block_t **bb)
 ph1_ir_t side_effect[10];
 int se_idx = 0;
 
+/* Side effects below this index belong to the enclosing expressions, and those
+ * of the expression read last start at 'se_last'.
+ */
+int se_first = 0;
+int se_last = 0;
+
+void perform_side_effect(block_t *parent, basic_block_t *bb);
+
+/* Complete the side effects of the expression on top of the operand stack at a
+ * sequence point, after keeping its value.
+ */
+void settle_operand(block_t *parent, basic_block_t *bb)
+{
+    if (se_idx == se_first)
+        return;
+
+    ph1_ir_t *ph1_ir = add_ph1_ir(OP_assign);
+    ph1_ir->src0 = opstack_pop();
+    var_t *vd = require_var(parent);
+    strcpy(vd->var_name, gen_name());
+    ph1_ir->dest = vd;
+    opstack_push(vd);
+    add_insn(parent, bb, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0, NULL);
+    perform_side_effect(parent, bb);
+}
+
 void read_lvalue(lvalue_t *lvalue,
                  var_t *var,
                  block_t *parent,
@@ -1058,6 +1084,7 @@ void read_expr(block_t *parent, basic_block_t **bb)
     var_t *vd;
     opcode_t oper_stack[10];
     int oper_stack_idx = 0;
+    int outer_se = se_first, own_se = se_idx;
 
     /* These variables used for parsing logical-and/or operation.
      *
@@ -1076,11 +1103,15 @@ void read_expr(block_t *parent, basic_block_t **bb)
     strcpy(log_and_shared_label, gen_label());
     strcpy(log_or_shared_label, gen_label());
 
+    se_first = own_se;
     read_expr_operand(parent, bb);
 
     opcode_t op = get_operator();
-    if (op == OP_generic || op == OP_ternary)
+    if (op == OP_generic || op == OP_ternary) {
+        se_first = outer_se;
+        se_last = own_se;
         return;
+    }
     if (is_logical(op)) {
         bb_connect(*bb, op == OP_log_and ? log_and_shared_bb : log_or_shared_bb,
                    op == OP_log_and ? ELSE : THEN);
@@ -1248,6 +1279,8 @@ void read_expr(block_t *parent, basic_block_t **bb)
         has_prev_log_op = prev_log_op != 0;
         pprev_log_op = 0;
     }
+    se_first = outer_se;
+    se_last = own_se;
 }
 
 /* Return the address that an expression points to, or evaluate its value.
@@ -1605,6 +1638,7 @@ void read_logical(opcode_t op,
         error("encounter an invalid logical opcode in read_logical()");
 
     /* Test the operand before the logical-and/or operator */
+    settle_operand(parent, *bb);
     ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
     vd = require_var(parent);
@@ -1726,6 +1760,7 @@ void finalize_logical(opcode_t op,
     var_t *log_op_res;
 
     /* Create the branch instruction for final logical-and/or operand */
+    settle_operand(parent, op == OP_log_and ? then : else_if);
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_branch);
     var_t *vd = opstack_pop();
     ph1_ir->dest = vd;
@@ -1821,6 +1856,9 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
         return;
 
     /* ternary-operator */
+    int outer_se = se_first;
+    se_first = se_last;
+    settle_operand(parent, *bb);
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
     var_t *vd = require_var(parent);
@@ -1859,6 +1897,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->dest = var;
     add_insn(parent, then_, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0,
              NULL);
+    perform_side_effect(parent, then_);
     bb_connect(then_, end_ternary, NEXT);
 
     /* jump true branch to end of expression */
@@ -1880,7 +1919,9 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->dest = var;
     add_insn(parent, else_, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0,
              NULL);
+    perform_side_effect(parent, else_);
     bb_connect(else_, end_ternary, NEXT);
+    se_first = outer_se;
 
     ph1_ir = add_ph1_ir(OP_label);
     vd = require_var(parent);
@@ -2408,13 +2449,13 @@ basic_block_t *continue_bb[MAX_NESTING];
 
 void perform_side_effect(block_t *parent, basic_block_t *bb)
 {
-    for (int i = 0; i < se_idx; i++) {
+    for (int i = se_first; i < se_idx; i++) {
         ph1_ir_t *ph1_ir = add_ph1_ir(side_effect[i].op);
         memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
         add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
                  ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
     }
-    se_idx = 0;
+    se_idx = se_first;
 }
 
 basic_block_t *read_code_block(func_t *func,
@@ -2457,7 +2498,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         read_ternary_operation(parent, &bb);
 
         /* apply side effect before function return */
-        perform_side_effect(parent, bb);
+        settle_operand(parent, bb);
         lex_expect(T_semicolon);
 
         ph1_ir = add_ph1_ir(OP_return);
@@ -2481,6 +2522,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        settle_operand(parent, bb);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2592,6 +2634,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         cond = bb;
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        settle_operand(parent, bb);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2651,6 +2694,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        settle_operand(parent, bb);
         lex_expect(T_close_bracket);
 
         /* create exit jump for breaks */
@@ -2879,6 +2923,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 read_body_assignment(token, blk, OP_generic, &setup);
             }
 
+            perform_side_effect(blk, setup);
             lex_expect(T_semicolon);
         }
 
@@ -2895,6 +2940,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = var_condition;
         if (!lex_accept(T_semicolon)) {
             read_expr(blk, &cond_);
+            settle_operand(blk, cond_);
             lex_expect(T_semicolon);
         } else {
             /* always true */
@@ -2942,6 +2988,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 prefix_op = OP_sub;
             lex_peek(T_identifier, token);
             read_body_assignment(token, blk, prefix_op, &inc_);
+            perform_side_effect(blk, inc_);
             lex_expect(T_close_bracket);
         }
 
@@ -3028,6 +3075,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = vd;
 
         read_expr(parent, &cond_);
+        settle_operand(parent, cond_);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
-- 
2.43.0


From 8d653e044646406e21929d84f2e395905208c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 14/45] fix: bound the pending side effects of an expression

---
 src/defs.h   | 1 +
 src/parser.c | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/defs.h b/src/defs.h
index bdbb342..631b355 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -37,6 +37,7 @@
 #define MAX_ALIASES 1024
 #define MAX_CONSTANTS 1024
 #define MAX_CASES 128
+#define MAX_SIDE_EFFECTS 60
 #define MAX_NESTING 128
 #define MAX_OPERAND_STACK_SIZE 32
 #define MAX_ANALYSIS_STACK_SIZE 800
diff --git a/src/parser.c b/src/parser.c
index 5d99cc1..85a816c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -763,7 +763,7 @@ void read_indirect_call(block_t *parent, basic_block_t **bb)
     add_insn(parent, *bb, OP_indirect, NULL, ph1_ir->src0, NULL, 0, NULL);
 }
 
-ph1_ir_t side_effect[10];
+ph1_ir_t side_effect[MAX_SIDE_EFFECTS];
 int se_idx = 0;
 
 /* Side effects below this index belong to the enclosing expressions, and those
@@ -1568,6 +1568,8 @@ void read_lvalue(lvalue_t *lvalue,
                          NULL, 0, NULL);
             }
         } else if (lex_peek(T_increment, NULL) || lex_peek(T_decrement, NULL)) {
+            if (se_idx + 3 > MAX_SIDE_EFFECTS)
+                error("Too many side effects in an expression");
             side_effect[se_idx].op = OP_load_constant;
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-- 
2.43.0


From 769e09c70c883e9154f26d8d98b3fa44036f5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 15/45] fix: accept negative case labels, diagnose unknown ones

---
 src/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 85a816c..50f8e6f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2714,6 +2714,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 int case_val;
 
                 lex_accept(T_case);
+                int neg_case = lex_accept(T_minus);
                 if (lex_peek(T_numeric, NULL)) {
                     case_val = read_numeric_constant(token_str);
                     lex_expect(T_numeric); /* already read it */
@@ -2722,9 +2723,13 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     lex_expect(T_char);
                 } else {
                     constant_t *cd = find_constant(token_str);
+                    if (!cd)
+                        error("Case label is not a constant");
                     case_val = cd->value;
                     lex_expect(T_identifier); /* already read it */
                 }
+                if (neg_case)
+                    case_val = -case_val;
 
                 ph1_ir = add_ph1_ir(OP_load_constant);
                 vd = require_var(parent);
-- 
2.43.0


From aae4e2f7c624a4d26fe123f3740748d8fd4df7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 16/45] fix: switch without labels

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 50f8e6f..42b5e71 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2707,6 +2707,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         basic_block_t *true_body_ = bb_create(parent);
 
         lex_expect(T_open_curly);
+        vd = var_break;
+        if (lex_peek(T_close_curly, NULL)) /* no label at all */
+            bb_connect(bb, true_body_, NEXT);
         while (lex_peek(T_default, NULL) || lex_peek(T_case, NULL)) {
             if (lex_accept(T_default))
                 is_default = 1;
-- 
2.43.0


From 9a1f2021fb420c1879048fa894407778d0c1ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 17/45] fix: for increments that end in another block

---
 src/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 42b5e71..f12a841 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2981,6 +2981,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         break_exit[break_exit_idx++] = var_break;
 
         basic_block_t *inc_ = bb_create(blk);
+        basic_block_t *inc_start = inc_;
         continue_bb[continue_pos_idx] = inc_;
 
         /* increment after each loop */
@@ -3019,9 +3020,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         body_ = read_body_statement(blk, body_);
 
         if (body_) {
-            bb_connect(body_, inc_, NEXT);
+            bb_connect(body_, inc_start, NEXT);
             bb_connect(inc_, cond_start, NEXT);
-        } else if (inc_->insn_list.head || inc_->prev[0].bb) {
+        } else if (inc_->insn_list.head || inc_start->prev[0].bb) {
             /* reached by 'continue' only */
             bb_connect(inc_, cond_start, NEXT);
         } else {
-- 
2.43.0


From 8c4203bf4e3d0da7ec5b46a13da13e5b9b79ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 18/45] fix: elements of pointer members and arrays of pointers

The level of indirection was taken from the variable the access path starts
with, so that elements reached through members had the wrong size, and
'->' on an array member read its first element as an address.
---
 src/parser.c | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index f12a841..692005c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -66,6 +66,30 @@ int get_size(var_t *var, type_t *type)
     return type->size;
 }
 
+/* Level of indirection, an array counts as a pointer to its first element */
+int get_ptr_level(var_t *var)
+{
+    if (var->array_size > 0)
+        return var->is_ptr + 1;
+    return var->is_ptr;
+}
+
+/* Size of what a pointer points at */
+int get_pointee_size(lvalue_t *lvalue)
+{
+    if (lvalue->is_ptr > 1)
+        return PTR_SIZE;
+    return lvalue->type->size;
+}
+
+/* What '++' adds: a pointer moves by one element */
+int get_step(lvalue_t *lvalue)
+{
+    if (lvalue->is_ptr)
+        return get_pointee_size(lvalue);
+    return 1;
+}
+
 int get_operator_prio(opcode_t op)
 {
     /* https://www.cs.uic.edu/~i109/Notes/COperatorPrecedenceTable.pdf */
@@ -889,10 +913,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         ph1_ir = add_ph1_ir(OP_read);
         ph1_ir->src0 = opstack_pop();
         vd = require_var(parent);
-        if (lvalue.is_ptr > 1)
-            ph1_ir->size = PTR_SIZE;
-        else
-            ph1_ir->size = lvalue.type->size;
+        ph1_ir->size = get_pointee_size(&lvalue);
         strcpy(vd->var_name, gen_name());
         ph1_ir->dest = vd;
         opstack_push(vd);
@@ -1306,7 +1327,7 @@ void read_lvalue(lvalue_t *lvalue,
 
     lvalue->type = find_type(var->type_name, 0);
     lvalue->size = get_size(var, lvalue->type);
-    lvalue->is_ptr = var->is_ptr;
+    lvalue->is_ptr = get_ptr_level(var);
     lvalue->is_func = var->is_func;
     lvalue->is_reference = false;
 
@@ -1336,13 +1357,13 @@ void read_lvalue(lvalue_t *lvalue,
                          ph1_ir->size, NULL);
             }
 
-            /* var must be either a pointer or an array of some type */
-            if (var->is_ptr == 0 && var->array_size == 0)
+            /* it must be either a pointer or an array of some type */
+            if (lvalue->is_ptr == 0)
                 error("Cannot apply square operator to non-pointer");
 
             /* if nested pointer, still pointer */
-            if (var->is_ptr <= 1 && var->array_size == 0)
-                lvalue->size = lvalue->type->size;
+            lvalue->size = get_pointee_size(lvalue);
+            lvalue->is_ptr--;
 
             read_expr(parent, bb);
 
@@ -1389,7 +1410,7 @@ void read_lvalue(lvalue_t *lvalue,
                 /* resolve where the pointer points at from the calculated
                  * address in a structure.
                  */
-                if (is_member) {
+                if (is_member && lvalue->is_reference) {
                     ph1_ir = add_ph1_ir(OP_read);
                     ph1_ir->src0 = opstack_pop();
                     vd = require_var(parent);
@@ -1422,15 +1443,14 @@ void read_lvalue(lvalue_t *lvalue,
             /* change type currently pointed to */
             var = find_member(token, lvalue->type);
             lvalue->type = find_type(var->type_name, 0);
-            lvalue->is_ptr = var->is_ptr;
+            lvalue->is_ptr = get_ptr_level(var);
             lvalue->is_func = var->is_func;
             lvalue->size = get_size(var, lvalue->type);
 
             /* if it is an array, get the address of first element instead of
              * its value.
              */
-            if (var->array_size > 0)
-                lvalue->is_reference = false;
+            lvalue->is_reference = var->array_size == 0;
 
             /* move pointer to offset of structure */
             ph1_ir = add_ph1_ir(OP_load_constant);
-- 
2.43.0


From 86628bfe5c55c8e5b836a3ac6ccf533ce3e00e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 19/45] fix: step of '++', '--' and compound assignment on
 pointers and elements

p[i] += n on 'int *p' added 4 * n, p++ in an expression moved by one byte,
and the value of a prefix operator on a member was lost.
---
 src/parser.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 692005c..df9322e 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1552,7 +1552,7 @@ void read_lvalue(lvalue_t *lvalue,
             ph1_ir = add_ph1_ir(OP_load_constant);
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = get_step(lvalue);
             ph1_ir->dest = vd;
             opstack_push(vd);
             add_insn(parent, *bb, OP_load_constant, ph1_ir->dest, NULL, NULL, 0,
@@ -1580,6 +1580,7 @@ void read_lvalue(lvalue_t *lvalue,
                  */
                 add_insn(parent, *bb, OP_write, NULL, ph1_ir->dest,
                          ph1_ir->src0, ph1_ir->size, NULL);
+                opstack_push(vd);
             } else {
                 ph1_ir = add_ph1_ir(OP_assign);
                 ph1_ir->src0 = vd;
@@ -1593,7 +1594,7 @@ void read_lvalue(lvalue_t *lvalue,
             side_effect[se_idx].op = OP_load_constant;
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = get_step(lvalue);
             side_effect[se_idx].dest = vd;
             side_effect[se_idx].src0 = NULL;
             side_effect[se_idx].src1 = NULL;
@@ -2025,11 +2026,8 @@ bool read_body_assignment(char *token,
 
         if (op != OP_generic) {
             var_t *vd, *t;
-            int increment_size = 1;
-
             /* if we have a pointer, shift it by element size */
-            if (lvalue.is_ptr)
-                increment_size = lvalue.type->size;
+            int increment_size = get_step(&lvalue);
 
             /* If operand is a reference, read the value and push to stack for
              * the incoming addition/subtraction. Otherwise, use the top element
-- 
2.43.0


From 20b9b9d93b608f4fb6d4c9019e5f790653578569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 20/45] fix: pointer plus integer with several operands

The index stopped before '*', '/' and '%', and a pointer read from memory was
read again for each further operand.
---
 src/parser.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index df9322e..b94f8ee 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1480,8 +1480,8 @@ void read_lvalue(lvalue_t *lvalue,
     if (!eval)
         return;
 
-    if (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
-        while (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
+    if (lex_peek(T_plus, NULL) && lvalue->is_ptr) {
+        while (lex_peek(T_plus, NULL)) {
             lex_expect(T_plus);
             if (lvalue->is_reference) {
                 ph1_ir = add_ph1_ir(OP_read);
@@ -1493,11 +1493,28 @@ void read_lvalue(lvalue_t *lvalue,
                 opstack_push(vd);
                 add_insn(parent, *bb, OP_read, ph1_ir->dest, ph1_ir->src0, NULL,
                          ph1_ir->size, NULL);
+                lvalue->is_reference = false;
             }
 
             read_expr_operand(parent, bb);
 
-            lvalue->size = lvalue->type->size;
+            /* operators of higher precedence belong to the index */
+            while (lex_peek(T_asterisk, NULL) || lex_peek(T_divide, NULL) ||
+                   lex_peek(T_mod, NULL)) {
+                opcode_t mul_op = get_operator();
+                read_expr_operand(parent, bb);
+                ph1_ir = add_ph1_ir(mul_op);
+                ph1_ir->src1 = opstack_pop();
+                ph1_ir->src0 = opstack_pop();
+                vd = require_var(parent);
+                strcpy(vd->var_name, gen_name());
+                ph1_ir->dest = vd;
+                opstack_push(vd);
+                add_insn(parent, *bb, mul_op, ph1_ir->dest, ph1_ir->src0,
+                         ph1_ir->src1, 0, NULL);
+            }
+
+            lvalue->size = get_pointee_size(lvalue);
 
             if (lvalue->size > 1) {
                 ph1_ir = add_ph1_ir(OP_load_constant);
-- 
2.43.0


From a2f78d8b60c2ef8f8782655233891ec55b9f97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 21/45] fix: address of elements and members of pointers

'&p[i]' and '&s.array' took the address of a temporary.
---
 src/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index b94f8ee..4ebe405 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -888,7 +888,10 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         var_t *var = find_var(token, parent);
         read_lvalue(&lvalue, var, parent, bb, false, OP_generic);
 
-        if (!lvalue.is_reference) {
+        /* the operand is the variable itself rather than an address, and an
+         * array already stands for its address
+         */
+        if (operand_stack[operand_stack_idx - 1] == var && !var->array_size) {
             ph1_ir = add_ph1_ir(OP_address_of);
             ph1_ir->src0 = opstack_pop();
             vd = require_var(parent);
-- 
2.43.0


From d1f6149ec04dd7fecc6dfd4c18e8f9a4e4bd15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 22/45] fix: peephole dropped results still in use

'li rn, 0; add rd, rs, rn' and an operation followed by a move lost the value
of rn although later instructions read it.
---
 src/peephole.c | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/src/peephole.c b/src/peephole.c
index f6e10de..28ad92b 100644
--- a/src/peephole.c
+++ b/src/peephole.c
@@ -31,12 +31,74 @@ bool is_fusible_insn(ph2_ir_t *ph2_ir)
     }
 }
 
+/* Check whether the value held by a register is not used after an instruction.
+ * No register holds a value across the blocks.
+ */
+bool is_dead_reg(ph2_ir_t *ph2_ir, int reg)
+{
+    for (ph2_ir_t *ir = ph2_ir->next; ir; ir = ir->next) {
+        switch (ir->op) {
+        case OP_call:
+        case OP_indirect:
+            /* the arguments are in registers */
+            return false;
+        case OP_load_constant:
+        case OP_load_data_address:
+        case OP_address_of:
+        case OP_global_address_of:
+        case OP_load:
+        case OP_global_load:
+        case OP_jump:
+            break;
+        case OP_store:
+        case OP_global_store:
+        case OP_assign:
+        case OP_read:
+        case OP_negate:
+        case OP_bit_not:
+        case OP_log_not:
+        case OP_branch:
+        case OP_return:
+        case OP_load_func:
+        case OP_address_of_func:
+            if (ir->src0 == reg)
+                return false;
+            break;
+        default:
+            if (ir->src0 == reg || ir->src1 == reg)
+                return false;
+        }
+
+        switch (ir->op) {
+        case OP_store:
+        case OP_global_store:
+        case OP_write:
+        case OP_branch:
+        case OP_return:
+        case OP_load_func:
+        case OP_address_of_func:
+            break;
+        default:
+            if (ir->dest == reg)
+                return true;
+        }
+    }
+    return true;
+}
+
 bool insn_fusion(ph2_ir_t *ph2_ir)
 {
     ph2_ir_t *next = ph2_ir->next;
     if (!next)
         return false;
 
+    if (next->op != OP_assign && ph2_ir->op != OP_load_constant)
+        return false;
+
+    /* the intermediate result goes away, so nothing else may use it */
+    if (ph2_ir->dest != next->dest && !is_dead_reg(next, ph2_ir->dest))
+        return false;
+
     if (next->op == OP_assign) {
         if (is_fusible_insn(ph2_ir) && ph2_ir->dest == next->src0) {
             /* eliminates:
-- 
2.43.0


From 231c066344f806e0dca2240eb25a5175b0242e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 23/45] fix: register allocation spilled the other operand

With every register taken by a value used later in the same block, making room
for the second operand or the result could evict the first operand.
---
 src/reg-alloc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 5c7d80d..58e015e 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -127,9 +127,11 @@ int prepare_operand(basic_block_t *bb, var_t *var, int operand_0)
         }
     }
 
-    /* spill farthest local */
-    int spilled = 0;
+    /* spill farthest local, except the other operand */
+    int spilled = operand_0 ? 0 : 1;
     for (i = 0; i < REG_CNT; i++) {
+        if (i == operand_0)
+            continue;
         if (!REGS[i].var)
             continue;
         if (REGS[i].var->consumed > REGS[spilled].var->consumed)
@@ -173,6 +175,8 @@ int prepare_dest(basic_block_t *bb, var_t *var, int operand_0, int operand_1)
 
     /* spill farthest local */
     int spilled = 0;
+    while (spilled == operand_0 || spilled == operand_1)
+        spilled++;
     for (i = 0; i < REG_CNT; i++) {
         if (i == operand_0)
             continue;
-- 
2.43.0


From ac5e0b49b297a2d04ca6e9bf4c2c5bb33d128d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 24/45] fix: arguments were taken to survive an indirect call
 in their registers

---
 src/reg-alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 58e015e..b9b2913 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -546,6 +546,10 @@ void reg_alloc()
 
                     is_pushing_args = 0;
                     args = 0;
+
+                    for (int i = 0; i < REG_CNT; i++)
+                        REGS[i].var = NULL;
+
                     break;
                 case OP_func_ret:
                     dest = prepare_dest(bb, insn->rd, -1, -1);
-- 
2.43.0


From 59f5638b9e8332243c6554b87f2ad38727177067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 25/45] fix: common subexpression elimination reused stale
 memory reads

A read was replaced by an earlier one of the same address across writes and
calls, the read after the address computation was not checked to use it, and
the address was removed although a write still used it ('s[i]++; s[i]--').
---
 src/ssa.c | 69 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 455bd29..b4b16f1 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -833,6 +833,7 @@ void append_unwound_phi_insn(basic_block_t *bb, var_t *dest, var_t *rs)
             tail->prev = n;
         } else {
             tail->next = n;
+            n->prev = tail;
             bb->insn_list.tail = n;
         }
     }
@@ -1217,8 +1218,42 @@ void ssa_build(int dump_ir)
     unwind_phi();
 }
 
+/* Check that memory is left alone on the only path from a read to a later one */
+bool is_mem_unchanged(insn_t *from, insn_t *to)
+{
+    basic_block_t *bb = to->belong_to;
+    insn_t *insn = to->prev;
+
+    for (;;) {
+        for (; insn; insn = insn->prev) {
+            if (insn == from)
+                return true;
+            if (insn->opcode == OP_write || insn->opcode == OP_call ||
+                insn->opcode == OP_indirect)
+                return false;
+            /* assigning a global variable changes memory as well */
+            if (insn->rd && insn->rd->is_global)
+                return false;
+        }
+
+        /* go on in the predecessor when there is only one */
+        basic_block_t *pred = NULL;
+        for (int i = 0; i < MAX_BB_PRED; i++) {
+            if (!bb->prev[i].bb)
+                continue;
+            if (pred)
+                return false;
+            pred = bb->prev[i].bb;
+        }
+        if (!pred)
+            return false;
+        bb = pred;
+        insn = bb->insn_list.tail;
+    }
+    return false;
+}
+
 /* Common Subexpression Elimination (CSE) */
-/* TODO: release detached insns node */
 bool cse(insn_t *insn, basic_block_t *bb)
 {
     if (insn->opcode != OP_read)
@@ -1236,20 +1271,9 @@ bool cse(insn_t *insn, basic_block_t *bb)
     if (base->is_global || idx->is_global)
         return false;
 
-    use_chain_t *rs1_delete_user = NULL;
-    use_chain_t *rs2_delete_user = NULL;
     for (use_chain_t *user = base->users_head; user; user = user->next) {
         insn_t *i = user->insn;
 
-        /* Delete the use chain nodes found in the last loop */
-        if (rs1_delete_user) {
-            use_chain_delete(rs1_delete_user, rs1_delete_user->insn->rs1);
-            rs1_delete_user = NULL;
-        }
-        if (rs2_delete_user) {
-            use_chain_delete(rs2_delete_user, rs2_delete_user->insn->rs2);
-            rs2_delete_user = NULL;
-        }
         if (i == prev)
             continue;
         if (i->opcode != OP_add)
@@ -1260,6 +1284,9 @@ bool cse(insn_t *insn, basic_block_t *bb)
             continue;
         if (i->rs1 != base || i->rs2 != idx)
             continue;
+        /* It must read the same object through this very address */
+        if (i->next->rs1 != i->rd || i->next->sz != insn->sz)
+            continue;
         basic_block_t *i_bb = i->belong_to;
         bool check_dom = 0;
         /* Check if the instructions are under the same dominate tree */
@@ -1273,24 +1300,12 @@ bool cse(insn_t *insn, basic_block_t *bb)
         }
         if (!check_dom)
             continue;
+        if (!is_mem_unchanged(insn, i))
+            continue;
 
+        /* the address is left for dead code elimination */
         i->next->opcode = OP_assign;
         i->next->rs1 = def;
-        if (i->prev) {
-            i->prev->next = i->next;
-            i->next->prev = i->prev;
-        } else {
-            i->belong_to->insn_list.head = i->next;
-            i->next->prev = NULL;
-        }
-        i->next->opcode = OP_assign;
-        i->next->rs1 = def;
-        /* Prepare information for deleting use chain nodes */
-        rs1_delete_user = user;
-        for (rs2_delete_user = i->rs2->users_head;
-             rs2_delete_user->insn != rs1_delete_user->insn;
-             rs2_delete_user = rs2_delete_user->next)
-            ;
     }
     return true;
 }
-- 
2.43.0


From ba1b256ba39dc6a32d85a2309da8b2d7f34c8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 26/45] fix: local variables pointers refer to

Each assignment of a local variable got a slot of its own, so that a pointer
kept referring to the first one, and constants were propagated regardless of
writes through pointers. Such variables now stay in memory.
---
 src/defs.h      |  1 +
 src/reg-alloc.c | 28 +++++++++++---------
 src/ssa.c       | 68 ++++++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 79 insertions(+), 18 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index 631b355..3d2cb73 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -189,6 +189,7 @@ struct var {
     int is_ptr;
     bool is_func;
     bool is_global;
+    bool is_addressed; /* local variable which pointers may refer to */
     int array_size;
     int offset;   /* offset from stack or frame, index 0 is reserved */
     int init_val; /* for global initialization */
diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index b9b2913..c6d45fd 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -335,6 +335,14 @@ void reg_alloc()
             }
         }
 
+        /* arguments which pointers may refer to are kept in memory */
+        for (int i = 0; i < fn->func->num_params; i++)
+            if (is_in_memory(REGS[i].var)) {
+                var_t *var = REGS[i].var;
+                spill_var(fn->bbs, var, i);
+                REGS[i].var = var;
+            }
+
         for (basic_block_t *bb = fn->bbs; bb; bb = bb->rpo_next) {
             int is_pushing_args = 0, args = 0;
 
@@ -401,12 +409,10 @@ void reg_alloc()
                     ir->src0 = insn->rd->init_val;
                     ir->dest = dest;
 
-                    /* store global variable immediately after assignment */
-                    if (insn->rd->is_global) {
-                        ir = bb_add_ph2_ir(bb, OP_global_store);
-                        ir->src0 = dest;
-                        ir->src1 = insn->rd->offset;
-                        REGS[dest].polluted = 0;
+                    /* store variable in memory immediately after assignment */
+                    if (is_in_memory(insn->rd)) {
+                        spill_var(bb, insn->rd, dest);
+                        REGS[dest].var = insn->rd;
                     }
 
                     break;
@@ -452,12 +458,10 @@ void reg_alloc()
                     ir->src0 = src0;
                     ir->dest = dest;
 
-                    /* store global variable immediately after assignment */
-                    if (insn->rd->is_global) {
-                        ir = bb_add_ph2_ir(bb, OP_global_store);
-                        ir->src0 = dest;
-                        ir->src1 = insn->rd->offset;
-                        REGS[dest].polluted = 0;
+                    /* store variable in memory immediately after assignment */
+                    if (is_in_memory(insn->rd)) {
+                        spill_var(bb, insn->rd, dest);
+                        REGS[dest].var = insn->rd;
                     }
 
                     if (clear_reg)
diff --git a/src/ssa.c b/src/ssa.c
index b4b16f1..ec96820 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -875,6 +875,61 @@ void unwind_phi()
     free(args);
 }
 
+bool is_in_memory(var_t *var)
+{
+    return var->is_global || var->is_addressed;
+}
+
+/* Only one of the subscripts lies where the pointers refer to */
+var_t *join_subscripts(var_t *var)
+{
+    if (var && var->base && var->base->is_addressed)
+        return var->base;
+    return var;
+}
+
+/* The variables which may change through a pointer stay in memory: they are
+ * neither renamed nor kept in a register across the blocks.
+ */
+void join_addressed_vars()
+{
+    for (fn_t *fn = FUNC_LIST.head; fn; fn = fn->next) {
+        for (basic_block_t *bb = fn->bbs; bb; bb = bb->rpo_next) {
+            for (insn_t *insn = bb->insn_list.head; insn; insn = insn->next) {
+                if (insn->opcode != OP_address_of)
+                    continue;
+                if (insn->rs1->is_global || insn->rs1->array_size)
+                    continue;
+                insn->rs1->base->is_addressed = true;
+            }
+        }
+
+        for (basic_block_t *bb = fn->bbs; bb; bb = bb->rpo_next) {
+            for (insn_t *insn = bb->insn_list.head; insn; insn = insn->next) {
+                insn->rd = join_subscripts(insn->rd);
+                insn->rs1 = join_subscripts(insn->rs1);
+                insn->rs2 = join_subscripts(insn->rs2);
+                if (insn->opcode == OP_unwound_phi && insn->rd == insn->rs1) {
+                    /* the variable keeps its value */
+                    if (insn->next)
+                        insn->next->prev = insn->prev;
+                    else
+                        bb->insn_list.tail = insn->prev;
+                    if (insn->prev)
+                        insn->prev->next = insn->next;
+                    else
+                        bb->insn_list.head = insn->next;
+                }
+            }
+        }
+
+        for (int i = 0; i < fn->func->num_params; i++) {
+            var_t *var = &fn->func->param_defs[i];
+            var->subscripts[0] = join_subscripts(var->subscripts[0]);
+        }
+    }
+}
+
 /*
  * The current cfonrt does not yet support string literal addressing, which
  * results in the omission of basic block visualization during the stage-1 and
@@ -1216,6 +1271,7 @@ void ssa_build(int dump_ir)
 #endif
 
     unwind_phi();
+    join_addressed_vars();
 }
 
 /* Check that memory is left alone on the only path from a read to a later one */
@@ -1231,8 +1287,8 @@ bool is_mem_unchanged(insn_t *from, insn_t *to)
             if (insn->opcode == OP_write || insn->opcode == OP_call ||
                 insn->opcode == OP_indirect)
                 return false;
-            /* assigning a global variable changes memory as well */
-            if (insn->rd && insn->rd->is_global)
+            /* assigning a variable in memory changes it as well */
+            if (insn->rd && is_in_memory(insn->rd))
                 return false;
         }
 
@@ -1268,7 +1324,7 @@ bool cse(insn_t *insn, basic_block_t *bb)
         return false;
 
     var_t *def = insn->rd, *base = prev->rs1, *idx = prev->rs2;
-    if (base->is_global || idx->is_global)
+    if (is_in_memory(base) || is_in_memory(idx))
         return false;
 
     for (use_chain_t *user = base->users_head; user; user = user->next) {
@@ -1322,7 +1378,7 @@ bool mark_const(insn_t *insn)
     /* The global variable is unique and has no subscripts in our SSA. Do NOT
      * evaluate its value.
      */
-    if (insn->rd->is_global)
+    if (is_in_memory(insn->rd))
         return false;
     if (!insn->rs1->is_const) {
         if (!insn->prev)
@@ -1438,7 +1494,7 @@ int dce_init_mark(insn_t *insn, insn_t *work_list[], int work_list_idx)
         if (!insn->rd)
             break;
         /* if the instruction affects a global value, set "useful" */
-        if (insn->rd->is_global && !insn->useful) {
+        if (is_in_memory(insn->rd) && !insn->useful) {
             insn->useful = true;
             insn->belong_to->useful = true;
             work_list[work_list_idx + mark_num] = insn;
@@ -1641,7 +1697,7 @@ void bb_reset_live_kill_idx(fn_t *fn, basic_block_t *bb)
 
 void add_live_gen(basic_block_t *bb, var_t *var)
 {
-    if (var->is_global)
+    if (is_in_memory(var))
         return;
 
     for (int i = 0; i < bb->live_gen_idx; i++) {
-- 
2.43.0


From 4d4932033ec43c1987f158facfec2e4817a0f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 27/45] fix: '/ *' and '- -' are separate tokens, comments may
 end in '**/'

White space was skipped before the second character of an operator, so a / *p
started a comment and a - -b was a decrement; /***/ was not closed.
---
 src/lexer.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 7b3cadb..c16437b 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -227,14 +227,14 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (next_char == '/') {
-        read_char(true);
+        read_char(false);
 
         /* C-style comments */
         if (next_char == '*') {
             /* in a comment, skip until end */
             do {
                 read_char(false);
-                if (next_char == '*') {
+                while (next_char == '*') {
                     read_char(false);
                     if (next_char == '/') {
                         read_char(true);
@@ -261,6 +261,7 @@ token_t lex_token_internal(bool aliasing)
             return T_divideeq;
         }
 
+        skip_whitespace();
         return T_divide;
     }
 
@@ -302,13 +303,14 @@ token_t lex_token_internal(bool aliasing)
         return T_comma;
     }
     if (next_char == '^') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_xoreq;
         }
 
+        skip_whitespace();
         return T_bit_xor;
     }
     if (next_char == '~') {
@@ -379,13 +381,14 @@ token_t lex_token_internal(bool aliasing)
         return T_char;
     }
     if (next_char == '*') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_asteriskeq;
         }
 
+        skip_whitespace();
         return T_asterisk;
     }
     if (next_char == '&') {
@@ -421,26 +424,28 @@ token_t lex_token_internal(bool aliasing)
             return T_le;
         }
         if (next_char == '<') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_lshifteq;
             }
 
+            skip_whitespace();
             return T_lshift;
         }
         skip_whitespace();
         return T_lt;
     }
     if (next_char == '%') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_modeq;
         }
 
+        skip_whitespace();
         return T_mod;
     }
     if (next_char == '>') {
@@ -450,13 +455,14 @@ token_t lex_token_internal(bool aliasing)
             return T_ge;
         }
         if (next_char == '>') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_rshifteq;
             }
 
+            skip_whitespace();
             return T_rshift;
         }
         skip_whitespace();
@@ -485,7 +491,7 @@ token_t lex_token_internal(bool aliasing)
         return T_dot;
     }
     if (next_char == '-') {
-        read_char(true);
+        read_char(false);
         if (next_char == '>') {
             read_char(true);
             return T_arrow;
-- 
2.43.0


From f2d3def705521b440f8e9454d8403bc75d5abbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 28/45] fix: backslashes and missing quotes in string literals

A backslash that ended an escape sequence started the next one, so "\\n" was a
line break; an unclosed literal ran over the token buffer.
---
 src/lexer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index c16437b..cb52b9d 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -322,7 +322,9 @@ token_t lex_token_internal(bool aliasing)
         int special = 0;
 
         while ((read_char(false) != '"') || special) {
-            if ((i > 0) && (token_str[i - 1] == '\\')) {
+            if (!next_char)
+                error("Unenclosed string literal");
+            if (special) {
                 if (next_char == 'n')
                     token_str[i - 1] = '\n';
                 else if (next_char == '"')
@@ -342,7 +344,7 @@ token_t lex_token_internal(bool aliasing)
             } else {
                 token_str[i++] = next_char;
             }
-            if (next_char == '\\')
+            if (next_char == '\\' && !special)
                 special = 1;
             else
                 special = 0;
-- 
2.43.0


From 82d82c03614b24c38967eccc33907412d662d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:35 +0000
Subject: [PATCH 29/45] fix: report errors at the end of the source, CRLF after
 a comment

The diagnostic copied the rest of the source buffer when no line break followed.
---
 src/globals.c | 5 +++--
 src/lexer.c   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index a470351..b3d34e6 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -969,13 +969,14 @@ void error(char *msg)
     start_idx = offset + 1;
 
     for (offset = 0;
-         offset < MAX_SOURCE && SOURCE->elements[start_idx + offset] != '\n';
+         offset < MAX_LINE_LEN && SOURCE->elements[start_idx + offset] &&
+         SOURCE->elements[start_idx + offset] != '\n';
          offset++) {
         diagnostic[i++] = SOURCE->elements[start_idx + offset];
     }
     diagnostic[i++] = '\n';
 
-    for (offset = start_idx; offset < SOURCE->size; offset++) {
+    for (offset = start_idx; offset < SOURCE->size && i < 480; offset++) {
         diagnostic[i++] = ' ';
     }
 
diff --git a/src/lexer.c b/src/lexer.c
index cb52b9d..f7ba4d5 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -609,7 +609,7 @@ token_t lex_token_internal(bool aliasing)
     /* This only happens when parsing a macro. Move to the token after the
      * macro definition or return to where the macro has been called.
      */
-    if (next_char == '\n') {
+    if (is_newline(next_char)) {
         if (macro_return_idx) {
             SOURCE->size = macro_return_idx;
             next_char = SOURCE->elements[SOURCE->size];
-- 
2.43.0


From f0944297be911a7904235a7df9918b2b71923a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 30/45] fix: nested conditional directives

Skipping stopped at the #else or #endif of a nested conditional, an inner #endif
forgot that a group of the outer one had been taken, and #ifdef did not know
function-like macros.
---
 src/parser.c | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 4ebe405..a6b86f4 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -239,7 +239,8 @@ int read_constant_expr_operand()
         lex_ident(T_identifier, lookup_alias);
         lex_expect(T_close_bracket);
 
-        return find_alias(lookup_alias) ? 1 : 0;
+        bool defined = find_alias(lookup_alias) || find_macro(lookup_alias);
+        return defined;
     }
 
     error("Unexpected token while evaluating constant");
@@ -368,20 +369,45 @@ int read_constant_expr()
 }
 
 /* Skips lines where preprocessor match is false, this will stop once next
- * token is either 'T_cppd_elif', 'T_cppd_else' or 'cppd_endif'.
+ * token is either 'T_cppd_elif', 'T_cppd_else' or 'cppd_endif' of the same
+ * conditional.
  */
 void cppd_control_flow_skip_lines()
 {
-    while (!lex_peek(T_cppd_elif, NULL) && !lex_peek(T_cppd_else, NULL) &&
-           !lex_peek(T_cppd_endif, NULL)) {
+    int depth = 0;
+
+    while (depth ||
+           (!lex_peek(T_cppd_elif, NULL) && !lex_peek(T_cppd_else, NULL) &&
+            !lex_peek(T_cppd_endif, NULL))) {
+        if (lex_peek(T_eof, NULL))
+            error("Unterminated conditional directive");
+        if (lex_peek(T_cppd_if, NULL) || lex_peek(T_cppd_ifdef, NULL) ||
+            lex_peek(T_cppd_ifndef, NULL))
+            depth++;
+        else if (lex_peek(T_cppd_endif, NULL))
+            depth--;
         next_token = lex_token();
     }
     skip_whitespace();
 }
 
+/* Has a group of the enclosing conditionals been taken? */
+bool cppd_taken[MAX_NESTING];
+int cppd_depth = 0;
+
+void cppd_enter()
+{
+    if (cppd_depth >= MAX_NESTING)
+        error("Too many nested conditional directives");
+    cppd_taken[cppd_depth++] = preproc_match;
+    preproc_match = false;
+}
+
 void check_def(char *alias, bool expected)
 {
-    if ((find_alias(alias) != NULL) == expected)
+    bool defined = find_alias(alias) || find_macro(alias);
+
+    if (defined == expected)
         preproc_match = true;
 }
 
@@ -485,6 +511,7 @@ bool read_preproc_directive()
         error(error_diagnostic);
     }
     if (lex_accept(T_cppd_if)) {
+        cppd_enter();
         preproc_match = read_constant_expr() != 0;
 
         if (preproc_match) {
@@ -497,8 +524,10 @@ bool read_preproc_directive()
     }
     if (lex_accept(T_cppd_elif)) {
         if (preproc_match) {
+            cppd_control_flow_skip_lines();
             while (!lex_peek(T_cppd_endif, NULL)) {
                 next_token = lex_token();
+                cppd_control_flow_skip_lines();
             }
             return true;
         }
@@ -527,12 +556,14 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept(T_cppd_endif)) {
-        preproc_match = false;
+        if (!cppd_depth)
+            error("Unexpected #endif");
+        preproc_match = cppd_taken[--cppd_depth];
         skip_whitespace();
         return true;
     }
     if (lex_accept_internal(T_cppd_ifdef, false)) {
-        preproc_match = false;
+        cppd_enter();
         lex_ident(T_identifier, token);
         check_def(token, true);
 
@@ -545,7 +576,7 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept_internal(T_cppd_ifndef, false)) {
-        preproc_match = false;
+        cppd_enter();
         lex_ident(T_identifier, token);
         check_def(token, false);
 
-- 
2.43.0


From 5e41a9635be8222e1e46af516774b35bd8b2039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 31/45] fix: '!' and '~' in #if conditions

---
 src/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index a6b86f4..c528851 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -256,6 +256,12 @@ int read_constant_infix_expr(int precedence)
 
     /* Evaluate unary expression first */
     opcode_t op = get_operator();
+    if (op == OP_generic) {
+        if (lex_accept(T_log_not))
+            op = OP_log_not;
+        else if (lex_accept(T_bit_not))
+            op = OP_bit_not;
+    }
     int current_precedence = get_unary_operator_prio(op);
     if (current_precedence != 0 && current_precedence >= precedence) {
         lhs = read_constant_infix_expr(current_precedence);
-- 
2.43.0


From 25d98b0fdcce83c3158823559467a39e60e9faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:03 +0000
Subject: [PATCH 32/45] fix: temporaries that live across '?:' or '&&' within a
 branch

g(1, x ? 1 : 2) in the branch of an if failed, since the joining block
got a phi function of a temporary that has no value on the other edge.
---
 src/ssa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index ec96820..7cc2e62 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -722,6 +722,10 @@ void pop_name(var_t *var)
 
 void append_phi_operand(insn_t *insn, var_t *var, basic_block_t *bb_from)
 {
+    /* a temporary has no value where it is not computed, and no use there */
+    if (var->base->rename.stack_idx < 1)
+        return;
+
     phi_operand_t *op = calloc(1, sizeof(phi_operand_t));
     op->from = bb_from;
     op->var = get_stack_top_subscript_var(var);
-- 
2.43.0


From 0edacaedba384cdf8564c59c777cb2936a844760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 33/45] fix: calls of function-like macros

The operators around a call were applied to more than the body of the
macro (2 * F(1) + 3), arguments could neither be conditional expressions
nor contain parentheses or the names of the parameters, and only the last
argument was passed for __VA_ARGS__.
---
 src/lexer.c  |   5 ++
 src/parser.c | 158 ++++++++++++++++++++++++++-------------------------
 2 files changed, 85 insertions(+), 78 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index f7ba4d5..c41f0c5 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -101,6 +101,9 @@ bool preproc_match;
  */
 int macro_return_idx;
 
+/* Set while the argument of a macro is read in place of its parameter. */
+bool macro_in_arg;
+
 bool is_whitespace(char c)
 {
     return c == ' ' || c == '\t';
@@ -613,6 +616,8 @@ token_t lex_token_internal(bool aliasing)
         if (macro_return_idx) {
             SOURCE->size = macro_return_idx;
             next_char = SOURCE->elements[SOURCE->size];
+            macro_return_idx = 0;
+            skip_newline = true;
         } else
             next_char = read_char(true);
         return lex_token_internal(aliasing);
diff --git a/src/parser.c b/src/parser.c
index c528851..fa4a0c4 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -786,10 +786,15 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
 
     lex_expect(T_open_bracket);
     while (!lex_accept(T_close_bracket)) {
+        int first = operand_stack_idx;
+
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
 
-        params[param_num++] = opstack_pop();
+        /* '__VA_ARGS__' may be several arguments */
+        for (int i = first; i < operand_stack_idx; i++)
+            params[param_num++] = operand_stack[i];
+        operand_stack_idx = first;
         lex_accept(T_comma);
     }
     for (int i = 0; i < param_num; i++) {
@@ -874,6 +879,67 @@ void negate_operand(block_t *parent, basic_block_t *bb)
 /* Maintain a stack of expression values and operators, depending on next
  * operators' priority. Either apply it or operator on stack first.
  */
+/* Read the arguments of a macro call and move to the body of the macro. The
+ * lexer returns from there (see 'macro_return_idx').
+ */
+void enter_macro(macro_t *mac, block_t *parent)
+{
+    int depth = 0;
+
+    if (macro_in_arg || macro_return_idx)
+        error("Nested macro is not yet supported");
+
+    /* the body may leave the block it starts in */
+    for (block_t *blk = parent; blk; blk = blk->parent)
+        blk->macro = mac;
+    mac->num_params = 0;
+    lex_expect(T_identifier);
+
+    /* 'size' has pointed at the first parameter */
+    while (!lex_peek(T_close_bracket, NULL)) {
+        mac->params[mac->num_params++] = SOURCE->size;
+        next_token = lex_token();
+        while (depth ||
+               (next_token != T_comma && next_token != T_close_bracket)) {
+            if (next_token == T_open_bracket)
+                depth++;
+            if (next_token == T_close_bracket)
+                depth--;
+            if (next_token == T_eof)
+                error("Unterminated macro call");
+            next_token = lex_token();
+        }
+    }
+
+    /* move 'size' to the macro body */
+    macro_return_idx = SOURCE->size;
+    SOURCE->size = mac->start_source_idx;
+    next_char = SOURCE->elements[SOURCE->size];
+    skip_newline = false;
+    lex_expect(T_close_bracket);
+}
+
+/* "Expand" a macro parameter: read the argument from where it comes from */
+void read_macro_arg(int idx, block_t *parent, basic_block_t **bb)
+{
+    int t = SOURCE->size, return_idx = macro_return_idx;
+
+    /* the argument is not part of the macro body */
+    macro_in_arg = true;
+    macro_return_idx = 0;
+    skip_newline = true;
+    SOURCE->size = idx;
+    next_char = SOURCE->elements[SOURCE->size];
+    next_token = lex_token();
+    read_expr(parent, bb);
+    read_ternary_operation(parent, bb);
+    macro_in_arg = false;
+    macro_return_idx = return_idx;
+    skip_newline = false;
+    SOURCE->size = t;
+    next_char = SOURCE->elements[SOURCE->size];
+}
+
 void read_expr_operand(block_t *parent, basic_block_t **bb)
 {
     ph1_ir_t *ph1_ir;
@@ -1008,67 +1074,29 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         constant_t *con = find_constant(token);
         var_t *var = find_var(token, parent);
         func_t *fn = find_func(token);
-        int macro_param_idx = find_macro_param_src_idx(token, parent);
+        int macro_param_idx = 0;
+        if (macro_return_idx)
+            macro_param_idx = find_macro_param_src_idx(token, parent);
         macro_t *mac = find_macro(token);
 
         if (!strcmp(token, "__VA_ARGS__")) {
-            /* 'size' has pointed at the character after __VA_ARGS__ */
-            int remainder, t = SOURCE->size;
             macro_t *macro = parent->macro;
 
-            if (!macro)
+            if (!macro || !macro_return_idx)
                 error("The '__VA_ARGS__' identifier can only be used in macro");
             if (!macro->is_variadic)
                 error("Unexpected identifier '__VA_ARGS__'");
 
-            remainder = macro->num_params - macro->num_param_defs;
-            for (int i = 0; i < remainder; i++) {
-                SOURCE->size = macro->params[macro->num_params - remainder + i];
-                next_char = SOURCE->elements[SOURCE->size];
-                next_token = lex_token();
-                read_expr(parent, bb);
-            }
-            SOURCE->size = t;
-            next_char = SOURCE->elements[SOURCE->size];
+            /* 'size' has pointed at the character after __VA_ARGS__ */
+            for (int i = macro->num_param_defs; i < macro->num_params; i++)
+                read_macro_arg(macro->params[i], parent, bb);
             next_token = lex_token();
         } else if (mac) {
-            if (parent->macro)
-                error("Nested macro is not yet supported");
-
-            parent->macro = mac;
-            mac->num_params = 0;
-            lex_expect(T_identifier);
-
-            /* 'size' has pointed at the first parameter */
-            while (!lex_peek(T_close_bracket, NULL)) {
-                mac->params[mac->num_params++] = SOURCE->size;
-                do {
-                    next_token = lex_token();
-                } while (next_token != T_comma &&
-                         next_token != T_close_bracket);
-            }
-            /* move 'size' to the macro body */
-            macro_return_idx = SOURCE->size;
-            SOURCE->size = mac->start_source_idx;
-            next_char = SOURCE->elements[SOURCE->size];
-            lex_expect(T_close_bracket);
-
-            skip_newline = 0;
-            read_expr(parent, bb);
-
-            /* cleanup */
-            skip_newline = 1;
-            parent->macro = NULL;
-            macro_return_idx = 0;
+            /* the macro body and what follows the call are one expression */
+            enter_macro(mac, parent);
+            read_expr_operand(parent, bb);
         } else if (macro_param_idx) {
-            /* "expand" the argument from where it comes from */
-            int t = SOURCE->size;
-            SOURCE->size = macro_param_idx;
-            next_char = SOURCE->elements[SOURCE->size];
-            next_token = lex_token();
-            read_expr(parent, bb);
-            SOURCE->size = t;
-            next_char = SOURCE->elements[SOURCE->size];
+            read_macro_arg(macro_param_idx, parent, bb);
             next_token = lex_token();
         } else if (con) {
             ph1_ir = add_ph1_ir(OP_load_constant);
@@ -3253,34 +3281,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
     mac = find_macro(token);
     if (mac) {
-        if (parent->macro)
-            error("Nested macro is not yet supported");
-
-        parent->macro = mac;
-        mac->num_params = 0;
-        lex_expect(T_identifier);
-
-        /* 'size' has pointed at the first parameter */
-        while (!lex_peek(T_close_bracket, NULL)) {
-            mac->params[mac->num_params++] = SOURCE->size;
-            do {
-                next_token = lex_token();
-            } while (next_token != T_comma && next_token != T_close_bracket);
-        }
-        /* move 'size' to the macro body */
-        macro_return_idx = SOURCE->size;
-        SOURCE->size = mac->start_source_idx;
-        next_char = SOURCE->elements[SOURCE->size];
-        lex_expect(T_close_bracket);
-
-        skip_newline = 0;
-        bb = read_body_statement(parent, bb);
-
-        /* cleanup */
-        skip_newline = 1;
-        parent->macro = NULL;
-        macro_return_idx = 0;
-        return bb;
+        enter_macro(mac, parent);
+        return read_body_statement(parent, bb);
     }
 
     /* is a function call? */
-- 
2.43.0


From 918473ee7e87125ee61fcdd0cf5005f8d1b8a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 34/45] fix: object-like macros

An alias of an identifier was taken for a string, a name defined without
a value took the first word of the next line, values in parentheses or with
a sign were refused, and strings longer than 31 characters overran the value.
---
 src/defs.h    |  4 +++-
 src/globals.c |  6 ++++--
 src/lexer.c   | 34 ++++++++++++++++--------------
 src/parser.c  | 58 ++++++++++++++++++++++++++++++++++++++++-----------
 4 files changed, 71 insertions(+), 31 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index 3d2cb73..640686a 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -215,6 +215,7 @@ typedef struct var var_t;
 typedef struct {
     char name[MAX_VAR_LEN];
     bool is_variadic;
+    bool is_object; /* without parameters */
     int start_source_idx;
     var_t param_defs[MAX_PARAMS];
     int num_param_defs;
@@ -323,7 +324,8 @@ typedef struct {
 /* alias for #defines */
 typedef struct {
     char alias[MAX_VAR_LEN];
-    char value[MAX_VAR_LEN];
+    char value[MAX_TOKEN_LEN];
+    bool is_string;
     bool disabled;
 } alias_t;
 
diff --git a/src/globals.c b/src/globals.c
index b3d34e6..c6d3fcd 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -491,14 +491,15 @@ void add_alias(char *alias, char *value)
     alias_t *al = &ALIASES[aliases_idx++];
     strcpy(al->alias, alias);
     strcpy(al->value, value);
+    al->is_string = false;
     al->disabled = false;
 }
 
-char *find_alias(char alias[])
+alias_t *find_alias(char alias[])
 {
     for (int i = 0; i < aliases_idx; i++) {
         if (!ALIASES[i].disabled && !strcmp(alias, ALIASES[i].alias))
-            return ALIASES[i].value;
+            return &ALIASES[i];
     }
     return NULL;
 }
@@ -518,6 +519,7 @@ macro_t *add_macro(char *name)
 {
     macro_t *ma = &MACROS[macros_idx++];
     strcpy(ma->name, name);
+    ma->is_object = false;
     ma->disabled = false;
     return ma;
 }
diff --git a/src/lexer.c b/src/lexer.c
index c41f0c5..975328e 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -101,6 +101,9 @@ bool preproc_match;
  */
 int macro_return_idx;
 
+/* Set when a token has been found on another line than the one before it. */
+bool lex_newline;
+
 /* Set while the argument of a macro is read in place of its parameter. */
 bool macro_in_arg;
 
@@ -548,7 +551,7 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (is_alnum(next_char)) {
-        char *alias;
+        alias_t *alias;
         int i = 0;
         do {
             token_str[i++] = next_char;
@@ -589,20 +592,17 @@ token_t lex_token_internal(bool aliasing)
 
         if (aliasing) {
             alias = find_alias(token_str);
-            if (alias) {
-                /* FIXME: comparison with string "bool" is a temporary hack */
-                token_t t;
-
-                if (is_numeric(alias)) {
-                    t = T_numeric;
-                } else if (!strcmp(alias, "_Bool")) {
-                    t = T_identifier;
-                } else {
-                    t = T_string;
-                }
 
-                strcpy(token_str, alias);
-                return t;
+            for (i = 0; alias && i < aliases_idx; i++) {
+                strcpy(token_str, alias->value);
+                if (alias->is_string)
+                    return T_string;
+                if (!token_str[0])
+                    return lex_token_internal(true);
+                if (is_numeric(token_str))
+                    return T_numeric;
+                /* an identifier, which may be the name of another alias */
+                alias = find_alias(token_str);
             }
         }
 
@@ -618,8 +618,10 @@ token_t lex_token_internal(bool aliasing)
             next_char = SOURCE->elements[SOURCE->size];
             macro_return_idx = 0;
             skip_newline = true;
-        } else
+        } else {
+            lex_newline = true;
             next_char = read_char(true);
+        }
         return lex_token_internal(aliasing);
     }
 
@@ -643,7 +645,7 @@ token_t lex_token()
 /* Skip the content. We only need the index where the macro body begins. */
 void skip_macro_body()
 {
-    while (!is_newline(next_char))
+    while (!is_newline(next_char) && next_token != T_eof)
         next_token = lex_token();
 
     skip_newline = true;
diff --git a/src/parser.c b/src/parser.c
index fa4a0c4..f425521 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -456,24 +456,43 @@ bool read_preproc_directive()
 
         return true;
     }
-    if (lex_accept(T_cppd_define)) {
+    if (lex_peek(T_cppd_define, NULL)) {
         char alias[MAX_VAR_LEN];
-        char value[MAX_VAR_LEN];
+        char value[MAX_TOKEN_LEN];
 
+        skip_newline = false;
+        lex_expect_internal(T_cppd_define, false);
+
+        /* 'idx' points at what follows the name */
+        int idx = SOURCE->size;
+        bool is_call = next_char == '(' && is_alnum(SOURCE->elements[idx - 1]);
+
+        lex_newline = false;
         lex_ident_internal(T_identifier, alias, false);
+        skip_newline = true;
 
-        if (lex_peek(T_numeric, value)) {
+        if (lex_newline || lex_peek(T_eof, NULL)) {
+            /* Empty alias, may be dummy alias serves as include guard */
+            value[0] = 0;
+            add_alias(alias, value);
+            SOURCE->size = idx;
+            next_char = SOURCE->elements[idx];
+            skip_whitespace();
+            next_token = lex_token();
+        } else if (lex_peek(T_numeric, value)) {
             lex_expect(T_numeric);
             add_alias(alias, value);
         } else if (lex_peek(T_string, value)) {
             lex_expect(T_string);
             add_alias(alias, value);
+            ALIASES[aliases_idx - 1].is_string = true;
         } else if (lex_peek(T_identifier, value)) {
             lex_expect(T_identifier);
             add_alias(alias, value);
-        } else if (lex_accept(T_open_bracket)) { /* function-like macro */
+        } else if (is_call) { /* function-like macro */
             macro_t *macro = add_macro(alias);
 
+            lex_expect(T_open_bracket);
             skip_newline = false;
             while (lex_peek(T_identifier, alias)) {
                 lex_expect(T_identifier);
@@ -487,9 +506,12 @@ bool read_preproc_directive()
             macro->start_source_idx = SOURCE->size;
             skip_macro_body();
         } else {
-            /* Empty alias, may be dummy alias serves as include guard */
-            value[0] = 0;
-            add_alias(alias, value);
+            macro_t *macro = add_macro(alias);
+
+            macro->is_object = true;
+            macro->start_source_idx = idx;
+            skip_newline = false;
+            skip_macro_body();
         }
 
         return true;
@@ -879,6 +901,14 @@ void negate_operand(block_t *parent, basic_block_t *bb)
 /* Maintain a stack of expression values and operators, depending on next
  * operators' priority. Either apply it or operator on stack first.
  */
+void move_to_macro_body(macro_t *mac)
+{
+    macro_return_idx = SOURCE->size;
+    SOURCE->size = mac->start_source_idx;
+    next_char = SOURCE->elements[SOURCE->size];
+    skip_newline = false;
+}
+
 /* Read the arguments of a macro call and move to the body of the macro. The
  * lexer returns from there (see 'macro_return_idx').
  */
@@ -893,7 +923,15 @@ void enter_macro(macro_t *mac, block_t *parent)
     for (block_t *blk = parent; blk; blk = blk->parent)
         blk->macro = mac;
     mac->num_params = 0;
+    if (mac->is_object) {
+        move_to_macro_body(mac);
+        next_token = lex_token();
+        return;
+    }
+
     lex_expect(T_identifier);
+    if (!lex_peek(T_open_bracket, NULL))
+        error("Unexpected token after the name of a macro");
 
     /* 'size' has pointed at the first parameter */
     while (!lex_peek(T_close_bracket, NULL)) {
@@ -911,11 +949,7 @@ void enter_macro(macro_t *mac, block_t *parent)
         }
     }
 
-    /* move 'size' to the macro body */
-    macro_return_idx = SOURCE->size;
-    SOURCE->size = mac->start_source_idx;
-    next_char = SOURCE->elements[SOURCE->size];
-    skip_newline = false;
+    move_to_macro_body(mac);
     lex_expect(T_close_bracket);
 }
 
-- 
2.43.0


From 44dc4dadb6efff7cea5fe56a6c204fcdfe224dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 35/45] fix: array sizes of any length

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index f425521..0cfb14f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -654,7 +654,7 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
             }
         }
         if (lex_accept(T_open_square)) {
-            char buffer[10];
+            char buffer[MAX_TOKEN_LEN];
 
             /* array with size */
             if (lex_peek(T_numeric, buffer)) {
-- 
2.43.0


From e806d12e09f994d5085b9e00a030d2afeaa85c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 36/45] fix: local variables hide enumerators

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 0cfb14f..cc9363b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1107,6 +1107,9 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         /* is a constant or variable? */
         constant_t *con = find_constant(token);
         var_t *var = find_var(token, parent);
+        /* a local variable hides the constant of that name */
+        if (find_local_var(token, parent))
+            con = NULL;
         func_t *fn = find_func(token);
         int macro_param_idx = 0;
         if (macro_return_idx)
-- 
2.43.0


From 5380e135c13782ea2353f11bb13e951700de6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 37/45] fix: typedef of a structure type keeps its members

---
 src/parser.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index cc9363b..1230421 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3544,9 +3544,12 @@ void read_global_statement()
             base = find_type(base_type, 1);
             if (!base)
                 error("Unable to find base type");
-            type->base_type = base->base_type;
-            type->size = base->size;
-            type->num_fields = 0;
+            /* members come with the type */
+            memcpy(type, base, sizeof(type_t));
+            if (base->base_type == TYPE_struct) {
+                type->base_type = TYPE_typedef;
+                type->base_struct = base;
+            }
             lex_ident(T_identifier, type->type_name);
             lex_expect(T_semicolon);
         }
-- 
2.43.0


From 50cdd522947f64a94e95494771a9448ae769109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 38/45] fix: structure tags in declarations of variables,
 functions and parameters

---
 src/parser.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 1230421..c4b428b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -693,7 +693,7 @@ void read_parameter_list_decl(func_t *fd, int anon)
 {
     int vn = 0;
     lex_expect(T_open_bracket);
-    while (lex_peek(T_identifier, NULL) == 1) {
+    while (lex_peek(T_identifier, NULL) || lex_peek(T_struct, NULL)) {
         read_full_var_decl(&fd->param_defs[vn++], anon, 1);
         lex_accept(T_comma);
     }
@@ -3028,10 +3028,10 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         bb_connect(bb, setup, NEXT);
 
         if (!lex_accept(T_semicolon)) {
+            int find_type_flag = lex_accept(T_struct) ? 2 : 1;
             if (!lex_peek(T_identifier, token))
                 error("Unexpected token");
 
-            int find_type_flag = lex_accept(T_struct) ? 2 : 1;
             type = find_type(token, find_type_flag);
             if (type) {
                 var = require_var(blk);
@@ -3269,12 +3269,12 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         prefix_op = OP_add;
     else if (lex_accept(T_decrement))
         prefix_op = OP_sub;
-    /* must be an identifier */
+    /* must be an identifier, or the tag of a structure */
+    int find_type_flag = lex_accept(T_struct) ? 2 : 1;
     if (!lex_peek(T_identifier, token))
         error("Unexpected token");
 
     /* is it a variable declaration? */
-    int find_type_flag = lex_accept(T_struct) ? 2 : 1;
     type = find_type(token, find_type_flag);
     if (type) {
         var = require_var(parent);
@@ -3385,13 +3385,17 @@ void read_func_body(func_t *fdef, fn_t *fn)
 }
 
 /* if first token is type */
-void read_global_decl(block_t *block)
+void read_global_decl(block_t *block, char *tag)
 {
     var_t *var = require_var(block);
     var->is_global = true;
 
     /* new function, or variables under parent */
-    read_full_var_decl(var, 0, 0);
+    if (tag) {
+        strcpy(var->type_name, tag);
+        read_inner_var_decl(var, 0, 0);
+    } else
+        read_full_var_decl(var, 0, 0);
 
     if (lex_peek(T_open_bracket, NULL)) {
         /* function */
@@ -3448,6 +3452,13 @@ void read_global_statement()
 
         lex_ident(T_identifier, token);
 
+        if (lex_accept(T_semicolon)) /* forward declaration */
+            return;
+        if (!lex_peek(T_open_curly, NULL)) {
+            read_global_decl(block, token);
+            return;
+        }
+
         /* has forward declaration? */
         type_t *type = find_type(token, 2);
         if (!type)
@@ -3554,7 +3565,7 @@ void read_global_statement()
             lex_expect(T_semicolon);
         }
     } else if (lex_peek(T_identifier, NULL)) {
-        read_global_decl(block);
+        read_global_decl(block, NULL);
     } else
         error("Syntax error in global statement");
 }
-- 
2.43.0


From c1bbe915b7633626885151d4aaea75dcc825e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 39/45] fix: local variables hide functions in statements

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index c4b428b..df69b8a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3324,7 +3324,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
     /* is a function call? */
     fn = find_func(token);
-    if (fn) {
+    if (fn && !find_local_var(token, parent)) {
         lex_expect(T_identifier);
         read_func_call(fn, parent, &bb);
         perform_side_effect(parent, bb);
-- 
2.43.0


From 724bdbbff7a73e0ec0d14a2b76d4f4e314dcbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 40/45] fix: generated code and data never outgrow their
 buffers

---
 src/defs.h | 2 +-
 src/elf.c  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/defs.h b/src/defs.h
index 640686a..fa8c291 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -28,7 +28,7 @@
 #define MAX_GLOBAL_IR 256
 #define MAX_LABEL 4096
 #define MAX_SOURCE 524288
-#define MAX_CODE 262144
+#define MAX_CODE 524288
 #define MAX_DATA 262144
 #define MAX_SYMTAB 65536
 #define MAX_STRTAB 65536
diff --git a/src/elf.c b/src/elf.c
index 3d3f1d5..93b1136 100644
--- a/src/elf.c
+++ b/src/elf.c
@@ -20,6 +20,8 @@ void elf_write_section_str(char *vals, int len)
 
 void elf_write_data_str(char *vals, int len)
 {
+    if (elf_data_idx + len > MAX_DATA)
+        error("Too much data");
     for (int i = 0; i < len; i++)
         elf_data[elf_data_idx++] = vals[i];
 }
@@ -63,6 +65,8 @@ void elf_write_symbol_int(int val)
 
 void elf_write_code_int(int val)
 {
+    if (elf_code_idx + 4 > MAX_CODE)
+        error("Too much code");
     elf_code_idx = elf_write_int(elf_code, elf_code_idx, val);
 }
 
-- 
2.43.0


From 96ca243248bea66825de704f9c1a559672e743e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:24 +0000
Subject: [PATCH 41/45] fix: conditional expressions stand wherever an
 expression does

---
 src/parser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index df69b8a..a1c4819 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1471,6 +1471,7 @@ void read_lvalue(lvalue_t *lvalue,
             lvalue->is_ptr--;
 
             read_expr(parent, bb);
+            read_ternary_operation(parent, bb);
 
             /* multiply by element size */
             if (lvalue->size != 1) {
@@ -2028,6 +2029,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
 
     /* an arm may end in another block than it starts in */
     read_expr(parent, &then_);
+    read_ternary_operation(parent, &then_);
 
     if (!lex_accept(T_colon)) {
         /* ternary operator in standard C needs three operands */
@@ -2058,6 +2060,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &else_);
+    read_ternary_operation(parent, &else_);
 
     ph1_ir = add_ph1_ir(OP_assign);
     ph1_ir->src0 = opstack_pop();
@@ -2217,6 +2220,7 @@ bool read_body_assignment(char *token,
                     t = operand_stack[operand_stack_idx - 1];
 
                 read_expr(parent, bb);
+                read_ternary_operation(parent, bb);
 
                 ph1_ir = add_ph1_ir(OP_load_constant);
                 vd = require_var(parent);
@@ -2664,6 +2668,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        read_ternary_operation(parent, &bb);
         settle_operand(parent, bb);
         lex_expect(T_close_bracket);
 
@@ -2776,6 +2781,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         cond = bb;
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        read_ternary_operation(parent, &bb);
         settle_operand(parent, bb);
         lex_expect(T_close_bracket);
 
@@ -2836,6 +2842,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        read_ternary_operation(parent, &bb);
         settle_operand(parent, bb);
         lex_expect(T_close_bracket);
 
@@ -3061,6 +3068,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     add_symbol(setup, nv);
                     if (lex_accept(T_assign)) {
                         read_expr(blk, &setup);
+                        read_ternary_operation(blk, &setup);
 
                         ph1_ir = add_ph1_ir(OP_assign);
                         ph1_ir->src0 = opstack_pop();
@@ -3090,6 +3098,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = var_condition;
         if (!lex_accept(T_semicolon)) {
             read_expr(blk, &cond_);
+            read_ternary_operation(blk, &cond_);
             settle_operand(blk, cond_);
             lex_expect(T_semicolon);
         } else {
@@ -3226,6 +3235,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = vd;
 
         read_expr(parent, &cond_);
+        read_ternary_operation(parent, &cond_);
         settle_operand(parent, cond_);
         lex_expect(T_close_bracket);
 
@@ -3304,6 +3314,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
             add_symbol(bb, nv);
             if (lex_accept(T_assign)) {
                 read_expr(parent, &bb);
+                read_ternary_operation(parent, &bb);
 
                 ph1_ir = add_ph1_ir(OP_assign);
                 ph1_ir->src0 = opstack_pop();
-- 
2.43.0


From e67b474ce237f4f0c90db3380eb52d9a1ac3d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:59 +0000
Subject: [PATCH 42/45] fix: names declared in the body of a switch end with it

---
 src/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index a1c4819..4d3feb9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2853,6 +2853,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         break_bb[break_exit_idx - 1] = switch_end;
         basic_block_t *true_body_ = bb_create(parent);
 
+        /* names declared in the body are not known after it */
+        block_t *body = add_block(parent, parent->func, parent->macro);
+
         lex_expect(T_open_curly);
         vd = var_break;
         if (lex_peek(T_close_curly, NULL)) /* no label at all */
@@ -2935,7 +2938,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
             while (!lex_peek(T_case, NULL) && !lex_peek(T_close_curly, NULL) &&
                    !lex_peek(T_default, NULL)) {
-                true_body_ = read_body_statement(parent, true_body_);
+                true_body_ = read_body_statement(body, true_body_);
                 control = 1;
             }
 
-- 
2.43.0


From 61b31617f3c5fcc334145176867daa0661cbd982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:56 +0000
Subject: [PATCH 43/45] fix: local variables hide the names of types in
 statements

---
 src/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 4d3feb9..b0280c2 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3043,6 +3043,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 error("Unexpected token");
 
             type = find_type(token, find_type_flag);
+            if (find_type_flag == 1 && find_local_var(token, blk))
+                type = NULL;
             if (type) {
                 var = require_var(blk);
                 read_full_var_decl(var, 0, 0);
@@ -3289,6 +3291,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
     /* is it a variable declaration? */
     type = find_type(token, find_type_flag);
+    if (find_type_flag == 1 && find_local_var(token, parent))
+        type = NULL; /* the name of a type is hidden by a variable */
     if (type) {
         var = require_var(parent);
         read_full_var_decl(var, 0, 0);
-- 
2.43.0


From 49160f35bfcfe9cea884bd82257ebba72698bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:30 +0000
Subject: [PATCH 44/45] fix: ill-formed numbers are diagnosed instead of read
 up to some digit

---
 src/lexer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 975328e..b0ce36a 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -151,8 +151,8 @@ bool is_numeric(char buffer[])
     if (size > 2)
         hex = !strncmp(buffer, "0x", 2);
 
-    for (int i = 0; i < size; i++) {
-        if (hex && !is_hex(buffer[i]))
+    for (int i = hex ? 2 : 0; i < size; i++) {
+        if (hex && (!is_hex(buffer[i]) || buffer[i] == 'x'))
             return false;
         if (!hex && !is_digit(buffer[i]))
             return false;
@@ -277,6 +277,8 @@ token_t lex_token_internal(bool aliasing)
             token_str[i++] = next_char;
         } while (is_hex(read_char(false)));
         token_str[i] = 0;
+        if (!is_numeric(token_str))
+            error("Invalid numeric constant");
         skip_whitespace();
         return T_numeric;
     }
-- 
2.43.0


From 571371ce3c047b4ba3ec4fb070248b608a9ddfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:34 +0000
Subject: [PATCH 45/45] fix: variables of nested blocks get phi functions where
 later blocks follow

The scope of a basic block was that of its last instruction, so a join that
ran on past the end of the block declaring a variable got no phi function for
it. The scope is the one in which control enters the basic block.
---
 src/globals.c | 1 -
 src/parser.c  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index c6d3fcd..0127ea4 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -816,7 +816,6 @@ void add_insn(block_t *block,
     if (!bb)
         return;
 
-    bb->scope = block;
 
     insn_t *n = arena_alloc(INSN_ARENA, sizeof(insn_t));
     n->opcode = op;
diff --git a/src/parser.c b/src/parser.c
index b0280c2..ef0988a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3367,7 +3367,6 @@ basic_block_t *read_code_block(func_t *func,
                                basic_block_t *bb)
 {
     block_t *blk = add_block(parent, func, macro);
-    bb->scope = blk;
 
     add_ph1_ir(OP_block_start);
     lex_expect(T_open_curly);
-- 
2.43.0

