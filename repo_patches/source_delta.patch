From 50bda9132553a1fd1b629525a599f5c3eb2d4dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:54 +0000
Subject: [PATCH 01/77] fix: sign-extend the dividend of signed division on
 amd64

idiv takes its dividend from rdx:rax (ax for bytes). The upper half was
cleared instead of sign-extended, so dividing a negative value gave a wrong
quotient and remainder, or trapped.
---
 src/binary/encoding/amd64/opcode.c |  8 ++++++++
 src/native/amd64.c                 | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index be7573c..defd8e7 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -245,6 +245,11 @@ amd64_opcode_inst_t lea_r64_m = {"lea", "lea", 0, {0x8D}, {OPCODE_EXT_REX_W, OPC
 
 amd64_opcode_inst_t syscall_inst = {"syscall_inst", "syscall_inst", 0, {0x0F, 0x05}, {}, {}};
 
+// sign extend rax into rdx:rax
+amd64_opcode_inst_t cwd = {"cwd", "cwd", 0x66, {0x99}, {}, {}};
+amd64_opcode_inst_t cdq = {"cdq", "cdq", 0, {0x99}, {}, {}};
+amd64_opcode_inst_t cqo = {"cqo", "cqo", 0, {0x99}, {OPCODE_EXT_REX_W}, {}};
+
 // TODO 什么时候使用 near 什么时候使用 far?
 amd64_opcode_inst_t ret = {"ret", "ret", 0, {0xC3}, {}, {}};
 
@@ -578,6 +583,9 @@ void amd64_opcode_init() {
     opcode_tree_build(&jle_rel8);
     opcode_tree_build(&jle_rel32);
     opcode_tree_build(&ret);
+    opcode_tree_build(&cwd);
+    opcode_tree_build(&cdq);
+    opcode_tree_build(&cqo);
     opcode_tree_build(&push_rm64);
     opcode_tree_build(&push_r64);
     opcode_tree_build(&pop_r64);
diff --git a/src/native/amd64.c b/src/native/amd64.c
index 0a8c791..4d54fba 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -396,6 +396,16 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         amd64_asm_operand_t *second = lir_operand_trans_amd64(c, op, op->second);
 
         if (op->code == LIR_OPCODE_SDIV) {
+            // the upper half of a signed dividend holds its sign, not zero
+            if (second->size == BYTE) {
+                slice_push(operations, AMD64_INST("movsx", AMD64_REG(ax), AMD64_REG(al)));
+            } else if (second->size == WORD) {
+                slice_push(operations, AMD64_INST("cwd"));
+            } else if (second->size == DWORD) {
+                slice_push(operations, AMD64_INST("cdq"));
+            } else {
+                slice_push(operations, AMD64_INST("cqo"));
+            }
             slice_push(operations, AMD64_INST("idiv", second));
         } else {
             slice_push(operations, AMD64_INST("div", second));
-- 
2.43.0


From 4eac47582c99606f1b9bab594d2a3116eb1470e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:15 +0000
Subject: [PATCH 02/77] fix: keep the value of integer literals above INT64_MAX

A literal larger than INT64_MAX was read with a saturating signed parse, so
'18446744073709551615 as u64' produced 9223372036854775807 and
'int x = 18446744073709551615' was accepted. Load such literals as unsigned
when converted to a 64 bit unsigned type and report them as out of range
otherwise.
---
 src/semantic/infer.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index d78137f..db99127 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -856,6 +856,15 @@ static bool can_assign_to_any(type_t t) {
  *
  * integer literal 之间的转换需要进行 fit 检查
  */
+static bool integer_literal_range_check(type_kind kind, char *value) {
+    // atoll saturates, values above INT64_MAX only fit in 64 bit unsigned types
+    if (value[0] != '-' && strtoull(value, NULL, 10) > INT64_MAX) {
+        return kind == TYPE_UINT64 || kind == TYPE_UINT;
+    }
+
+    return integer_range_check(kind, atoll(value));
+}
+
 static bool literal_as_check(module_t *m, ast_literal_t *literal, type_t target_type) {
     assert(is_number(target_type.kind));
 
@@ -863,8 +872,7 @@ static bool literal_as_check(module_t *m, ast_literal_t *literal, type_t target_
     type_kind target_kind = target_type.kind;
 
     if (is_integer(literal->kind) && is_integer(target_type.kind)) {
-        int64_t i = atoll(literal->value);
-        return integer_range_check(target_kind, i);
+        return integer_literal_range_check(target_kind, literal->value);
     }
 
     return true;
@@ -1204,6 +1212,12 @@ static type_t infer_as_expr(module_t *m, ast_expr_t *expr) {
             ast_literal_t *literal = as_expr->src.value;
             INFER_ASSERTF(literal_as_check(m, as_expr->src.value, target_type), "literal %s out of '%s' range",
                           literal->value, type_origin_format(target_type));
+
+            // the literal is otherwise loaded as a signed value first
+            if (is_integer(literal->kind) && (target_type.kind == TYPE_UINT64 || target_type.kind == TYPE_UINT)) {
+                literal->kind = target_type.kind;
+                as_expr->src.type = target_type;
+            }
         }
 
         return target_type;
@@ -3294,11 +3308,10 @@ static type_t infer_literal(module_t *m, ast_expr_t *expr, type_t target_type) {
 
     // float 转换为 int 会导致数据丢失，所以不进行自动转换, 请手动使用 as 转换
     if (is_integer(literal_type.kind) && is_integer_or_anyptr(target_kind)) {
-        int64_t i = atoll(literal->value);
         if (target_kind == TYPE_ANYPTR) {
             target_kind = TYPE_UINT;
         }
-        if (integer_range_check(target_kind, i)) {
+        if (integer_literal_range_check(target_kind, literal->value)) {
             // range 匹配直接返回，否则应该直接报错
             literal->kind = target_kind;
             return target_type;
-- 
2.43.0


From afda4d84f6cb385e92c5701ebe05b255ae5ee519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:41 +0000
Subject: [PATCH 03/77] fix: do not read identifiers such as v8, e32 or meturn
 as keywords

The keyword switch of the scanner fell through from 'e', 'v' and 'm' into the
next letter, so 'v8' was read as the type u8 and 'meturn' as return.
---
 src/syntax/scanner.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/syntax/scanner.c b/src/syntax/scanner.c
index 4f88141..b761b3d 100644
--- a/src/syntax/scanner.c
+++ b/src/syntax/scanner.c
@@ -763,7 +763,7 @@ static token_type_t scanner_ident(char *word, int length) {
                 case 'n':
                     return scanner_rest(word, length, 2, 2, "um", TOKEN_ENUM);
             }
-
+            break;
         case 'f': {
             // 'fx' is deliberately absent: fx mode is not exposed yet, so fx stays a plain ident
             // until the mode is redesigned. The TOKEN_FX parser/infer paths remain, just unreachable.
@@ -881,6 +881,7 @@ static token_type_t scanner_ident(char *word, int length) {
                 case 'o': // void
                     return scanner_rest(word, length, 2, 2, "id", TOKEN_VOID);
             }
+            break;
         }
         case 'u': {
             switch (word[1]) {
@@ -911,6 +912,7 @@ static token_type_t scanner_ident(char *word, int length) {
                     }
                 }
             }
+            break;
         }
         case 'r': {
             return scanner_rest(word, length, 1, 5, "eturn", TOKEN_RETURN);
-- 
2.43.0


From cbcdc8b80dea4cf33d603a199b9ddc21b6ad39e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:41 +0000
Subject: [PATCH 04/77] fix: keep return value moves behind other instructions
 when scheduling

The scheduler could hoist a move into a return register above unrelated
instructions. The fixed interval of that register ends at the move, so the
register could be handed out again and the returned value was overwritten.
---
 src/schedule.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/schedule.c b/src/schedule.c
index aec24b7..8c82851 100644
--- a/src/schedule.c
+++ b/src/schedule.c
@@ -438,6 +438,28 @@ static void schedule_build_deps(closure_t *c, schedule_ctx_t *ctx) {
             table_set(ctx->last_mem_op, "_last_mem_", node);
         }
     }
+
+    // 5. 仅定义且未在 segment 中使用的物理寄存器(如 return value)由后续的固定指令使用, 其固定区间不会延伸到该固定指令，
+    // 所以不能将其提前到其他指令之前，否则寄存器可能被重新分配覆盖
+    for (int i = 0; i < ctx->nodes->count; i++) {
+        schedule_node_t *node = ctx->nodes->take[i];
+        slice_t *reg_defs = extract_op_operands(node->op, FLAG(LIR_OPERAND_REG), FLAG(LIR_FLAG_DEF), true);
+        bool escaped = false;
+        for (int j = 0; j < reg_defs->count; j++) {
+            reg_t *reg = reg_alloc_find(reg_defs->take[j]);
+            char *key = reg_key(reg->alloc_id);
+            schedule_node_t *last_use = table_get(ctx->reg_use_table, key);
+            if (table_get(ctx->reg_def_table, key) == node &&
+                (!last_use || last_use->original_id <= node->original_id)) {
+                escaped = true;
+            }
+        }
+        slice_free(reg_defs);
+
+        for (int j = 0; escaped && j < i; j++) {
+            schedule_add_dep(ctx->nodes->take[j], node);
+        }
+    }
 }
 
 /**
-- 
2.43.0


From 817dbb85cd8c1201872b10b7fff2f84af0b353e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:23 +0000
Subject: [PATCH 05/77] fix: keep the register requirement when an instruction
 uses a variable twice

A comparison such as 'a < a' adds two use positions at the same instruction.
The weaker one came first and hid the requirement that the operand is in a
register, and the allocator aborted when it had to split the interval there.
---
 src/register/interval.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/register/interval.c b/src/register/interval.c
index e1217fa..1de35b4 100644
--- a/src/register/interval.c
+++ b/src/register/interval.c
@@ -1190,7 +1190,14 @@ void interval_add_use_pos(closure_t *c, interval_t *i, int position, alloc_kind_
     }
 
     linked_node *current = linked_first(pos_list);
-    while (current->value != NULL && ((use_pos_t *) current->value)->value < position) {
+    while (current->value != NULL) {
+        use_pos_t *current_pos = current->value;
+        // 同一条指令可能多次使用 var(如 a < a), must 需要排在前面, 否则 first use 会丢失 must 约束
+        bool after = current_pos->value < position ||
+                     (current_pos->value == position && current_pos->kind == ALLOC_KIND_MUST);
+        if (!after) {
+            break;
+        }
         current = current->succ;
     }
 
-- 
2.43.0


From ad722a3bb459d7ae1558dc64ca5b63b612058035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:43 +0000
Subject: [PATCH 06/77] fix: pop the SSA version of every definition when
 leaving a block

Renaming pushed a version for each definition but only popped variables
that had received a phi, so a sibling block could read a version defined
in a block that does not dominate it.
---
 src/ssa.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index a17e3a8..713e45e 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -642,11 +642,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         slice_t *vars = extract_var_operands(op, FLAG(LIR_FLAG_DEF));
         for (int i = 0; i < vars->count; ++i) {
             lir_var_t *var = vars->take[i];
-            if (!table_exist(c->ssa_globals_table, var->old)) {
-                continue;
-            }
-
-            // pop stack
+            // pop stack, every def pushed a number even when the var needs no phi
             var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
             assertf(stack, "var %s not found in stack table", var->old);
             stack->count--;
-- 
2.43.0


From 8931b6624e19f4aff2bb534626802756a5ec5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:01 +0000
Subject: [PATCH 07/77] fix: allow more than 127 definitions of a variable in a
 function

SSA versions were kept in 8 bits: a longer function either tripped an
assertion in the compiler or reused a version number.
---
 src/ssa.c | 19 ++++++++++++-------
 src/ssa.h |  5 +++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 713e45e..8982680 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -525,7 +525,9 @@ void ssa_rename(closure_t *c) {
     SLICE_FOR(c->var_defs) {
         lir_var_t *var = SLICE_VALUE(c->var_defs);
         var_number_stack *stack = NEW(var_number_stack);
+        stack->numbers = NULL;
         stack->count = 0;
+        stack->capacity = 0;
 
         sc_map_put_s64(&var_number_table, var->old, 0);
         sc_map_put_sv(&stack_table, var->old, stack);
@@ -542,7 +544,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
         assert(stack);
         if (stack->count > 0) {
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
     }
@@ -570,7 +572,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
 
             var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
             assert(stack);
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
 
@@ -578,7 +580,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         for (int i = 0; i < vars->count; ++i) {
             lir_var_t *var = vars->take[i];
 
-            uint8_t number = ssa_new_var_number(var, var_number_table, stack_table); // 新增定义
+            uint64_t number = ssa_new_var_number(var, var_number_table, stack_table); // 新增定义
             ssa_rename_var(var, number);
         }
 
@@ -591,7 +593,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
         assert(stack);
         if (stack->count > 0) {
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
     }
@@ -619,7 +621,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
             assert(stack);
             assert(stack->count > 0);
 
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
 
             op_node = op_node->succ;
@@ -669,16 +671,19 @@ uint64_t ssa_new_var_number(lir_var_t *var, struct sc_map_s64 *var_number_table,
     value += 1;
 
     sc_map_put_s64(var_number_table, var->old, value + 1);
+    if (stack->count == stack->capacity) {
+        stack->capacity = stack->capacity ? stack->capacity * 2 : 8;
+        stack->numbers = realloc(stack->numbers, stack->capacity * sizeof(uint64_t));
+    }
     stack->numbers[stack->count++] = result;
 
     return result;
 }
 
 void ssa_rename_var(lir_var_t *var, uint64_t number) {
-    assert(number < UINT8_MAX);
     // 1: '\0'
     // 2: '_12'
-    int64_t size = strlen(var->ident) + 10 + 3;
+    int64_t size = strlen(var->ident) + 20 + 3;
     char *buf = mallocz(size);
     snprintf(buf, size, "%s.s%ld", var->ident, number);
     var->ident = buf; // 已经分配在了堆中，需要手动释放了
diff --git a/src/ssa.h b/src/ssa.h
index 16af5af..26216ad 100644
--- a/src/ssa.h
+++ b/src/ssa.h
@@ -23,8 +23,9 @@
 
 
 typedef struct {
-    uint8_t numbers[UINT8_MAX];
-    uint8_t count;
+    uint64_t *numbers;
+    uint64_t count;
+    uint64_t capacity;
 } var_number_stack;
 
 void ssa(closure_t *c);
-- 
2.43.0


From a15176b54e2e21d7039ff353ebee4bf35a78c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:35 +0000
Subject: [PATCH 08/77] fix: schedule ah as part of rax

The scheduler looked ah up by its encoding index, which is the one of
rsp, so an 8-bit multiply could be moved between a remainder and the
read of its result.
---
 src/schedule.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/schedule.c b/src/schedule.c
index 8c82851..7bfae07 100644
--- a/src/schedule.c
+++ b/src/schedule.c
@@ -13,21 +13,6 @@ static char *reg_key(uint8_t alloc_id) {
     return buf;
 }
 
-/**
- * 根据小寄存器找到需要进行寄存器分配的寄存器
- */
-static reg_t *reg_alloc_find(reg_t *reg) {
-    lir_flag_t alloc_type = LIR_FLAG_ALLOC_INT;
-    int size = QWORD;
-    if (reg->flag & FLAG(LIR_FLAG_ALLOC_FLOAT)) {
-        alloc_type = LIR_FLAG_ALLOC_FLOAT;
-        if (BUILD_ARCH != ARCH_RISCV64) {
-            size = OWORD;
-        }
-    }
-    return reg_find(alloc_type, reg->index, size);
-}
-
 /**
  * 判断指令是否是内存读取操作
  */
@@ -393,7 +378,7 @@ static void schedule_build_deps(closure_t *c, schedule_ctx_t *ctx) {
         // 3.1 RAW: 当前指令使用的寄存器必须先被定义
         slice_t *reg_uses = extract_reg_operands(op, FLAG(LIR_FLAG_USE));
         for (int j = 0; j < reg_uses->count; j++) {
-            reg_t *reg = reg_alloc_find(reg_uses->take[j]);
+            reg_t *reg = covert_alloc_reg(reg_uses->take[j]);
 
             char *key = reg_key(reg->alloc_id);
             schedule_node_t *def_node = table_get(ctx->reg_def_table, key);
@@ -408,7 +393,7 @@ static void schedule_build_deps(closure_t *c, schedule_ctx_t *ctx) {
         // 3.2 WAW 和 WAR: 当前指令定义的寄存器
         slice_t *reg_defs = extract_op_operands(op, FLAG(LIR_OPERAND_REG), FLAG(LIR_FLAG_DEF), true);
         for (int j = 0; j < reg_defs->count; j++) {
-            reg_t *reg = reg_alloc_find(reg_defs->take[j]);
+            reg_t *reg = covert_alloc_reg(reg_defs->take[j]);
             char *key = reg_key(reg->alloc_id);
 
             // WAW: 依赖上一个定义该寄存器的指令
@@ -446,7 +431,7 @@ static void schedule_build_deps(closure_t *c, schedule_ctx_t *ctx) {
         slice_t *reg_defs = extract_op_operands(node->op, FLAG(LIR_OPERAND_REG), FLAG(LIR_FLAG_DEF), true);
         bool escaped = false;
         for (int j = 0; j < reg_defs->count; j++) {
-            reg_t *reg = reg_alloc_find(reg_defs->take[j]);
+            reg_t *reg = covert_alloc_reg(reg_defs->take[j]);
             char *key = reg_key(reg->alloc_id);
             schedule_node_t *last_use = table_get(ctx->reg_use_table, key);
             if (table_get(ctx->reg_def_table, key) == node &&
-- 
2.43.0


From 50a51e0b256750bd95bd1221ff76822d44228397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:49 +0000
Subject: [PATCH 09/77] fix: only fuse multiply-add into lea for 64-bit
 integers

There is no 16-bit or 32-bit lea encoding, so an expression such as
x * 2 + 1 on an i32 aborted the compiler.
---
 src/peephole/amd64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peephole/amd64.c b/src/peephole/amd64.c
index 4f91267..96d424c 100644
--- a/src/peephole/amd64.c
+++ b/src/peephole/amd64.c
@@ -56,9 +56,9 @@ static bool peephole_lea_fusion(closure_t *c, basic_block_t *block, slice_t *ops
         return false;
     }
 
-    // 只处理整数类型
+    // 只处理 64 位整数类型, lea 仅支持 r64
     type_t mul_type = lir_operand_type(mul_op->output);
-    if (!is_integer(mul_type.map_imm_kind)) {
+    if (!is_integer(mul_type.map_imm_kind) || type_kind_sizeof(mul_type.map_imm_kind) != QWORD) {
         return false;
     }
 
-- 
2.43.0


From b6039c2cd395418b693ded44fab7ac68d68b96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:40 +0000
Subject: [PATCH 10/77] fix: read the 8-bit remainder through al

ah cannot be encoded next to a register that needs a REX prefix, where
the same bits mean spl, so a remainder could be replaced with a byte of
the stack pointer. ah is not tracked by the register allocator either.
---
 src/lower/amd64.c  | 7 ++++---
 src/native/amd64.c | 7 ++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lower/amd64.c b/src/lower/amd64.c
index 653bacb..9054498 100644
--- a/src/lower/amd64.c
+++ b/src/lower/amd64.c
@@ -259,8 +259,9 @@ static linked_t *amd64_lower_factor(closure_t *c, lir_op_t *op) {
         // 根据操作类型选择结果寄存器
         lir_operand_t *result_operand;
         if (op->code == LIR_OPCODE_UREM || op->code == LIR_OPCODE_SREM) {
-            // 余数在 AH
-            result_operand = ah_operand; // ah 寄存器不太能用
+            // 余数在 AH, 但 AH 不能和需要 REX 前缀的寄存器一起编码，且不参与寄存器分配，
+            // 所以 output 使用 AX 标识取余数，由 native 将余数从 AH 移动到 AL
+            result_operand = operand_new(LIR_OPERAND_REG, ax);
         } else {
             // 商在 AL
             result_operand = al_operand;
@@ -269,7 +270,7 @@ static linked_t *amd64_lower_factor(closure_t *c, lir_op_t *op) {
         // 执行8位除法，被除数在AX，除数是8位操作数
         // output 必须是实际结果所在的寄存器，否则寄存器分配器会认为 RAX 空闲而提前覆盖
         linked_push(list, lir_op_new(op_code, dividend_operand, op->second, result_operand));
-        linked_push(list, lir_op_move(op->output, result_operand));
+        linked_push(list, lir_op_move(op->output, al_operand));
     } else {
         // 16位及以上的除法处理（原有逻辑）
         lir_operand_t *ax_operand = lir_reg_operand(rax->index, output_type);
diff --git a/src/native/amd64.c b/src/native/amd64.c
index 4d54fba..a0bf149 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -390,7 +390,7 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         assertf(op->second->assert_type != LIR_OPERAND_IMM, "div op second cannot imm");
 
         reg_t *output_reg = op->output->value;
-        assertf(output_reg->index == rax->index || output_reg->index == rdx->index || output_reg->index == ah->index,
+        assertf(output_reg->index == rax->index || output_reg->index == rdx->index,
                 "div op output reg must rax/rdx");
 
         amd64_asm_operand_t *second = lir_operand_trans_amd64(c, op, op->second);
@@ -410,6 +410,11 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         } else {
             slice_push(operations, AMD64_INST("div", second));
         }
+
+        // 8 位取余，余数在 AH 中
+        if (second->size == BYTE && output_reg->size == WORD) {
+            slice_push(operations, AMD64_INST("mov", AMD64_REG(al), AMD64_REG(ah)));
+        }
         return operations;
     }
 
-- 
2.43.0


From cc0fbb4e12f405d7bb1c3299f9dd056c6b9b83eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:09 +0000
Subject: [PATCH 11/77] fix: convert u64 and small signed integers to floats
 exactly

The amd64 code dropped the lowest bit of every u64, so 255 became 254,
and zero-extended i8 and i16 operands, so negative values came out
positive.
---
 src/native/amd64.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index a0bf149..4c0b3ac 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -882,10 +882,10 @@ static slice_t *amd64_native_sitof(closure_t *c, lir_op_t *op) {
 
     if (first->size < DWORD) {
         reg_t *first_reg = first->value;
-        amd64_asm_operand_t *new_first = AMD64_REG(reg_select(first_reg->index, TYPE_UINT32));
+        amd64_asm_operand_t *new_first = AMD64_REG(reg_select(first_reg->index, TYPE_INT32));
 
-        // 清空寄存器的高位部分
-        slice_push(operations, AMD64_INST("movzx", new_first, first));
+        // 符号扩展到 32 位
+        slice_push(operations, AMD64_INST("movsx", new_first, first));
         first = new_first;
     }
 
@@ -941,15 +941,28 @@ static slice_t *amd64_native_uitof(closure_t *c, lir_op_t *op) {
             slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
         }
     } else {
-        // 64位：统一使用右移-转换-乘2
+        // 最高位为 0 时直接作为有符号数转换，否则使用右移-转换-乘2, 右移丢弃的最低位需要保留用于舍入
+        // lower 阶段已将 first 移动到 rax, 可以直接修改
+        char *direct_ident = label_ident_with_unique(".UITOF.DIRECT");
+        char *end_ident = label_ident_with_unique(".UITOF.END");
+        char *cvt_code = output->size == DWORD ? "cvtsi2ss" : "cvtsi2sd";
+        amd64_asm_operand_t *temp = AMD64_REG(rcx);
+        assert(first_reg->index == rax->index);
+
+        slice_push(operations, AMD64_INST("cmp", first, AMD64_UINT32(0)));
+        slice_push(operations, AMD64_INST("jge", AMD64_SYMBOL(direct_ident, true)));
+        slice_push(operations, AMD64_INST("push", temp));
+        slice_push(operations, AMD64_INST("mov", temp, first));
         slice_push(operations, AMD64_INST("shr", first, AMD64_UINT8(1)));
-        if (output->size == DWORD) {
-            slice_push(operations, AMD64_INST("cvtsi2ss", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        } else {
-            slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        }
+        slice_push(operations, AMD64_INST("and", temp, AMD64_UINT32(1)));
+        slice_push(operations, AMD64_INST("or", first, temp));
+        slice_push(operations, AMD64_INST("pop", temp));
+        slice_push(operations, AMD64_INST(cvt_code, output, first));
+        slice_push(operations, AMD64_INST("add", output, output));
+        slice_push(operations, AMD64_INST("jmp", AMD64_SYMBOL(end_ident, true)));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(direct_ident, true)));
+        slice_push(operations, AMD64_INST(cvt_code, output, first));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(end_ident, true)));
     }
 
     return operations;
-- 
2.43.0


From fabce2ac9c72384c7ba21b683299b8b30f099aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:16 +0000
Subject: [PATCH 12/77] fix: spill variables that stay live without further
 uses

Under register pressure a variable kept alive by a loop but not used
again looked like one needed immediately, so no register could be
freed and the compiler aborted. Float constants hoisted out of a loop
are the usual case.
---
 src/register/allocate.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/register/allocate.c b/src/register/allocate.c
index 8c0dcfc..7ee6f9b 100644
--- a/src/register/allocate.c
+++ b/src/register/allocate.c
@@ -530,6 +530,16 @@ bool allocate_free_reg(closure_t *c, allocate_t *a) {
     return true;
 }
 
+/**
+ * from 之后不再使用的 interval 依旧可能是 active(例如存活至循环结束的变量), 此时是最适合溢出的 interval
+ */
+static int next_use_pos(interval_t *i, int from) {
+    if (!interval_next_use_position(i, from - 1)) {
+        return INT32_MAX;
+    }
+    return interval_next_use_position(i, from);
+}
+
 /**
 
  * @param c
@@ -570,7 +580,7 @@ bool allocate_block_reg(closure_t *c, allocate_t *a) {
         } else {
             // 找一个大于 current first use_position 的位置(可以为0，0 表示没找到)
             // 查找 active interval 的下一个使用位置,用来判断其空闲时长
-            assert(a->current->first_range->from > select->first_range->from);
+            assert(a->current->first_range->from >= select->first_range->from);
 
             int pos = 0;
             // 如果 select->first_from 和 first from 的差值 < 1, 则后续 split 分配会异常, 无法在 first_from 之前讲 select 进行 split
@@ -581,7 +591,7 @@ bool allocate_block_reg(closure_t *c, allocate_t *a) {
             if (a->current->first_range->from - select->first_range->from <= 1) {
                 pos = 0;
             } else {
-                pos = interval_next_use_position(select, first_from);
+                pos = next_use_pos(select, first_from);
             }
 
 
@@ -609,7 +619,7 @@ bool allocate_block_reg(closure_t *c, allocate_t *a) {
             // 但是一旦到了 pos 位置，current 必须 split at and spill child
             SET_BLOCK_POS(select->assigned, pos);
         } else {
-            pos = interval_next_use_position(select, first_from);
+            pos = next_use_pos(select, first_from);
             SET_USE_POS(select->assigned, pos);
         }
     }
-- 
2.43.0


From ede34d473e7522435dfa820ef4ac06510f7d4f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:31 +0000
Subject: [PATCH 13/77] fix: keep the frame layout intact when saving registers
 on SysV amd64

Callee-saved registers were pushed below a frame whose slots are
addressed from rsp: stack parameters were read 8 bytes off, outgoing
stack arguments overwrote the saved value and calls were made with a
misaligned stack.
---
 src/native/amd64.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 4c0b3ac..13cc6d1 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -1358,15 +1358,16 @@ static slice_t *amd64_native_fn_begin(closure_t *c, lir_op_t *op) {
         slice_push(operations, AMD64_INST("sub", AMD64_REG(rsp), AMD64_UINT32(offset)));
     }
 
-    // 保存 callee-saved 寄存器
+    // 保存 callee-saved 寄存器, 使用 call args 之上的预留空间，不能使用 push, 否则 rsp 相关的偏移和对齐都会错误
     for (int i = 0; i < c->callee_saved->count; ++i) {
         // Width-specific aliases can be collected after register allocation;
-        // PUSH always operates on the canonical 64-bit nonvolatile register.
+        // the save always operates on the canonical 64-bit nonvolatile register.
         reg_t *saved = c->callee_saved->take[i];
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("push", AMD64_REG(reg)));
+        slice_push(operations, AMD64_INST("mov", SIB_REG(rsp, NULL, 0, c->call_stack_max_offset + i * QWORD, QWORD),
+                                          AMD64_REG(reg)));
     }
 
     //    c->stack_offset = offset;
@@ -1429,7 +1430,8 @@ slice_t *amd64_native_return(closure_t *c, lir_op_t *op) {
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("pop", AMD64_REG(reg)));
+        slice_push(operations, AMD64_INST("mov", AMD64_REG(reg),
+                                          SIB_REG(rsp, NULL, 0, c->call_stack_max_offset + i * QWORD, QWORD)));
     }
 
     //    slice_push(operations, AMD64_INST("mov", AMD64_REG(rsp), AMD64_REG(rbp)));
-- 
2.43.0


From 5ba6d4992383dc89f644689fafcc1a684fe9423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:51 +0000
Subject: [PATCH 14/77] fix: do not share float constants between f32 and f64

Both widths were pooled under the same key, so an f64 constant whose
bits equal an earlier f32 constant (0.0, for one) was read from a
4-byte slot.
---
 src/lower/lower.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lower/lower.h b/src/lower/lower.h
index 7c6d943..4df9da8 100644
--- a/src/lower/lower.h
+++ b/src/lower/lower.h
@@ -11,7 +11,8 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
     if (imm->kind == TYPE_RAW_STRING) {
         key = str_connect("s:", imm->string_value);
     } else {
-        key = str_connect("f:", itoa(imm->int_value));
+        // f32 和 f64 的 symbol size 不同，不能共享
+        key = str_connect(imm->kind == TYPE_FLOAT32 ? "f32:" : "f64:", itoa(imm->int_value));
     }
 
     asm_global_symbol_t *global_symbol = table_get(c->module->global_symbol_table, key);
-- 
2.43.0


From 20b2c9dd78de9bc204946c11b36453aa0213c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:09 +0000
Subject: [PATCH 15/77] fix: emit the operand-size prefix of xorpd before REX

Negating an f64 held in xmm8 or above changed another register.
---
 src/binary/encoding/amd64/opcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index defd8e7..f67506e 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -439,7 +439,7 @@ amd64_opcode_inst_t shr_rm64_imm8 = {"shr", "shr", 0, {0xC1}, {OPCODE_EXT_REX_W,
 
 // float ------------------------------------------------------------------------------------------------------
 // float xor ------------------------------------------------------------------------------------------------------
-amd64_opcode_inst_t xorpd_xmm1_xmm2m128 = {"xor", "xorpd", 0, {0x66, 0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S64, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M64, ENCODING_TYPE_MODRM_RM}}};
+amd64_opcode_inst_t xorpd_xmm1_xmm2m128 = {"xor", "xorpd", 0x66, {0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S64, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M64, ENCODING_TYPE_MODRM_RM}}};
 amd64_opcode_inst_t xorps_xmm1_xmm2m128 = {"xor", "xorps", 0, {0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S32, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M32, ENCODING_TYPE_MODRM_RM}}};
 
 
-- 
2.43.0


From 3ac5cfbcf450d7a6be96831d16097556c9453727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:42 +0000
Subject: [PATCH 16/77] fix: never take a register that the current instruction
 has to read

The allocator aborted when a register hint pointed at an operand of
the instruction that defines the new variable.
---
 src/register/allocate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/register/allocate.c b/src/register/allocate.c
index 7ee6f9b..a4b6e35 100644
--- a/src/register/allocate.c
+++ b/src/register/allocate.c
@@ -537,6 +537,14 @@ static int next_use_pos(interval_t *i, int from) {
     if (!interval_next_use_position(i, from - 1)) {
         return INT32_MAX;
     }
+
+    // 在 from 处必须使用寄存器, 无法在 from 之前溢出
+    LINKED_FOR(i->use_pos_list) {
+        use_pos_t *pos = LINKED_VALUE();
+        if (pos->value == from && pos->kind == ALLOC_KIND_MUST) {
+            return 0;
+        }
+    }
     return interval_next_use_position(i, from);
 }
 
-- 
2.43.0


From 2e6123593f59d1afef3eb6228d8c3f0e62bfc15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:50 +0000
Subject: [PATCH 17/77] fix: spill intervals that start right before the label
 of a block

The allocator looked for a split position before the block, found the
start of the interval itself and aborted.
---
 src/register/allocate.c | 8 +++++++-
 src/register/interval.c | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/register/allocate.c b/src/register/allocate.c
index a4b6e35..825e769 100644
--- a/src/register/allocate.c
+++ b/src/register/allocate.c
@@ -289,7 +289,10 @@ static void spill_interval(closure_t *c, allocate_t *a, interval_t *i, int befor
     if (before_pos > i->first_range->from) {
         // spill current before current first use position
         split_pos = interval_find_optimal_split_pos(c, i, before_pos);
-        child = interval_split_at(c, i, split_pos);
+        // i 在 before_pos 所在 block 的 label 之前才开始存活时没有可用的切分点, 此时直接溢出整个 i
+        if (split_pos > i->first_range->from) {
+            child = interval_split_at(c, i, split_pos);
+        }
     }
 
     /**
@@ -598,6 +601,9 @@ bool allocate_block_reg(closure_t *c, allocate_t *a) {
 
             if (a->current->first_range->from - select->first_range->from <= 1) {
                 pos = 0;
+            } else if (interval_find_optimal_split_pos(c, select, first_from) <= select->first_range->from &&
+                       first_use_pos(select, 0) && first_use_pos(select, 0)->value < first_from) {
+                pos = 0;
             } else {
                 pos = next_use_pos(select, first_from);
             }
diff --git a/src/register/interval.c b/src/register/interval.c
index 1de35b4..689da30 100644
--- a/src/register/interval.c
+++ b/src/register/interval.c
@@ -1040,10 +1040,11 @@ int interval_find_optimal_split_pos(closure_t *c, interval_t *current, int befor
     int id = before - 1;
 
     // 检查默认切分点是否在循环中，如果是则尝试找到循环外的切分点
-    int first_use = first_use_pos(current, 0)->value;
-    if (first_use >= before) {
+    use_pos_t *first_pos = first_use_pos(current, 0);
+    if (!first_pos || first_pos->value >= before) {
         return id;
     }
+    int first_use = first_pos->value;
 
     for (int i = c->blocks->count - 1; i >= 0; --i) {
         basic_block_t *b = c->blocks->take[i];
-- 
2.43.0


From c2f272855b9b5ad68422b7153751f4724319b97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:00 +0000
Subject: [PATCH 18/77] fix: keep a variable intact when its register is
 overwritten by the instruction that reads it

The 8-bit dividend is now extended right before the division, the
spill store of a variable never reads a register that the current
instruction overwrites, and complementing a memory operand goes
through a register.
---
 src/lower/amd64.c       |  7 ++-----
 src/native/amd64.c      |  3 +++
 src/register/allocate.c | 12 +++++++-----
 src/register/interval.c | 32 ++++++++++++++++++++++++++++++--
 src/register/interval.h |  2 ++
 5 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/lower/amd64.c b/src/lower/amd64.c
index 9054498..f2f604c 100644
--- a/src/lower/amd64.c
+++ b/src/lower/amd64.c
@@ -246,10 +246,7 @@ static linked_t *amd64_lower_factor(closure_t *c, lir_op_t *op) {
         // 8位除法特殊处理
         // 被除数需要在AX(16位)，商在AL，余数在AH
 
-        // 清零AX寄存器
-        linked_push(list, lir_op_new(LIR_OPCODE_CLR, NULL, NULL, operand_new(LIR_OPERAND_REG, ax)));
-
-        // 将被除数加载到AL
+        // 将被除数加载到AL, 由 native 扩展到 AX(提前清零的 AX 可能在加载 AL 之前被覆盖)
         lir_operand_t *al_operand = operand_new(LIR_OPERAND_REG, al);
         lir_operand_t *ah_operand = operand_new(LIR_OPERAND_REG, ah);
         linked_push(list, lir_op_move(al_operand, op->first));
@@ -381,7 +378,7 @@ static void amd64_lower_block(closure_t *c, basic_block_t *block) {
             continue;
         }
 
-        if (op->code == LIR_OPCODE_NEG) {
+        if (op->code == LIR_OPCODE_NEG || op->code == LIR_OPCODE_NOT) {
             linked_concat(operations, amd64_lower_neg(c, op));
             continue;
         }
diff --git a/src/native/amd64.c b/src/native/amd64.c
index 13cc6d1..db8787e 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -408,6 +408,9 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
             }
             slice_push(operations, AMD64_INST("idiv", second));
         } else {
+            if (second->size == BYTE) {
+                slice_push(operations, AMD64_INST("movzx", AMD64_REG(ax), AMD64_REG(al)));
+            }
             slice_push(operations, AMD64_INST("div", second));
         }
 
diff --git a/src/register/allocate.c b/src/register/allocate.c
index 825e769..483fd33 100644
--- a/src/register/allocate.c
+++ b/src/register/allocate.c
@@ -520,12 +520,14 @@ bool allocate_free_reg(closure_t *c, allocate_t *a) {
     if (free_pos[reg_id] < a->current->last_range->to) {
         int optimal_position = interval_find_optimal_split_pos(c, a->current, free_pos[reg_id]);
         if (optimal_position == a->current->first_range->from) {
-            optimal_position = free_pos[reg_id]; // 使用点进行切割
+            // 使用点进行切割
+            interval_t *child = interval_split_spill(c, a->current, free_pos[reg_id]);
+            spill_interval(c, a, child, 0);
+        } else {
+            // 从最佳位置切割 interval 得到 child, child 并不是一定会溢出，而是可能会再次被分配到寄存器(加入到 unhandled 中)
+            interval_t *child = interval_split_at(c, a->current, optimal_position);
+            sort_to_unhandled(a->unhandled, child);
         }
-
-        // 从最佳位置切割 interval 得到 child, child 并不是一定会溢出，而是可能会再次被分配到寄存器(加入到 unhandled 中)
-        interval_t *child = interval_split_at(c, a->current, optimal_position);
-        sort_to_unhandled(a->unhandled, child);
     }
 
     assign_interval(c, a, a->current, reg_id);
diff --git a/src/register/interval.c b/src/register/interval.c
index 689da30..e635aed 100644
--- a/src/register/interval.c
+++ b/src/register/interval.c
@@ -1237,7 +1237,7 @@ int interval_next_use_position(interval_t *i, int after_position) {
  * @param i
  * @param position
  */
-interval_t *interval_split_at(closure_t *c, interval_t *i, int position) {
+static interval_t *interval_split(closure_t *c, interval_t *i, int position, bool insert_mov) {
     assert(position < i->last_range->to);
     assert(position > i->first_range->from);
     assert(i->var);
@@ -1316,7 +1316,7 @@ interval_t *interval_split_at(closure_t *c, interval_t *i, int position) {
         break;
     }
 
-    if (need_mov) {
+    if (need_mov && insert_mov) {
         // mov id = position - 1
         // 此时 child 还没有确定是分配寄存器还是溢出, 后续 replace 的时候如果识别到是相同的寄存器，进行移除操作即可
         closure_insert_mov(c, position, i, child);
@@ -1325,6 +1325,34 @@ interval_t *interval_split_at(closure_t *c, interval_t *i, int position) {
     return child;
 }
 
+interval_t *interval_split_at(closure_t *c, interval_t *i, int position) {
+    return interval_split(c, i, position, true);
+}
+
+/**
+ * position 处的指令会覆盖 i 的寄存器，所以指令之后的 child 不能再从 i 中读取值, 并且 child 必须溢出
+ * i 从 position - 1 开始存活，其值来自上一个 child, 如果上一个 child 没有溢出则在相同的位置写入 slot
+ */
+interval_t *interval_split_spill(closure_t *c, interval_t *i, int position) {
+    assert(i->parent);
+
+    interval_t *prev = i->parent;
+    LINKED_FOR(i->parent->children) {
+        interval_t *current = LINKED_VALUE();
+        if (current == i) {
+            break;
+        }
+        prev = current;
+    }
+
+    int from = i->first_range->from;
+    interval_t *child = interval_split(c, i, position, false);
+    if (!prev->spilled) {
+        closure_insert_mov(c, from, prev, child);
+    }
+    return child;
+}
+
 /**
  * spill slot，清空 assign
  * 所有 slit_child 本质上是一个 var, 所以都溢出到同一个 stack_slot（存储在_canonical_spill_slot中）
diff --git a/src/register/interval.h b/src/register/interval.h
index 5a3d45a..ad66989 100644
--- a/src/register/interval.h
+++ b/src/register/interval.h
@@ -51,6 +51,8 @@ void interval_add_use_pos(closure_t *c, interval_t *i, int position, alloc_kind_
  */
 interval_t *interval_split_at(closure_t *c, interval_t *i, int position);
 
+interval_t *interval_split_spill(closure_t *c, interval_t *i, int position);
+
 /**
  * current 需要在 before 之前被 split,需要找到一个最佳的位置
  * 比如不能在循环体中 split
-- 
2.43.0


From c9ddaa4e4519d9de7eb7118e95d8cd1bb7d46863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:21 +0000
Subject: [PATCH 19/77] fix: break every critical edge into a block

Removing a predecessor while iterating skipped the next one, and the
moves resolved on the remaining critical edge ran twice.
---
 src/cfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cfg.c b/src/cfg.c
index 9b84a55..1400177 100644
--- a/src/cfg.c
+++ b/src/cfg.c
@@ -118,6 +118,8 @@ static void broken_critical_edges(closure_t *c) {
                         symbol_label->ident = new_block->name;
                     }
                 }
+
+                i -= 1; // p 已经从 preds 中移除, 下一个 pred 移动到了当前位置
             }
         }
     }
-- 
2.43.0


From 88bc73ba00049a629a5706303d07706f8879ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:02 +0000
Subject: [PATCH 20/77] fix: keep variables live in the blocks of the loops
 they span

The allocator's live-in sets of blocks inside a loop missed variables
that are live through the loop header only. No moves were inserted for
them on edges between such blocks, so a value could be read from a
stale location.
---
 src/register/interval.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/register/interval.c b/src/register/interval.c
index e635aed..d99c445 100644
--- a/src/register/interval.c
+++ b/src/register/interval.c
@@ -561,6 +561,16 @@ slice_t *interval_block_order(closure_t *c) {
     return old_blocks;
 }
 
+static void live_in_add(basic_block_t *block, lir_var_t *var) {
+    for (int i = 0; i < block->alloc_live_in->count; ++i) {
+        lir_var_t *exist = block->alloc_live_in->take[i];
+        if (str_equal(exist->ident, var->ident)) {
+            return;
+        }
+    }
+    slice_push(block->alloc_live_in, var);
+}
+
 /**
  * 此处的 live 是 live in 的简化形态，只是临时使用，后续的 resolve_data_flow 虽然使用了，但是可能会有问题
  */
@@ -778,6 +788,18 @@ void interval_build(closure_t *c) {
                     interval_add_range(c, interval, block_from, OP(end->last_op)->id + 2);
                     //                    debug_interval_var(interval, "loop header add");
                 }
+
+                // 循环内的 block 在 header 之前处理，需要补充跨越整个循环的变量，否则循环内的边无法 resolve
+                for (int b = i + 1; b < c->blocks->count; ++b) {
+                    basic_block_t *inner = c->blocks->take[b];
+                    if (OP(linked_first(inner->operations))->id > OP(end->last_op)->id) {
+                        break;
+                    }
+
+                    for (int k = 0; k < lives->count; ++k) {
+                        live_in_add(inner, lives->take[k]);
+                    }
+                }
             }
         }
         block->alloc_live_in = lives;
-- 
2.43.0


From d280747d3863c9046618787dc6e5d02ef3317dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:22 +0000
Subject: [PATCH 21/77] fix: keep the output of an instruction in the interval
 split right after it

When an interval is split at an instruction that both reads and writes
the variable, the connecting move is placed after the instruction. The
output was resolved to the part after the split, so the result was lost
or the compiler aborted with an unsupported operand.
---
 src/register/interval.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/register/interval.c b/src/register/interval.c
index d99c445..ec90c42 100644
--- a/src/register/interval.c
+++ b/src/register/interval.c
@@ -2003,6 +2003,13 @@ void replace_virtual_register(closure_t *c) {
 
                 interval_t *interval = _interval_child_at(parent, op->id, var->flag & FLAG(LIR_FLAG_USE));
                 assert(interval);
+                if (!op->resolve_char && interval->parent && interval->first_range->from == op->id) {
+                    // 在 op 处切分时 mov 位于 op 之后, 所以 op 的 output 依旧属于切分前的 interval
+                    interval_t *prev = _interval_child_at(parent, op->id, true);
+                    if (prev && prev->last_range->to == op->id) {
+                        interval = prev;
+                    }
+                }
                 if (parent->is_const_float && op->code == LIR_OPCODE_MOVE &&
                     (var->flag & FLAG(LIR_FLAG_DEF) && interval->spilled)) {
                     linked_remove(block->operations, current); // mov f -> spill.stack, 当前指令已经删除，直接跳过即可
-- 
2.43.0


From 9a62ae21fa6a7943ade3d18b1a9bcdb4c135dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:40 +0000
Subject: [PATCH 22/77] fix: store the right part of an interval whose register
 is overwritten

The store that saves a variable before its register is overwritten was
resolved by position and became a move to itself, so the stack slot
that is read later was never written.
---
 src/register/interval.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/register/interval.c b/src/register/interval.c
index ec90c42..4d68495 100644
--- a/src/register/interval.c
+++ b/src/register/interval.c
@@ -469,7 +469,7 @@ static void block_insert_mov(basic_block_t *block, int insert_id, interval_t *sr
     assertf(false, "id=%v notfound in block=%s", insert_id, block->name);
 }
 
-static void closure_insert_mov(closure_t *c, int insert_id, interval_t *src_i, interval_t *dst_i) {
+static void closure_insert_mov(closure_t *c, int insert_id, interval_t *src_i, interval_t *dst_i, bool imm_replace) {
     // 正序遍历 block, 这里存在一个边界，应该插在前面，还是插在后面的问题
     SLICE_FOR(c->blocks) {
         basic_block_t *block = SLICE_VALUE(c->blocks);
@@ -477,7 +477,7 @@ static void closure_insert_mov(closure_t *c, int insert_id, interval_t *src_i, i
         lir_op_t *last = OP(block->last_op);
         if (first->id <= insert_id && insert_id < last->id) {
             assert(first->id != insert_id);
-            block_insert_mov(block, insert_id, src_i, dst_i, false, '~');
+            block_insert_mov(block, insert_id, src_i, dst_i, imm_replace, '~');
             return;
         }
     }
@@ -1341,7 +1341,7 @@ static interval_t *interval_split(closure_t *c, interval_t *i, int position, boo
     if (need_mov && insert_mov) {
         // mov id = position - 1
         // 此时 child 还没有确定是分配寄存器还是溢出, 后续 replace 的时候如果识别到是相同的寄存器，进行移除操作即可
-        closure_insert_mov(c, position, i, child);
+        closure_insert_mov(c, position, i, child, false);
     }
 
     return child;
@@ -1370,7 +1370,9 @@ interval_t *interval_split_spill(closure_t *c, interval_t *i, int position) {
     int from = i->first_range->from;
     interval_t *child = interval_split(c, i, position, false);
     if (!prev->spilled) {
-        closure_insert_mov(c, from, prev, child);
+        // from 处存活的是 i, 所以不能在后续的 replace 中根据位置查找 child
+        interval_spill_slot(c, child);
+        closure_insert_mov(c, from, prev, child, true);
     }
     return child;
 }
-- 
2.43.0


From 31d99f91a2f5f9807d9e21f9c4d219a78596f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:43 +0000
Subject: [PATCH 23/77] fix: delete from a set without losing other keys

Deleting a key zeroed its slot, which ended the probe chain of keys
stored after it, and decremented the length even for absent keys, so a
later insertion overwrote a live key.
---
 runtime/nutils/set.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/set.c b/runtime/nutils/set.c
index 5349ee0..cb133c5 100644
--- a/runtime/nutils/set.c
+++ b/runtime/nutils/set.c
@@ -37,9 +37,8 @@ static bool _rt_set_add(n_set_t *m, void *key_ref) {
         key_index = m->length++;
         added = true;
     } else if (hash_value_deleted(hash_value)) {
-        m->length++;
+        key_index = m->length++;
         added = true;
-        key_index = extract_data_index(hash_value);
     } else {
         // 绝对的修改
         key_index = extract_data_index(hash_value);
@@ -183,7 +182,27 @@ void rt_set_delete(n_set_t *m, void *key_ref) {
         return;
     }
     uint64_t hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash, key_ref);
-    uint64_t *hash_value = &m->hash_table[hash_index];
-    *hash_value &= 1ULL << HASH_DELETED; // 配置删除标志即可
+    uint64_t hash_value = m->hash_table[hash_index];
+    if (hash_value_empty(hash_value) || hash_value_deleted(hash_value)) {
+        return;
+    }
+
+    uint64_t data_index = extract_data_index(hash_value);
+    uint64_t last_data_index = m->length - 1;
+    rtype_t *key_rtype = rt_find_rtype(m->key_rtype_hash);
+    uint64_t key_size = key_rtype->storage_size;
+
+    // 使用最后一个 key 填充空位，key_data 始终保持连续
+    if (data_index != last_data_index) {
+        void *last_key_ref = m->key_data + last_data_index * key_size;
+        uint64_t last_hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash,
+                                                  last_key_ref);
+
+        rti_write_barrier_rtype(m->key_data + data_index * key_size, last_key_ref, key_rtype);
+        rt_set_data_index(m, last_hash_index, data_index);
+    }
+
+    m->hash_table[hash_index] = (1ULL << HASH_SET) | (1ULL << HASH_DELETED);
+    memset(m->key_data + last_data_index * key_size, 0, key_size);
     m->length--;
 }
-- 
2.43.0


From a45536c7da9c53d8008ed698517d02106372a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:43 +0000
Subject: [PATCH 24/77] fix: reuse a deleted slot when the hash table has no
 empty one

After many insertions and deletions every free slot carries the deleted
mark. Looking up an absent key then aborted the process.
---
 runtime/nutils/hash.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 72d986b..b3b8c53 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -82,6 +82,11 @@ static uint64_t find_hash_slot(uint64_t *hash_table, uint64_t capacity, uint8_t
 
     while (true) {
         if (attempts >= capacity) { // 防止无限循环
+            // 没有 empty slot 但是存在 deleted slot, key 不存在且可以写入到 deleted slot 中
+            if (first_deleted_index != -1) {
+                return first_deleted_index;
+            }
+
             // 哈希表已满，需要扩容
             assert(false && "hash table is full, need to grow");
             return -1;
-- 
2.43.0


From 9160e0d6645bd27617f38df6d1daa13519b72d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:43 +0000
Subject: [PATCH 25/77] fix: do not compare vector defaults with an 8 byte zero

The comparison read element_size bytes from an 8 byte variable. For
larger elements it read past it and could skip storing the default.
---
 runtime/nutils/vec.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 706de90..d897303 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -103,14 +103,11 @@ n_vec_t rt_vec_new(int64_t hash, int64_t element_hash, int64_t length, void *val
         vec.data = rti_array_new(element_rtype, capacity);
 
         if (length > 0) {
-            uint64_t zero = 0;
-            if (memcmp(value_ref, &zero, element_size) != 0) {
-                DEBUGF("[rt_vec_new] will set default value_ref=%p, element_size=%lu", value_ref, element_size);
-
-                for (int64_t i = 0; i < length; i++) {
-                    void *dst = vec.data + (i * element_size);
-                    memmove(dst, value_ref, element_size);
-                }
+            DEBUGF("[rt_vec_new] will set default value_ref=%p, element_size=%lu", value_ref, element_size);
+
+            for (int64_t i = 0; i < length; i++) {
+                void *dst = vec.data + (i * element_size);
+                memmove(dst, value_ref, element_size);
             }
         }
     }
-- 
2.43.0


From 26fc5526469a590bfa588f0d6f516555935777a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:59 +0000
Subject: [PATCH 26/77] fix: compare string keys of maps and sets by length and
 content

Keys with an embedded NUL were truncated, so different keys shared one
entry.
---
 runtime/nutils/hash.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index b3b8c53..fe6a5a1 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -41,6 +41,11 @@ static inline uint64_t extract_data_index(uint64_t hash_value) {
 }
 
 static inline uint64_t key_hash(rtype_t *rtype, void *key_ref) {
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *key = key_ref;
+        return key->length ? hash_data((uint8_t *) key->data, key->length) : 0;
+    }
+
     char *str = rtype_value_to_str(rtype, key_ref);
     uint64_t result = hash_string(str);
     free((void *) str);
@@ -49,6 +54,13 @@ static inline uint64_t key_hash(rtype_t *rtype, void *key_ref) {
 
 static inline bool key_equal(rtype_t *rtype, void *actual, void *expect) {
     DEBUGF("[key_equal] actual=%p, expect=%p", actual, expect);
+    // string 可能包含 \0, 不能作为 c string 进行比较
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *a = actual;
+        n_string_t *b = expect;
+        return a->length == b->length && memcmp(a->data, b->data, a->length) == 0;
+    }
+
     char *actual_str = rtype_value_to_str(rtype, actual);
     char *expect_str = rtype_value_to_str(rtype, expect);
     bool result = str_equal(actual_str, expect_str);
-- 
2.43.0


From 228ef69f0e25707ac6ff03ec537f5aa14bde6117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:59 +0000
Subject: [PATCH 27/77] fix: keep string literals with an embedded NUL apart

The constant table was keyed by the C string, so 'a\0b' and 'a\0c'
became the same constant.
---
 src/lower/lower.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lower/lower.h b/src/lower/lower.h
index 4df9da8..0310870 100644
--- a/src/lower/lower.h
+++ b/src/lower/lower.h
@@ -10,6 +10,14 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
     char *key;
     if (imm->kind == TYPE_RAW_STRING) {
         key = str_connect("s:", imm->string_value);
+        if (strlen(imm->string_value) != imm->strlen) {
+            // 字符串中包含 \0, 需要编码完整的内容
+            key = mallocz(imm->strlen * 2 + 3);
+            memmove(key, "x:", 2);
+            for (int64_t i = 0; i < imm->strlen; ++i) {
+                snprintf(key + 2 + i * 2, 3, "%02x", (uint8_t) imm->string_value[i]);
+            }
+        }
     } else {
         // f32 和 f64 的 symbol size 不同，不能共享
         key = str_connect(imm->kind == TYPE_FLOAT32 ? "f32:" : "f64:", itoa(imm->int_value));
-- 
2.43.0


From 71cddc32f70801a6c75f4582792e5e876c8338dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:59 +0000
Subject: [PATCH 28/77] fix: compare the whole content before reusing a pooled
 string

Two strings of equal length that differ after an embedded NUL were
treated as the same pooled string.
---
 runtime/nutils/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/nutils/string.c b/runtime/nutils/string.c
index 8cf1eaa..3b290c9 100644
--- a/runtime/nutils/string.c
+++ b/runtime/nutils/string.c
@@ -22,7 +22,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
     // check const
     mutex_lock(&const_str_pool_locker);
     n_string_t *pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-    if (pooled && pooled->length == length) {
+    if (pooled && pooled->length == length && memcmp(pooled->data, raw_string, length) == 0) {
         n_string_t result = *pooled;
         mutex_unlock(&const_str_pool_locker);
         return result;
@@ -57,7 +57,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
 
             mutex_lock(&const_str_pool_locker);
             pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-            if (pooled && pooled->length == length) {
+            if (pooled && pooled->length == length && memcmp(pooled->data, raw_string, length) == 0) {
                 str = *pooled;
                 mutex_unlock(&const_str_pool_locker);
                 free(pool_copy);
-- 
2.43.0


From c56a0031c61e31da5f54ebdd04eea97d84e6484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:55 +0000
Subject: [PATCH 29/77] fix: find substrings after an embedded NUL

The search used strstr, which stops at the first NUL byte of the
string.
---
 std/strings/strings.n | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/std/strings/strings.n b/std/strings/strings.n
index 0e1f45c..f122d1f 100644
--- a/std/strings/strings.n
+++ b/std/strings/strings.n
@@ -31,14 +31,20 @@ pub fn string.find_after(self, string sub, int after):int {
         return self.find_char(sub[0], after)
     }
 
-    anyptr base = self.ref()
-    var temp = libc.strstr((base as uint + after as uint) as libc.cstr, sub.to_cstr())
-    if temp == 0 {
-        return -1
+    for int i = after; i + n <= self.len(); i += 1 {
+        var found = true
+        for int j = 0; j < n; j += 1 {
+            if self[i + j] != sub[j] {
+                found = false
+                break
+            }
+        }
+        if found {
+            return i
+        }
     }
 
-    uint index = temp as uint - base as uint
-    return index as int
+    return -1
 }
 
 pub fn string.reverse(self):string {
-- 
2.43.0


From 8c28e6e0600be7a74d40a1d6386d2bf3cb722a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:55 +0000
Subject: [PATCH 30/77] fix: keep embedded NUL bytes when folding string
 literals

---
 src/semantic/analyzer.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index e0c5840..3610780 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -1691,14 +1691,15 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
         // 处理字符串加法运算（字符串连接）
         if (left_literal->kind == TYPE_STRING && right_literal->kind == TYPE_STRING && binary_expr->op == AST_OP_ADD) {
             // 计算连接后的字符串长度
-            size_t left_len = strlen(left_literal->value);
-            size_t right_len = strlen(right_literal->value);
+            size_t left_len = left_literal->len;
+            size_t right_len = right_literal->len;
             size_t total_len = left_len + right_len + 1; // +1 for null terminator
 
             // 分配内存并连接字符串
             char *result_str = malloc(total_len);
-            strcpy(result_str, left_literal->value);
-            strcat(result_str, right_literal->value);
+            memcpy(result_str, left_literal->value, left_len);
+            memcpy(result_str + left_len, right_literal->value, right_len);
+            result_str[left_len + right_len] = '\0';
 
             // 创建结果字面量
             ast_literal_t *result_literal = NEW(ast_literal_t);
-- 
2.43.0


From 2fd03dd94ff0b80fc5d1971ec4c7afec1eee03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:15 +0000
Subject: [PATCH 31/77] fix: do not fold integer literals above the i64 range

strtoll saturates, so an expression such as 0xffffffffffffffff & x was
folded to a wrong constant.
---
 src/semantic/analyzer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index 3610780..a887f8b 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -1,6 +1,7 @@
 #include "analyzer.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <math.h>
 #include <src/lir.h>
 #include <stdio.h>
@@ -1764,9 +1765,14 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
                 }
             } else {
                 // 整数运算
+                // 超出 i64 范围的字面量(u64)无法使用 i64 进行计算
+                errno = 0;
                 int64_t left_val = strtoll(left_literal->value, NULL, 0);
                 int64_t right_val = strtoll(right_literal->value, NULL, 0);
                 int64_t result = 0;
+                if (errno == ERANGE) {
+                    return;
+                }
 
                 switch (binary_expr->op) {
                     case AST_OP_ADD:
@@ -1860,8 +1866,12 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
                     }
                 } else {
                     // 整数一元运算
+                    errno = 0;
                     int64_t operand_val = strtoll(operand_literal->value, NULL, 0);
                     int64_t result = 0;
+                    if (errno == ERANGE) {
+                        return;
+                    }
 
                     switch (unary_expr->op) {
                         case AST_OP_NEG:
-- 
2.43.0


From dbc54b6870607d62b98ce8f829347000951b50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:44 +0000
Subject: [PATCH 32/77] fix: keep embedded NUL bytes of string constants and
 literals in generic functions

---
 src/ast.c               | 2 +-
 src/semantic/analyzer.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index aaa9031..29d3468 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -266,7 +266,7 @@ static ast_ident *ast_ident_copy(ast_ident *temp) {
 
 static ast_literal_t *ast_literal_copy(ast_literal_t *temp) {
     ast_literal_t *literal = COPY_NEW(ast_literal_t, temp);
-    literal->value = strdup(temp->value); // 根据实际情况复制，这里假设 value 是字符串
+    // value 不会被原地修改，且 string 中可能包含 \0, 直接共享即可
     return literal;
 }
 
diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index a887f8b..1304795 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -2110,7 +2110,7 @@ static void analyzer_constant_propagation(module_t *m, ast_expr_t *expr) {
 
     ast_literal_t *literal = NEW(ast_literal_t);
     literal->kind = right_literal->kind;
-    literal->value = strdup(right_literal->value);
+    literal->value = right_literal->value; // string 中可能包含 \0, 不能使用 strdup
     literal->len = right_literal->len;
 
     expr->value = literal;
-- 
2.43.0


From c22bbe4380608824ac6b93e5ae1e7a9661f7a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:06 +0000
Subject: [PATCH 33/77] fix: return a captured struct, tuple or union of up to
 16 bytes from a closure

The value was left as a memory operand, which the lowering of return cannot
take apart, and the compiler aborted.
---
 src/linear.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.c b/src/linear.c
index 95dd3b1..a001f5a 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1794,6 +1794,12 @@ static void linear_return(module_t *m, ast_return_stmt_t *ast) {
     lir_operand_t *src = NULL;
     if (ast->expr != NULL) {
         src = linear_expr(m, *ast->expr, NULL);
+        // the abi lowering reads the fields of the value through this pointer, so it cannot stay in memory
+        if (src && src->assert_type == LIR_OPERAND_INDIRECT_ADDR && is_abi_struct_like(ast->expr->type)) {
+            lir_operand_t *temp = temp_var_operand(m, lir_operand_type(src));
+            OP_PUSH(lir_op_move(temp, src));
+            src = temp;
+        }
     }
 
     linear_unwind_all(m);
-- 
2.43.0


From 21a192fd50f2f89725d47097b96fa78c768cec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:42 +0000
Subject: [PATCH 34/77] fix: skip the symbol table of a BSD archive whose name
 is stored in the payload

llvm-ar and BSD ar write it as #1/12 followed by __.SYMDEF; the linker took it
for an object and rejected the archive.
---
 src/ld/ld_elf_archive.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ld/ld_elf_archive.c b/src/ld/ld_elf_archive.c
index af7ea53..2937c57 100644
--- a/src/ld/ld_elf_archive.c
+++ b/src/ld/ld_elf_archive.c
@@ -104,8 +104,7 @@ ld_elf_archive_result_t ld_elf_archive_record_at(
 
     const size_t payload_offset = header_offset + LD_ELF_AR_HEADER_SIZE;
     const size_t member_size = (size_t) member_size_u64;
-    const ld_elf_archive_member_kind_t kind =
-            ld_elf_archive_member_kind(header);
+    ld_elf_archive_member_kind_t kind = ld_elf_archive_member_kind(header);
     const size_t field_length = ld_elf_archive_field_length(
             (const char *) header, LD_ELF_AR_NAME_SIZE);
     if (thin && kind == LD_ELF_ARCHIVE_MEMBER_REGULAR &&
@@ -128,6 +127,14 @@ ld_elf_archive_result_t ld_elf_archive_record_at(
             }
             next_offset++;
         }
+        /* a BSD archive may store the symbol table's name in the payload */
+        const char symdef[] = "__.SYMDEF";
+        if (kind == LD_ELF_ARCHIVE_MEMBER_REGULAR && field_length >= 3U &&
+            memcmp(header, "#1/", 3U) == 0 &&
+            member_size >= sizeof(symdef) - 1U &&
+            memcmp(bytes + payload_offset, symdef, sizeof(symdef) - 1U) == 0) {
+            kind = LD_ELF_ARCHIVE_MEMBER_SYMBOL_TABLE;
+        }
     }
 
     record->name_field = header;
-- 
2.43.0


From 7cf84c6c7fd440b44f69c48122eddfbfc55fc411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:35 +0000
Subject: [PATCH 35/77] fix: place .eh_frame contributions without alignment
 padding

Zero bytes between two contributions read as the terminator record, so a
linear scan of the section missed every record after the gap.
---
 src/ld/ld_elf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ld/ld_elf.c b/src/ld/ld_elf.c
index eb10259..b3b564f 100644
--- a/src/ld/ld_elf.c
+++ b/src/ld/ld_elf.c
@@ -1979,7 +1979,11 @@ static int ld_elf_place_one_input(ld_elf_backend_t *backend,
     ld_elf_section_t *section = placement->section;
     ld_elf_output_section_t *output = section->output;
     uint64_t offset;
-    if (!ld_elf_align(output->size, section->header.sh_addralign, &offset) ||
+    /* Zero padding between .eh_frame records would read as a terminator. */
+    uint64_t alignment = ld_elf_is_eh_frame_section(section) && output->size
+                                 ? 1U
+                                 : section->header.sh_addralign;
+    if (!ld_elf_align(output->size, alignment, &offset) ||
         ld_elf_add_overflow(offset, placement->emitted_size, &output->size)) {
         return ld_elf_fail(backend->ctx, LD_OUTPUT_ERROR,
                            "ELF section layout overflow for '%s' in '%s'",
-- 
2.43.0


From 15b33f09543b0f247fc20b52f338367d918416a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:15 +0000
Subject: [PATCH 36/77] fix: refuse RISC-V address pairs past the reach of the
 signed low part

A displacement in the last 2 KiB below 2 GiB was accepted although the upper
instruction then sign-extends to a negative value, so the pair computed an
address 4 GiB too low.
---
 src/ld/ld_elf_reloc.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ld/ld_elf_reloc.c b/src/ld/ld_elf_reloc.c
index 5bd089c..86a99d8 100644
--- a/src/ld/ld_elf_reloc.c
+++ b/src/ld/ld_elf_reloc.c
@@ -2749,6 +2749,11 @@ static int ld_elf_reloc_riscv_require_u32(
             description, instruction);
 }
 
+/* The signed low part moves the reach of a 20/12-bit pair down by 0x800. */
+static bool ld_elf_reloc_riscv_hi20_fits(int64_t value) {
+    return value >= INT32_MIN && value <= INT32_MAX - INT64_C(0x800);
+}
+
 static void ld_elf_reloc_riscv_write_u_type(uint8_t *place,
                                             int64_t value) {
     uint32_t instruction = ld_elf_reloc_read_u32(place);
@@ -3024,7 +3029,8 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_TLS_GD_HI20:
             if (!ld_elf_reloc_expression_signed(
                         values->got_entry_address, relocation->addend,
-                        values->place_address, 32U, &delta)) {
+                        values->place_address, 32U, &delta) ||
+                !ld_elf_reloc_riscv_hi20_fits(delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3120,7 +3126,8 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_LO12_S:
             if (!ld_elf_reloc_expression_signed(
                         values->symbol_address, relocation->addend, 0U, 32U,
-                        &delta)) {
+                        &delta) ||
+                !ld_elf_reloc_riscv_hi20_fits(delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3163,7 +3170,8 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_TPREL_LO12_S:
             if (!ld_elf_reloc_expression_signed(
                         values->symbol_address, relocation->addend,
-                        values->thread_pointer_address, 32U, &delta)) {
+                        values->thread_pointer_address, 32U, &delta) ||
+                !ld_elf_reloc_riscv_hi20_fits(delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3401,7 +3409,7 @@ static int ld_elf_reloc_apply_riscv64(
                     "0x%08x",
                     low);
         }
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
@@ -3419,7 +3427,7 @@ static int ld_elf_reloc_apply_riscv64(
         return LD_OK;
     }
     if (relocation->type == LD_R_RISCV_PCREL_HI20) {
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
-- 
2.43.0


From 090f362514834730934b6444d58736c59b80b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:56 +0000
Subject: [PATCH 37/77] fix: refuse uninitialized data in .pdata instead of
 sorting past its buffer

---
 src/ld/ld_coff_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ld/ld_coff_writer.c b/src/ld/ld_coff_writer.c
index 88ccf34..5d84c70 100644
--- a/src/ld/ld_coff_writer.c
+++ b/src/ld/ld_coff_writer.c
@@ -1226,6 +1226,9 @@ static int ld_coff_sort_pdata(ld_coff_context_t *ctx) {
     if (pdata->virtual_size % 12U != 0U)
         return ld_coff_fail(ctx, LD_INVALID_INPUT,
                             ".pdata size is not a multiple of 12 bytes");
+    if (pdata->virtual_size > pdata->raw_size)
+        return ld_coff_fail(ctx, LD_INVALID_INPUT,
+                            ".pdata contains uninitialized data");
     qsort(pdata->data, pdata->virtual_size / 12U, 12U,
           ld_coff_runtime_function_compare);
     for (uint32_t offset = 0; offset < pdata->virtual_size; offset += 12U) {
-- 
2.43.0


From f47d3cbd05506f84ebe5744a58e8f96cc96434e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:29 +0000
Subject: [PATCH 38/77] fix: select reports success on an open channel

A channel's success flag is documented to start out true and to become false
once an operation meets a closed channel. It was never set, so is_successful()
returned false inside every select arm, also when the value had been sent or
received.
---
 runtime/rt_chan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index d36bee0..91c1cc1 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -196,6 +196,7 @@ n_chan_t *rt_chan_new(int64_t rhash, int64_t ele_rhash, int64_t buf_len) {
 
     n_chan_t *chan = rti_gc_malloc(rtype->gc_heap_size, rtype);
     chan->msg_size = element_rtype->storage_size;
+    chan->successful = true;
     pthread_mutex_init(&chan->lock, NULL);
 
     // ele_rhash
-- 
2.43.0


From d388e9efb2b3688f52ae5cb0c2825cb6074435e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:15 +0000
Subject: [PATCH 39/77] fix: select with one channel in several cases unlocks
 it once

A blocked select unlocks its channels along its wait list, skipping a channel
only when it equals the previous one. The list was in case order, so a channel
used in two cases with another channel between them was unlocked twice and could
release a lock held by another thread. Build the wait list in lock order, where
the cases of one channel are adjacent.
---
 runtime/rt_chan.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index 91c1cc1..ea9b7ba 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -613,7 +613,8 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     nextp = &co->waiting;
     for (int16_t i = 0; i < cases_count; i++) {
-        casi = i;
+        // lock order keeps the cases of one channel adjacent, selpark_commit depends on it
+        casi = lockorder[i];
         cas = &cases[casi];
         c = cas->chan;
 
@@ -665,14 +666,15 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     scase *k = NULL;
     for (int16_t i = 0; i < cases_count; i++) {
-        k = &cases[i];
+        int16_t o = lockorder[i];
+        k = &cases[o];
         if (lc == lclist) {
-            casi = i;
+            casi = o;
             cas = k;
             case_success = lclist->success;
         } else {
             c = k->chan;
-            if (i < sends_count) {
+            if (o < sends_count) {
                 waitq_remove(&c->sendq, lclist);
             } else {
                 waitq_remove(&c->recvq, lclist);
-- 
2.43.0


From 2333f7112f1afc5a4212259d40af2ea61cd84727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:56 +0000
Subject: [PATCH 40/77] fix: select receives values that are stored indirectly

The variable of a receive case was marked as defined a second time after its
stack slot had been allocated. For values stored indirectly (structs, arrays,
tuples) that dropped the address of the slot, and the select wrote the received
value through an undefined pointer.
---
 src/linear.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index a001f5a..c581613 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1877,7 +1877,10 @@ static void linear_select(module_t *m, ast_select_stmt_t *select_stmt) {
         lir_operand_t *recv_target;
         if (select_case->recv_var) {
             recv_target = linear_var_decl(m, select_case->recv_var);
-            OP_PUSH(lir_op_nop_def(recv_target));
+            // an indirect value is already defined by its allocation
+            if (select_case->recv_var->type.storage_kind != STORAGE_KIND_IND) {
+                OP_PUSH(lir_op_nop_def(recv_target));
+            }
         }
 
         // 从 on_call 中提取 chan 参数 mov 到 scase_target 中
-- 
2.43.0


From 3f7106753d92e5b460c738d729216da25b2db02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:57 +0000
Subject: [PATCH 41/77] fix: select may receive from a waiting sender without
 binding the value

A receive case without a variable passes no destination. Receiving from a
coroutine blocked in send asserted that there is one and aborted the program.
---
 runtime/rt_chan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index ea9b7ba..c7b87fd 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -303,16 +303,16 @@ bool rt_chan_send(n_chan_t *chan, void *msg_ptr, bool try) {
 }
 
 static void rt_recv(n_chan_t *chan, linkco_t *linkco, void *msg_ptr, scase *cases, int16_t *lockorder, int16_t norder) {
-    assert(msg_ptr);
+    // msg_ptr is NULL when a select case does not bind the received value
     if (buf_empty(chan)) {
         DEBUGF("[rt_chan_recv] sendq have, buf empty,  will direct wakeup")
-        rt_msg_transmit(linkco->co, linkco->data, msg_ptr, false, chan->msg_size);
+        if (msg_ptr) {
+            rt_msg_transmit(linkco->co, linkco->data, msg_ptr, false, chan->msg_size);
+        }
     } else {
         assert(buf_full(chan));
 
         // 直接将缓冲区中的数据 pop 到 msg 中，然后将 sendq 中的数据 push 到尾部。
-        assert(msg_ptr);
-
         buf_pop(chan, msg_ptr);
 
         // copy linkco->data to buf tail
-- 
2.43.0


From 1bfc6e2213f531a39b286e96ca3d9dde490b8e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:49 +0000
Subject: [PATCH 42/77] fix: keep the future of a running coroutine alive

The result of a coroutine is written into its future when it ends. Nothing
marked that future when its creator did not keep it, so a collection while
the coroutine ran freed it and the result was written into freed memory.
---
 runtime/collector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index c4dd6a5..c11d158 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -811,6 +811,11 @@ static void gc_work() {
             insert_gc_worklist(&share_p->gc_worklist, wait_co->arg);
         }
 
+        // 协程结束时会写入 future, 即使没有人持有 future 也需要保留
+        if (wait_co->future && span_of((addr_t) wait_co->future)) {
+            insert_gc_worklist(&share_p->gc_worklist, wait_co->future);
+        }
+
         // 只有第一次 resume 时才会初始化 co, 申请堆栈，并且绑定对应的 p
         if (!wait_co->aco.inited) {
             DEBUGF("[runtime_gc.gc_work] co=%p, fn=%p not init, will skip", wait_co, wait_co->fn);
-- 
2.43.0


From e7f5493a7227a4d2058c2743e239247d7af6d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:16 +0000
Subject: [PATCH 43/77] fix: await of a coroutine that ended before a
 collection returns

The collector recycles the coroutine record of an ended coroutine. A future
kept pointing at the recycled record, so awaiting it later waited for an
unrelated coroutine, or for itself, and took away that coroutine's waiter.
---
 runtime/collector.c        |  6 ++++++
 runtime/nutils/coroutine.c |  1 +
 runtime/processor.c        | 12 +++++++++---
 runtime/processor.h        |  2 +-
 runtime/runtime.h          |  7 +++++--
 std/builtin/coroutine.n    |  6 +++---
 std/co/utils.n             |  2 +-
 7 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/runtime/collector.c b/runtime/collector.c
index c11d158..3670fd0 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -790,6 +790,12 @@ static void gc_work() {
             DEBUGF("[runtime_gc.gc_work] co=%p, main=%d, status=dead, will remove",
                    wait_co, wait_co->main);
 
+            if (wait_co->future) {
+                mutex_lock(&wait_co->dead_locker);
+                wait_co->future->co = NULL;
+                mutex_unlock(&wait_co->dead_locker);
+            }
+
             coroutine_free(wait_co);
 
             rt_linked_fixalloc_remove(&share_p->co_list, node);
diff --git a/runtime/nutils/coroutine.c b/runtime/nutils/coroutine.c
index 6764031..b1527c0 100644
--- a/runtime/nutils/coroutine.c
+++ b/runtime/nutils/coroutine.c
@@ -2,6 +2,7 @@
 
 coroutine_t *rt_coroutine_async(void *fn, int64_t flag, n_future_t *fu) {
     coroutine_t *co = rt_coroutine_new(fn, flag, fu, NULL);
+    fu->co = co;
     rt_coroutine_dispatch(co);
     DEBUGF("[rt_coroutine_async] co=%p, fn=%p, flag=%ld, fu=%p, size=%ld", co, fn, flag, fu, fu->size);
 
diff --git a/runtime/processor.c b/runtime/processor.c
index b88fff1..2cb3506 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -271,7 +271,7 @@ NO_OPTIMIZE static void coroutine_wrapper() {
 
     // coroutine 即将退出，避免被 gc 清理，所以将 error保存在 co->future 中?
     if (co->has_error && co->future) {
-        union_casting(&co->future->error, throwable_rtype.hash, &co->error); // 将 co error 赋值给 co->future 避免被 gc
+        union_casting((n_union_t *) &co->future->error, throwable_rtype.hash, &co->error); // 将 co error 赋值给 co->future 避免被 gc
     }
 
     // co->await_co 可能是随时写入的，所以需要 dead_locker 保证同步
@@ -1039,10 +1039,16 @@ void rt_coroutine_return(void *result_ptr) {
            *(int64_t *) co->future->result, co->future->size);
 }
 
-void rt_coroutine_await(coroutine_t *target_co) {
+void rt_coroutine_await(n_future_t *fu) {
+    coroutine_t *target_co = fu->co;
+    if (!target_co) {
+        return; // 已经结束并被 gc 回收
+    }
+
     mutex_lock(&target_co->dead_locker);
     coroutine_t *src_co = coroutine_get();
-    if (target_co->status == CO_STATUS_DEAD) {
+    // coroutine_t 回收之后会被复用
+    if (fu->co != target_co || target_co->status == CO_STATUS_DEAD) {
         mutex_unlock(&target_co->dead_locker);
         return;
     }
diff --git a/runtime/processor.h b/runtime/processor.h
index 5313cd9..e6fcce6 100644
--- a/runtime/processor.h
+++ b/runtime/processor.h
@@ -280,7 +280,7 @@ void co_migrate(aco_t *aco, aco_share_stack_t *new_st);
 
 void rt_coroutine_sleep(int64_t ms);
 
-void rt_coroutine_await(coroutine_t *co);
+void rt_coroutine_await(n_future_t *fu);
 
 void rt_coroutine_yield();
 
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 9090fe8..350b638 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -373,8 +373,11 @@ struct linkco_t {
 typedef struct n_future_t {
     int64_t size;
     void *result;
-    n_union_t error; // 类似 result 一样可选的 error
-    void *await_co;
+    struct {
+        rtype_t *rtype;
+        n_interface_t value;
+    } error; // throwable?, 类似 result 一样可选的 error
+    void *co; // coroutine 被回收之后为 null
 } n_future_t;
 
 struct coroutine_t {
diff --git a/std/builtin/coroutine.n b/std/builtin/coroutine.n
index bb36d86..001aa0f 100644
--- a/std/builtin/coroutine.n
+++ b/std/builtin/coroutine.n
@@ -18,7 +18,7 @@ pub fn async<T>(fn():void! function, int flag):ref<future_t<T>> {
 
     // Establish mutually binding relationships, so even if the coroutine exits,
     // the related result/error will also be bound to the future to prevent being garbage collected.
-    fu.co = utils.coroutine_async(function as anyptr, flag, fu as anyptr)
+    utils.coroutine_async(function as anyptr, flag, fu as anyptr)
 
     return fu
 }
@@ -29,7 +29,7 @@ pub fn co_return<T>(ptr<T> result) {
 
 #where T:nonvoid
 pub fn future_t<T>.await(&self):T! {
-    utils.coroutine_await(self.co)
+    utils.coroutine_await(self as anyptr)
 
     if self.error is throwable {
         var error = self.error as throwable
@@ -40,7 +40,7 @@ pub fn future_t<T>.await(&self):T! {
 }
 
 pub fn future_t<T>.await_void(&self):void! {
-    utils.coroutine_await(self.co)
+    utils.coroutine_await(self as anyptr)
 
     if self.error is throwable {
         var error = self.error as throwable
diff --git a/std/co/utils.n b/std/co/utils.n
index adb19ae..07503fe 100644
--- a/std/co/utils.n
+++ b/std/co/utils.n
@@ -11,4 +11,4 @@ fn coroutine_dispatch(anyptr co)
 pub fn coroutine_return(anyptr result)
 
 #linkid rt_coroutine_await
-pub fn coroutine_await(anyptr co)
\ No newline at end of file
+pub fn coroutine_await(anyptr future)
\ No newline at end of file
-- 
2.43.0


From 777266e9318c761e3d11ca3ec148a9ba4ed43122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:03 +0000
Subject: [PATCH 44/77] fix: a processor woken while the collector stops the
 world takes part in marking

The cycle number is raised before the world stops. A processor whose thread
started in between already counted as finished for the new cycle, and the
marking coroutine it was then given aborted the program.
---
 runtime/collector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index 3670fd0..fd1307b 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -870,6 +870,8 @@ static void inject_gc_work_coroutine() {
         }
 
         DEBUGF("[inject_gc_work_coroutine] inject gc work, p_index=%d", p->index);
+        // p 可能在 gc_count 递增之后才被唤醒
+        p->gc_work_finished = memory->gc_count - 1;
         coroutine_t *gc_co = rt_coroutine_new((void *) gc_work, FLAG(CO_FLAG_RTFN) | FLAG(CO_FLAG_DIRECT), 0, NULL);
 
         rt_linked_fixalloc_push(&p->co_list, gc_co);
-- 
2.43.0


From 9709074177f3d1340a7bb1d8fffd83e759108ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:50 +0000
Subject: [PATCH 45/77] fix: the write barrier keeps the overwritten object
 alive

While marking, overwriting a reference shaded only the object that holds the
slot. An object read into a stack that was already scanned, whose only other
reference was then overwritten, was freed while still in use. Aggregate
stores copied the new value first, so the old references were lost as well.
---
 runtime/nutils/nutils.c | 13 ++++++++++---
 runtime/nutils/vec.c    | 19 +------------------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 07c64ba..0c8cc62 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -874,6 +874,12 @@ void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
     // yuasa 删除写屏障 shade slot
     shade_obj_grey(slot);
 
+    // 被覆盖的对象可能仅剩已经扫描过的 stack 在引用
+    void *old_obj = *(void **) slot;
+    if (old_obj && old_obj != new_obj && span_of((addr_t) old_obj)) {
+        shade_obj_grey(old_obj);
+    }
+
     // stack 扫描完成后退化成黑色写屏障, 否则是是灰色写屏障
     coroutine_t *co = coroutine_get();
     bool is_grey = co->gc_black < memory->gc_count;
@@ -901,9 +907,8 @@ void write_barrier(void *slot, void *new_obj) {
 }
 
 void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) {
-    memmove(dst, src, rtype->storage_size);
-
     if (!gc_barrier_get() || rtype->last_ptr == 0) {
+        memmove(dst, src, rtype->storage_size);
         return;
     }
 
@@ -918,8 +923,10 @@ void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) {
             continue;
         }
         void **slot = (void **) ((uint8_t *) dst + (i * POINTER_SIZE));
-        rti_write_barrier_ptr(slot, *slot, false);
+        rti_write_barrier_ptr(slot, *(void **) ((uint8_t *) src + (i * POINTER_SIZE)), false);
     }
+
+    memmove(dst, src, rtype->storage_size);
 }
 
 void ptr_valid(void *ptr) {
diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index d897303..d9015be 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -205,24 +205,7 @@ void rti_vec_assign(n_vec_t *l, uint64_t index, void *ref, rtype_t *element_rtyp
     uint64_t offset = l->element_size * index; // (size unit byte) * index
     void *p = l->data + offset;
 
-    memmove(p, ref, l->element_size);
-
-    if (!gc_barrier_get() || element_rtype->last_ptr == 0) {
-        return;
-    }
-
-    uint8_t *gc_bits = RTDATA(element_rtype->malloc_gc_bits_offset);
-    if (element_rtype->malloc_gc_bits_offset == -1) {
-        gc_bits = (uint8_t *) &element_rtype->gc_bits;
-    }
-    uint64_t slot_count = align_up(element_rtype->storage_size, POINTER_SIZE) / POINTER_SIZE;
-    for (uint64_t i = 0; i < slot_count; ++i) {
-        if (!bitmap_test(gc_bits, i)) {
-            continue;
-        }
-        void **slot = (void **) ((uint8_t *) p + (i * POINTER_SIZE));
-        rti_write_barrier_ptr(slot, *slot, false);
-    }
+    rti_write_barrier_rtype(p, ref, element_rtype);
 }
 
 uint64_t rt_vec_length(n_vec_t *l) {
-- 
2.43.0


From 2f75f0960ae9c4a28a2caa3d96d05814fcd0820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:54 +0000
Subject: [PATCH 46/77] fix: starting a function value as a coroutine leaves
 its type unchanged

A function without parameters and result that was started with go was marked
as able to fail from then on, so later plain calls of it were refused.
---
 src/semantic/infer.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index db99127..d05903e 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1335,11 +1335,15 @@ static type_t infer_async(module_t *m, ast_expr_t *expr, type_t target_type) {
 
     // -------------------------------------------- 消除 ast_async_t, 直接改造成 call async----------------------------------------------------------
     ast_expr_t first_arg = {0};
+    type_fn_t *shared_fn = NULL; // 变量自身的 type, 仅在 infer call async 期间视为 errable
+    bool shared_errable = false;
 
     // 如果原有的 go xxx() 没有参数和返回值，则直接使用原有版本的 origin call 传递给 async, 不需要包裹
     if (co_expr->return_type.kind == TYPE_VOID && co_expr->origin_call->args->length == 0) {
         first_arg = co_expr->origin_call->left; // 直接使用 left call fn ident, 而不是使用闭包
-        first_arg.type.fn->is_errable = true;
+        shared_fn = first_arg.type.fn;
+        shared_errable = shared_fn->is_errable;
+        shared_fn->is_errable = true;
 
         // 清空两个 fn body, 避免 infer void 异常
         co_expr->closure_fn->body = slice_new();
@@ -1384,6 +1388,9 @@ static type_t infer_async(module_t *m, ast_expr_t *expr, type_t target_type) {
     new_call_expr->value = call_expr;
 
     type_t result_type = infer_right_expr(m, new_call_expr, type_kind_new(TYPE_UNKNOWN));
+    if (shared_fn) {
+        shared_fn->is_errable = shared_errable;
+    }
 
     // change to block
     ast_block_expr_t *block_expr = NEW(ast_block_expr_t);
-- 
2.43.0


From fe18ba75e757384b9fdfb6ef25edd55503c2a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:54 +0000
Subject: [PATCH 47/77] fix: a captured variable can be matched on

Reading a captured variable into a given place was not supported and aborted
the compiler, for example when it was the subject of a match.
---
 src/linear.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index c581613..d03de95 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1079,17 +1079,16 @@ static lir_operand_t *linear_ident(module_t *m, ast_expr_t expr, lir_operand_t *
         if (s->is_local) {
             // var 存在 heap_ident 表明当前 var 被弃用，后续应该使用 heap_ident。只有一些标量类型会发生这种情况。
             if (symbol_var->heap_ident) {
-                assert(target == NULL);
                 assert(symbol_var->type.storage_kind != STORAGE_KIND_PTR);
 
                 lir_operand_t *src = lir_var_operand(m, symbol_var->heap_ident);
 
                 // struct 作为 param 时也需要进行 escape 处理
-                if (symbol_var->type.storage_kind == STORAGE_KIND_IND) {
-                    return src;
+                if (symbol_var->type.storage_kind != STORAGE_KIND_IND) {
+                    src = indirect_addr_operand(m, symbol_var->type, src, 0);
                 }
 
-                return indirect_addr_operand(m, symbol_var->type, src, 0);
+                return linear_super_move(m, expr.type, target, src);
             }
 
             lir_operand_t *src = lir_var_operand(m, ident->literal);
-- 
2.43.0


From befa3f542bb83a6c79da2b5a16a686cb79a83416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:54 +0000
Subject: [PATCH 48/77] fix: closures can capture loop and select variables

Variables bound by a for-in loop or a select receive were not moved to the
heap when a closure captured them, and the closure read an invalid address.
---
 src/linear.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.c b/src/linear.c
index d03de95..dd92c59 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1667,6 +1667,8 @@ static void linear_for_iterator(module_t *m, ast_for_iterator_stmt_t *ast) {
     // 添加 continue label
     OP_PUSH(lir_op_label(for_continue_ident, true));
 
+    linear_escape_rewrite(m, &ast->first, false);
+
     // gen value
     if (ast->second) {
         lir_operand_t *second_target = linear_var_decl(m, ast->second);
@@ -1682,6 +1684,7 @@ static void linear_for_iterator(module_t *m, ast_for_iterator_stmt_t *ast) {
 
         push_rt_call(m, RT_CALL_ITERATOR_TAKE_VALUE, NULL, 4, iterator_target, int_operand(rtype_hash), cursor_operand,
                      second_ref);
+        linear_escape_rewrite(m, ast->second, false);
     }
     // block
     linear_body(m, ast->body);
@@ -1963,6 +1966,9 @@ select_end:*/
         OP_PUSH(lir_op_new(LIR_OPCODE_BEE, chan_select_case_index, int_operand(i), handle_start->output));
         OP_PUSH(lir_op_bal(handle_end->output));
         OP_PUSH(handle_start);
+        if (select_case->recv_var) {
+            linear_escape_rewrite(m, select_case->recv_var, false);
+        }
         // handle body
         linear_body(m, select_case->handle_body);
         // bl select end
-- 
2.43.0


From f89e7f12fc28301d1d7dac6b9d82a34fba076d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:32 +0000
Subject: [PATCH 49/77] fix: a closure inside a closure captures small scalars
 by their whole address

Passing a captured variable on to an inner closure copied only as many bytes
of its address as the variable itself has.
---
 src/linear.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index dd92c59..607c0f2 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -3930,7 +3930,9 @@ static lir_operand_t *linear_capture_expr(module_t *m, ast_expr_t *expr) {
         // 被 child fn 引用的 var 是更上一级的 var, local fn 也只能通过 env[n] 的方式引用
         ast_env_access_t *env_access = expr->value;
         lir_operand_t *values_operand = linear_inline_env_values(m);
-        lir_operand_t *env_value_ptr = indirect_addr_operand(m, expr->type, values_operand,
+        // env 中存储的总是指针，不能按照 scala 类型的尺寸进行移动
+        type_t env_type = expr->type.storage_kind == STORAGE_KIND_DIR ? type_kind_new(TYPE_ANYPTR) : expr->type;
+        lir_operand_t *env_value_ptr = indirect_addr_operand(m, env_type, values_operand,
                                                              env_access->index * POINTER_SIZE);
 
         return env_value_ptr;
-- 
2.43.0


From 6596f1725a7600327733872f2a83b67ea10495ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:44 +0000
Subject: [PATCH 50/77] fix: a weak COFF alias of a common symbol shares its
 storage

The alias was laid out as a second common symbol without size or alignment,
which made the link fail.
---
 src/ld/ld_coff_writer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ld/ld_coff_writer.c b/src/ld/ld_coff_writer.c
index 5d84c70..522a868 100644
--- a/src/ld/ld_coff_writer.c
+++ b/src/ld/ld_coff_writer.c
@@ -72,6 +72,8 @@ static int ld_coff_prepare_common(ld_coff_context_t *ctx) {
     for (size_t i = 0; i < ctx->global_count; i++) {
         ld_coff_global_t *global = ctx->global_order[i];
         if (global->kind != LD_COFF_GLOBAL_COMMON) continue;
+        /* A weak alias of a common symbol shares the target's storage. */
+        if (global->symbol->global != global) continue;
         uint64_t aligned;
         if (!ld_coff_align_ok(size, global->common_alignment, &aligned) ||
             !ld_coff_add_ok(aligned, global->common_size, &size) ||
@@ -87,7 +89,9 @@ static int ld_coff_prepare_common(ld_coff_context_t *ctx) {
     if (!section) return ld_coff_fail(ctx, LD_IO_ERROR, "out of memory");
     for (size_t i = 0; i < ctx->global_count; i++) {
         ld_coff_global_t *global = ctx->global_order[i];
-        if (global->kind == LD_COFF_GLOBAL_COMMON) global->section = section;
+        if (global->kind != LD_COFF_GLOBAL_COMMON) continue;
+        global->section = section;
+        global->value = global->symbol->global->value;
     }
     return LD_OK;
 }
-- 
2.43.0


From 83388f94348d6d4097a972963b119d1d7f3f056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:44 +0000
Subject: [PATCH 51/77] fix: undecorated COFF import names end at the first @

---
 src/ld/ld_coff_input.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/ld/ld_coff_input.c b/src/ld/ld_coff_input.c
index 441dc12..0a875a4 100644
--- a/src/ld/ld_coff_input.c
+++ b/src/ld/ld_coff_input.c
@@ -605,13 +605,8 @@ static char *ld_coff_transform_import_name(const char *public_name,
     }
     size_t length = strlen(start);
     if (name_type == LD_COFF_IMPORT_NAME_UNDECORATE) {
-        const char *suffix = strrchr(start, '@');
-        if (suffix && suffix != start) {
-            bool digits = true;
-            for (const char *p = suffix + 1U; *p; p++)
-                if (!isdigit((unsigned char) *p)) digits = false;
-            if (digits) length = (size_t) (suffix - start);
-        }
+        const char *suffix = strchr(start, '@');
+        if (suffix && suffix != start) length = (size_t) (suffix - start);
     }
     return ld_coff_strndup(start, length);
 }
-- 
2.43.0


From 6428285e98b6ff8e1d2cc5e04d36b487fe6e92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:15 +0000
Subject: [PATCH 52/77] fix: every instance of a generic function gets its own
 match, select and tag nodes

---
 src/ast.c            | 22 +++++++++++++++++++---
 src/semantic/infer.c |  3 +++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 29d3468..9c6b3bc 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -280,6 +280,7 @@ static ast_as_expr_t *ast_as_expr_copy(module_t *m, ast_as_expr_t *temp) {
     ast_as_expr_t *as_expr = COPY_NEW(ast_as_expr_t, temp);
     as_expr->src = *ast_expr_copy(m, &temp->src);
     as_expr->target_type = type_copy(m, temp->target_type);
+    as_expr->union_tag = ast_expr_copy(m, temp->union_tag);
     return as_expr;
 }
 
@@ -336,6 +337,7 @@ static ast_is_expr_t *ast_is_expr_copy(module_t *m, ast_is_expr_t *temp) {
     ast_is_expr_t *is_expr = COPY_NEW(ast_is_expr_t, temp);
     is_expr->src = ast_expr_copy(m, temp->src);
     is_expr->target_type = type_copy(m, temp->target_type);
+    is_expr->union_tag = ast_expr_copy(m, temp->union_tag);
     if (temp->binding) {
         is_expr->binding = ast_expr_copy(m, temp->binding);
     }
@@ -503,6 +505,13 @@ static ast_macro_async_t *ast_async_copy(module_t *m, ast_macro_async_t *temp) {
     return expr;
 }
 
+static ast_tagged_union_t *ast_tagged_union_copy(module_t *m, ast_tagged_union_t *temp) {
+    ast_tagged_union_t *tagged_union = COPY_NEW(ast_tagged_union_t, temp);
+    tagged_union->union_type = type_copy(m, temp->union_type);
+    tagged_union->arg = ast_expr_copy(m, temp->arg);
+    return tagged_union;
+}
+
 ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
     if (temp == NULL) {
         return NULL;
@@ -644,6 +653,11 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_select_expr_copy(m, temp->value);
             break;
         }
+        case AST_EXPR_TAGGED_UNION_NEW:
+        case AST_EXPR_TAGGED_UNION_ELEMENT: {
+            expr->value = ast_tagged_union_copy(m, temp->value);
+            break;
+        }
         default:
             assertf(false, "ast_expr_copy unknown expr");
     }
@@ -680,8 +694,10 @@ static ast_select_stmt_t *ast_select_copy(module_t *m, ast_select_stmt_t *temp)
     SLICE_FOR(temp->cases) {
         ast_select_case_t *match_case = SLICE_VALUE(temp->cases);
 
-        ast_select_case_t *new_select_case = NEW(ast_select_case_t);
-        new_select_case->on_call = ast_call_copy(m, match_case->on_call);
+        ast_select_case_t *new_select_case = COPY_NEW(ast_select_case_t, match_case);
+        if (match_case->on_call) {
+            new_select_case->on_call = ast_call_copy(m, match_case->on_call);
+        }
         if (match_case->recv_var) {
             new_select_case->recv_var = ast_var_decl_copy(m, match_case->recv_var);
         }
@@ -704,7 +720,7 @@ static ast_match_t *ast_match_copy(module_t *m, ast_match_t *temp) {
     SLICE_FOR(temp->cases) {
         ast_match_case_t *match_case = SLICE_VALUE(temp->cases);
 
-        ast_match_case_t *new_match_case = NEW(ast_match_case_t);
+        ast_match_case_t *new_match_case = COPY_NEW(ast_match_case_t, match_case);
         new_match_case->cond_list = ast_list_expr_copy(m, match_case->cond_list);
         new_match_case->handle_body = ast_body_copy(m, match_case->handle_body);
         slice_push(cases, new_match_case);
diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index d05903e..a6ce6ad 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1136,6 +1136,9 @@ static type_t infer_as_expr(module_t *m, ast_expr_t *expr) {
     if (as_expr->union_tag) {
         INFER_ASSERTF(as_expr->src.type.kind == TYPE_TAGGED_UNION, "unexpected as expr");
         ast_tagged_union_t *tag = as_expr->union_tag->value;
+        if (!tag->element) {
+            infer_tagged_union_element(m, as_expr->union_tag, as_expr->src.type);
+        }
         tag->element->type = reduction_type(m, tag->element->type);
         as_expr->target_type = tag->element->type;
 
-- 
2.43.0


From 32c4c6fddd80a736ad572b8e5605cbdf764c1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:46 +0000
Subject: [PATCH 53/77] fix: generic functions may contain conditional
 expressions

---
 src/ast.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 9c6b3bc..6f2dd8b 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -505,6 +505,14 @@ static ast_macro_async_t *ast_async_copy(module_t *m, ast_macro_async_t *temp) {
     return expr;
 }
 
+static ast_ternary_expr_t *ast_ternary_copy(module_t *m, ast_ternary_expr_t *temp) {
+    ast_ternary_expr_t *ternary = COPY_NEW(ast_ternary_expr_t, temp);
+    ternary->condition = *ast_expr_copy(m, &temp->condition);
+    ternary->consequent = *ast_expr_copy(m, &temp->consequent);
+    ternary->alternate = *ast_expr_copy(m, &temp->alternate);
+    return ternary;
+}
+
 static ast_tagged_union_t *ast_tagged_union_copy(module_t *m, ast_tagged_union_t *temp) {
     ast_tagged_union_t *tagged_union = COPY_NEW(ast_tagged_union_t, temp);
     tagged_union->union_type = type_copy(m, temp->union_type);
@@ -653,6 +661,10 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_select_expr_copy(m, temp->value);
             break;
         }
+        case AST_EXPR_TERNARY: {
+            expr->value = ast_ternary_copy(m, temp->value);
+            break;
+        }
         case AST_EXPR_TAGGED_UNION_NEW:
         case AST_EXPR_TAGGED_UNION_ELEMENT: {
             expr->value = ast_tagged_union_copy(m, temp->value);
-- 
2.43.0


From e7b61aa31418b3d1738bf8d7a83ee61d6e8980b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:19 +0000
Subject: [PATCH 54/77] fix: generic functions may contain tuple destructuring
 and local constants

---
 src/ast.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 6f2dd8b..a8b9c5b 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -17,6 +17,8 @@ static ast_match_t *ast_match_copy(module_t *m, ast_match_t *temp);
 
 static ast_select_stmt_t *ast_select_copy(module_t *m, ast_select_stmt_t *temp);
 
+static ast_var_decl_t *ast_var_decl_copy(module_t *m, ast_var_decl_t *temp);
+
 ast_ident *ast_new_ident(char *literal) {
     ast_ident *ident = NEW(ast_ident);
     ident->literal = strdup(literal);
@@ -661,6 +663,10 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_select_expr_copy(m, temp->value);
             break;
         }
+        case AST_VAR_DECL: { // tuple destructuring element
+            expr->value = ast_var_decl_copy(m, temp->value);
+            break;
+        }
         case AST_EXPR_TERNARY: {
             expr->value = ast_ternary_copy(m, temp->value);
             break;
@@ -915,6 +921,10 @@ static ast_stmt_t *ast_stmt_copy(module_t *m, ast_stmt_t *temp) {
             stmt->value = ast_call_copy(m, temp->value);
             break;
         }
+        case AST_STMT_CONSTDEF: {
+            // uses were replaced by the value already
+            break;
+        }
         case AST_STMT_CONTINUE: {
             stmt->value = NULL;
             break;
-- 
2.43.0


From 2ffdef9698d4c65afa36b63a5ab539766aa9370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:04:27 +0000
Subject: [PATCH 55/77] fix: each instance of a generic function captures its
 own variables

---
 src/ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index a8b9c5b..ff2f4de 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -980,7 +980,7 @@ ast_fndef_t *ast_fndef_copy(module_t *m, ast_fndef_t *temp) {
     fndef->return_type = type_copy(m, temp->return_type);
     fndef->params = ast_fn_formals_copy(m, temp->params);
     fndef->type = type_copy(m, temp->type);
-    fndef->capture_exprs = temp->capture_exprs;
+    fndef->capture_exprs = ast_list_expr_copy(m, temp->capture_exprs);
     fndef->fn_name = temp->fn_name;
     fndef->fn_name_with_pkg = temp->fn_name_with_pkg;
     fndef->rel_path = temp->rel_path;
-- 
2.43.0


From 8b12977ea82e14654e5edfd8c5ac91201bfaa3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 56/77] fix: enforce numeric constraint on generic arguments

Combining interfaces merged their allowed types, so numeric also allowed
string and bool. The combination now keeps only the types every part allows.
---
 src/semantic/infer.c     |  3 ++-
 src/semantic/interface.c | 20 +++++++++-----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index a6ce6ad..a4aff1d 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -141,7 +141,8 @@ static void generics_constraints_check(module_t *m, ast_generics_constraints *co
         symbol_t *s = symbol_table_get(temp_target_type.ident);
         if (!s) {
             // maybe builtin type
-            if (expect_interface_type->interface->elements->length > 0) {
+            if (expect_interface_type->interface->elements->length > 0 ||
+                expect_interface_type->interface->alloc_types) {
                 INFER_ASSERTF(false, "type '%s' not impl '%s' interface", temp_target_type.ident,
                               expect_interface_type->ident);
             }
diff --git a/src/semantic/interface.c b/src/semantic/interface.c
index 78ed6ac..83289a5 100644
--- a/src/semantic/interface.c
+++ b/src/semantic/interface.c
@@ -345,26 +345,24 @@ static void interface_combination_typedef(module_t *m, ast_typedef_stmt_t *typed
             ct_list_push(origin_interface->elements, method);
         }
 
+        // 组合后的 interface 需要同时满足每一个 interface，所以 alloc_types 取交集
         if (impl_interface->interface->alloc_types && impl_interface->interface->alloc_types->length > 0) {
-            if (!origin_interface->alloc_types) {
-                origin_interface->alloc_types = ct_list_new(sizeof(type_t));
-            }
+            list_t *alloc_types = ct_list_new(sizeof(type_t));
 
             for (int j = 0; j < impl_interface->interface->alloc_types->length; ++j) {
                 type_t *alloc_type = ct_list_value(impl_interface->interface->alloc_types, j);
-                bool exists_type = false;
-                for (int k = 0; k < origin_interface->alloc_types->length; ++k) {
+                bool exists_type = !origin_interface->alloc_types;
+                for (int k = 0; !exists_type && k < origin_interface->alloc_types->length; ++k) {
                     type_t *origin_alloc = ct_list_value(origin_interface->alloc_types, k);
-                    if (type_compare(*origin_alloc, *alloc_type)) {
-                        exists_type = true;
-                        break;
-                    }
+                    exists_type = type_compare(*origin_alloc, *alloc_type);
                 }
 
-                if (!exists_type) {
-                    ct_list_push(origin_interface->alloc_types, alloc_type);
+                if (exists_type) {
+                    ct_list_push(alloc_types, alloc_type);
                 }
             }
+
+            origin_interface->alloc_types = alloc_types;
         }
 
         if (impl_interface->interface->deny_types && impl_interface->interface->deny_types->length > 0) {
-- 
2.43.0


From 77d19cf1146b8f88fbb19a4b036a8343cdd5853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 57/77] fix: refuse operators on operands they are not defined
 for

Arithmetic on bool, struct, vec and other composite values, ordering of
composite values and ~ on non-integers were compiled into meaningless code.
---
 src/semantic/infer.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index a4aff1d..de5167d 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1039,6 +1039,15 @@ static bool type_confirmed(type_t t) {
     return true;
 }
 
+/**
+ * 算术运算和大小比较不支持的复合类型
+ */
+static bool binary_deny_operand(type_kind kind) {
+    return kind == TYPE_STRUCT || kind == TYPE_VEC || kind == TYPE_ARR || kind == TYPE_MAP || kind == TYPE_SET ||
+           kind == TYPE_TUPLE || kind == TYPE_CHAN || kind == TYPE_FN || kind == TYPE_UNION ||
+           kind == TYPE_TAGGED_UNION || kind == TYPE_INTERFACE;
+}
+
 /**
  * @param expr
  * @return
@@ -1094,6 +1103,18 @@ static type_t infer_binary(module_t *m, ast_binary_expr_t *expr, type_t target_t
                       ast_expr_op_str[expr->op]);
     }
 
+    if (ast_is_arithmetic_op(expr->op)) {
+        INFER_ASSERTF(left_type.kind != TYPE_BOOL && !binary_deny_operand(left_type.kind) &&
+                              (left_type.kind != TYPE_STRING || expr->op == AST_OP_ADD),
+                      "binary operator '%s' not support '%s' operand",
+                      ast_expr_op_str[expr->op], type_format(left_type));
+    }
+
+    if (expr->op == AST_OP_LT || expr->op == AST_OP_LE || expr->op == AST_OP_GT || expr->op == AST_OP_GE) {
+        INFER_ASSERTF(!binary_deny_operand(left_type.kind), "binary operator '%s' not support '%s' operand",
+                      ast_expr_op_str[expr->op], type_format(left_type));
+    }
+
     // 位运算只能支持整形
     if (is_integer_operator(expr->op)) {
         INFER_ASSERTF(is_integer(left_type.kind) && is_integer(right_type.kind),
@@ -1676,6 +1697,11 @@ static type_t infer_unary(module_t *m, ast_unary_expr_t *expr, type_t target_typ
         INFER_ASSERTF(false, "neg(-) must use in number，actual '%s'", type_format(operand_type));
     }
 
+    if (expr->op == AST_OP_BNOT) {
+        INFER_ASSERTF(is_integer(operand_type.kind), "bitwise not(~) only integer operand, actual '%s'",
+                      type_format(operand_type));
+    }
+
     // &var
     if (expr->op == AST_OP_LA) {
         INFER_ASSERTF(expr->operand.assert_type != AST_EXPR_LITERAL && expr->operand.assert_type != AST_CALL,
-- 
2.43.0


From 203010efed6e96e909de3b233e710120421bb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 58/77] fix: refuse literals that do not fit and assignment to
 a call

Too many elements in an array literal and repeated properties were accepted.
A tuple literal of another length and an assignment to a call result aborted
the compiler.
---
 src/semantic/infer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index de5167d..6ffc8d2 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1908,6 +1908,9 @@ static type_t infer_vec_new(module_t *m, ast_expr_t *expr, type_t target_type, t
             return reduction_type(m, result);
         }
 
+        INFER_ASSERTF(vec_new->elements->length <= type_array->length, "array literal has %d elements, expect=%d",
+                      vec_new->elements->length, (int) type_array->length);
+
         for (int i = 0; i < vec_new->elements->length; ++i) {
             ast_expr_t *item_expr = ct_list_value(vec_new->elements, i);
             infer_right_expr(m, item_expr, type_array->element_type);
@@ -2076,6 +2079,7 @@ static list_t *infer_struct_properties(module_t *m, type_struct_t *type_struct,
 
         INFER_ASSERTF(expect_property, "not found property '%s'", actual_property->name);
 
+        INFER_ASSERTF(!table_exist(exists, actual_property->name), "duplicate property '%s'", actual_property->name);
         table_set(exists, actual_property->name, actual_property);
 
         // struct_decl 已经是被还原过的类型了
@@ -3127,6 +3131,7 @@ static void infer_assign(module_t *m, ast_assign_stmt_t *stmt) {
     if (left_type.ident_kind != TYPE_IDENT_GENERICS_PARAM) {
         INFER_ASSERTF(left_type.kind != TYPE_VOID, "cannot assign to void");
     }
+    INFER_ASSERTF(stmt->left.assert_type != AST_CALL, "cannot assign to call result");
 
     ast_expr_t left = stmt->left;
     if (left.assert_type == AST_EXPR_VEC_ACCESS) {
@@ -3453,6 +3458,11 @@ static type_t infer_tuple_new(module_t *m, ast_tuple_new_t *tuple_new, type_t ta
         result.args = target_type.args;
     }
     INFER_ASSERTF(tuple_new->elements->length > 0, "tuple elements empty");
+    if (target_type.kind == TYPE_TUPLE) {
+        INFER_ASSERTF(tuple_new->elements->length == target_type.tuple->elements->length,
+                      "tuple length mismatch, expect=%d, actual=%d", target_type.tuple->elements->length,
+                      tuple_new->elements->length);
+    }
     for (int i = 0; i < tuple_new->elements->length; ++i) {
         type_t element_target_type = type_kind_new(TYPE_UNKNOWN);
         if (target_type.kind == TYPE_TUPLE) {
-- 
2.43.0


From d94e9b9d60caf289e318f1dc1a3c82a75dd505a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 59/77] fix: report malformed input instead of crashing the
 parser

The lookahead ran past the end of the file and called missing rules.
---
 src/syntax/parser.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/syntax/parser.c b/src/syntax/parser.c
index 6ed311c..998e44f 100644
--- a/src/syntax/parser.c
+++ b/src/syntax/parser.c
@@ -58,6 +58,15 @@ static bool parser_c_variadic_supported(void) {
 static token_t *parser_advance(module_t *m) {
     assert(m->p_cursor.current->succ != NULL && "next token_t is null");
     token_t *t = m->p_cursor.current->value;
+    if (t->type == TOKEN_EOF) {
+        // 前瞻检测中不会退出，此时停留在 EOF, 无法退出的前瞻直接报错
+        if (m->intercept_errors && m->intercept_errors->count > 64) {
+            m->intercept_errors = NULL;
+        }
+        dump_errorf(m, CT_STAGE_PARSER, t->line, t->column, "unexpected end of file");
+        return t;
+    }
+
     m->p_cursor.current = m->p_cursor.current->succ;
 #ifdef DEBUG_PARSER
     debug_parser(t->line, t->literal);
@@ -1366,7 +1375,7 @@ static ast_expr_t parser_type_args_expr(module_t *m, ast_expr_t left) {
     }
 
     // foo<a, b>{}
-    assert(parser_is(m, TOKEN_LEFT_CURLY));
+    PARSER_ASSERTF(parser_is(m, TOKEN_LEFT_CURLY), "expected '{' found '%s'", parser_peek(m)->literal);
     type_t t = ast_expr_to_typedef_ident(m, left, generics_args);
     return parser_struct_new(m, t);
 }
@@ -3446,6 +3455,10 @@ static ast_expr_t parser_precedence_expr(module_t *m, parser_precedence preceden
     parser_prefix_fn prefix_fn = find_rule(parser_peek(m)->type)->prefix;
 
     PARSER_ASSERTF(prefix_fn, "cannot parser ident '%s'", parser_peek(m)->literal);
+    if (!prefix_fn) {
+        // 前瞻检测时错误被屏蔽
+        return expr_new(m);
+    }
 
     ast_expr_t expr = prefix_fn(m);
 
@@ -3458,6 +3471,10 @@ static ast_expr_t parser_precedence_expr(module_t *m, parser_precedence preceden
 
     while (infix_rule->infix_precedence >= precedence) {
         parser_infix_fn infix_fn = infix_rule->infix;
+        PARSER_ASSERTF(infix_fn, "unexpected '%s'", parser_peek(m)->literal);
+        if (!infix_fn) {
+            return expr;
+        }
 
         expr = infix_fn(m, expr);
 
-- 
2.43.0


From 1286a42f62be0ebd3cd994252ddd2bddc5eaaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 60/77] fix: bound the length of an error message

---
 src/error.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index 8c78b20..bd80a89 100644
--- a/src/error.c
+++ b/src/error.c
@@ -11,7 +11,7 @@ void push_errorf(module_t *m, ct_stage stage, int line, int column, char *format
 
     va_list args;
     va_start(args, format);
-    vsprintf(error->msg, format, args);
+    vsnprintf(error->msg, sizeof(error->msg), format, args);
     va_end(args);
 
     char *display = module_keys_display(error->msg);
@@ -29,7 +29,7 @@ void dump_errorf(module_t *m, ct_stage stage, int line, int column, char *format
 
     va_list args;
     va_start(args, format);
-    vsprintf(error->msg, format, args);
+    vsnprintf(error->msg, sizeof(error->msg), format, args);
     va_end(args);
 
     char *display = module_keys_display(error->msg);
-- 
2.43.0


From 546a0bfbb17010fe92bc0ea729c8ff20bf13ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 61/77] fix: do not run a defer block again from inside itself

An operation that can panic inside a defer block unwound to the same block,
which made the compiler recurse until its stack was exhausted.
---
 src/linear.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 607c0f2..1aa6680 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -79,8 +79,9 @@ static linear_defer_scope_t *linear_defer_scope_new(module_t *m) {
 static void linear_emit_defer_stmt(module_t *m, ast_defer_stmt_t *defer_stmt);
 
 static void linear_emit_scope_defer_stmts(module_t *m, linear_defer_scope_t *scope) {
-    for (int i = scope->defer_stmts->count - 1; i >= 0; --i) {
-        ast_defer_stmt_t *defer_stmt = scope->defer_stmts->take[i];
+    // 正在执行的 defer 已经从 scope 中移除, defer body 中产生的 unwind 只会处理剩余的 defer
+    while (scope->defer_stmts->count > 0) {
+        ast_defer_stmt_t *defer_stmt = scope->defer_stmts->take[--scope->defer_stmts->count];
         linear_emit_defer_stmt(m, defer_stmt);
     }
 }
@@ -91,11 +92,12 @@ static void linear_defer_scope_enter(module_t *m) {
 }
 
 static void linear_defer_scope_leave(module_t *m) {
-    linear_defer_scope_t *scope = stack_pop(m->current_closure->defer_scopes);
+    linear_defer_scope_t *scope = stack_top(m->current_closure->defer_scopes);
     if (!scope) {
         return;
     }
     linear_emit_scope_defer_stmts(m, scope);
+    stack_pop(m->current_closure->defer_scopes);
 }
 
 static void linear_defer_register(module_t *m, ast_defer_stmt_t *defer_stmt) {
@@ -131,19 +133,31 @@ static bool linear_scope_need_unwind(linear_defer_scope_t *scope, linear_unwind_
     }
 }
 
+static void linear_unwind_scope_list(module_t *m, stack_node *node, linear_unwind_mode_t mode, uint16_t depth) {
+    if (!node) {
+        return;
+    }
+
+    linear_defer_scope_t *scope = node->value;
+    if (!linear_scope_need_unwind(scope, mode, depth)) {
+        linear_unwind_scope_list(m, node->next, mode, depth);
+        return;
+    }
+
+    // 后续的 unwind 中 scope 的 defer 已经执行, unwind 结束后恢复
+    int count = scope->defer_stmts->count;
+    linear_emit_scope_defer_stmts(m, scope);
+    linear_unwind_scope_list(m, node->next, mode, depth);
+    scope->defer_stmts->count = count;
+}
+
 static void linear_unwind_scopes(module_t *m, linear_unwind_mode_t mode, uint16_t depth) {
     ct_stack_t *defer_scopes = m->current_closure->defer_scopes;
     if (stack_empty(defer_scopes)) {
         return;
     }
 
-    for (stack_node *node = defer_scopes->top->next; node != NULL; node = node->next) {
-        linear_defer_scope_t *scope = node->value;
-        if (!linear_scope_need_unwind(scope, mode, depth)) {
-            continue;
-        }
-        linear_emit_scope_defer_stmts(m, scope);
-    }
+    linear_unwind_scope_list(m, defer_scopes->top->next, mode, depth);
 }
 
 static void linear_unwind_all(module_t *m) {
-- 
2.43.0


From 69cee5eded8f591b88237fed18d3bf1f3a16c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 62/77] fix: tell errable function types apart in the type hash

fn():T and fn():T! shared generic instances and passed each other's type test.
---
 src/rtype.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtype.h b/src/rtype.h
index c3be0e5..267b512 100644
--- a/src/rtype.h
+++ b/src/rtype.h
@@ -107,7 +107,8 @@ static inline int64_t type_hash(type_t t) {
     }
 
     if (t.kind == TYPE_FN) {
-        char *str = dsprintf("%s.%" PRId64, t.fn->is_fx ? "fx" : "fn", type_hash(t.fn->return_type));
+        char *str = dsprintf("%s%s%s.%" PRId64, t.fn->is_fx ? "fx" : "fn", t.fn->is_errable ? "!" : "",
+                             t.fn->is_rest ? "..." : "", type_hash(t.fn->return_type));
         for (int i = 0; i < t.fn->param_types->length; ++i) {
             type_t *param_type = ct_list_value(t.fn->param_types, i);
             str = str_connect(
-- 
2.43.0


From 508cacf7b9c6e72eb587cbdd2cf71fc973a04e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:13 +0000
Subject: [PATCH 63/77] fix: report a string that is not closed

The scanner looked for the closing quote past the end of the source.
---
 src/syntax/scanner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/syntax/scanner.c b/src/syntax/scanner.c
index b761b3d..e403729 100644
--- a/src/syntax/scanner.c
+++ b/src/syntax/scanner.c
@@ -374,6 +374,8 @@ static autobuf_t *scanner_string_advance(module_t *m, char close_char) {
         scanner_guard_advance(m);
     }
 
+    SCANNER_ASSERTF(!scanner_at_eof(m), "string is not closed");
+
     // 跳过 close char
     m->s_cursor.guard++;
 
-- 
2.43.0


From ae6b025dec7376db7b2602a076d4dd45bfe51173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:01 +0000
Subject: [PATCH 64/77] fix: report an import of a missing or empty file name

---
 src/semantic/analyzer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index 1304795..8ea128f 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -138,7 +138,7 @@ static void analyzer_import_bind_unit(module_t *m, ast_import_t *import, module_
 void analyzer_import(module_t *m, ast_import_t *import) {
     // - import file
     if (import->file) {
-        assert(strlen(import->file) > 0);
+        ANALYZER_ASSERTF(strlen(import->file) > 0, "import file cannot be empty");
         // import->path 必须以 .n 结尾
         ANALYZER_ASSERTF(ends_with(import->file, ".n"), "import file suffix must .n");
 
@@ -170,6 +170,7 @@ void analyzer_import(module_t *m, ast_import_t *import) {
 
         // single-file builds without a package.toml keep resolving by path
         if (!m->package_conf) {
+            ANALYZER_ASSERTF(file_exists(import->full_path), "cannot import '%s': file not found", import->file);
             import->module_ident = module_unique_ident(import);
             import->module_key = import->module_ident;
             return;
-- 
2.43.0


From d0c4e12031368900dd573fc623ee77b0df74e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:21 +0000
Subject: [PATCH 65/77] fix: refuse a function or variable used as a type

---
 src/semantic/analyzer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index 8ea128f..7d956b7 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -417,6 +417,7 @@ static void analyzer_type(module_t *m, type_t *t) {
 
         symbol_t *s = symbol_table_get(t->ident);
         ANALYZER_ASSERTF(s, "type '%s' undeclared", t->ident);
+        ANALYZER_ASSERTF(s->type == SYMBOL_TYPE, "'%s' is not a type", t->ident);
         ast_typedef_stmt_t *ast_stmt = s->ast_value;
         assert(ast_stmt);
 
-- 
2.43.0


From 97f90498ed678d83e0b01c134c748d786a88a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:14 +0000
Subject: [PATCH 66/77] fix: accept Mach-O objects that mark data in code

The offsets of data-in-code entries in an object are addresses, but they
were compared with the file offsets of the sections, so objects that use
.data_region were refused.
---
 src/ld/ld_macho.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ld/ld_macho.c b/src/ld/ld_macho.c
index 076b337..8b2a5d2 100644
--- a/src/ld/ld_macho.c
+++ b/src/ld/ld_macho.c
@@ -2702,8 +2702,9 @@ static int ld_make_data_in_code(ld_context_t *ctx, ld_bytes_t *stream) {
             ld_input_section_t *owner = NULL;
             for (size_t section_index = 0; section_index < object->section_count; section_index++) {
                 ld_input_section_t *section = &object->sections[section_index];
-                if (section->ignored || !section->output || section->header.offset > input.offset) continue;
-                uint64_t relative = (uint64_t) input.offset - section->header.offset;
+                /* Object entries hold section addresses, not file offsets. */
+                if (section->ignored || !section->output || section->header.addr > input.offset) continue;
+                uint64_t relative = (uint64_t) input.offset - section->header.addr;
                 if (relative <= section->header.size && input.length <= section->header.size - relative) {
                     owner = section;
                     break;
@@ -2714,7 +2715,7 @@ static int ld_make_data_in_code(ld_context_t *ctx, ld_bytes_t *stream) {
                 return ld_fail(ctx, LD_INVALID_INPUT, "data-in-code entry is outside sections in '%s'", object->file->path);
             }
             uint64_t output_offset = owner->output->fileoff + owner->output_offset +
-                                     ((uint64_t) input.offset - owner->header.offset);
+                                     ((uint64_t) input.offset - owner->header.addr);
             if (output_offset > UINT32_MAX) {
                 free(entries);
                 return ld_fail(ctx, LD_OUTPUT_ERROR, "data-in-code output offset is too large");
-- 
2.43.0


From 4f196125cd479d9cf48f78ca1017c4d79887fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:43 +0000
Subject: [PATCH 67/77] fix: place section-based Mach-O pointers relative to
 the section

A relocation that names a section instead of a symbol stores the
object's address of the target. The section's own address was not taken
off, so the pointer was too large unless the section was at zero.
---
 src/ld/ld_macho.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ld/ld_macho.c b/src/ld/ld_macho.c
index 8b2a5d2..950d931 100644
--- a/src/ld/ld_macho.c
+++ b/src/ld/ld_macho.c
@@ -2082,6 +2082,16 @@ static ld_branch_thunk_t *ld_find_branch_thunk(ld_context_t *ctx, ld_object_t *o
     return NULL;
 }
 
+/* The content at a section-based relocation is an address of the object. */
+static uint64_t ld_relocation_section_address(const ld_object_t *object,
+                                              const ld_relocation_t *relocation) {
+    if (relocation->external || relocation->symbolnum == 0 ||
+        relocation->symbolnum > object->section_count) {
+        return 0;
+    }
+    return object->sections[relocation->symbolnum - 1U].header.addr;
+}
+
 static int ld_apply_relocations(ld_context_t *ctx) {
     for (size_t object_index = 0; object_index < ctx->objects.count; object_index++) {
         ld_object_t *object = ctx->objects.items[object_index];
@@ -2195,6 +2205,8 @@ static int ld_apply_relocations(ld_context_t *ctx) {
                     uint64_t subtrahend = subtractor ? ld_symbol_address(subtractor) : target;
                     int64_t raw_addend = width == 8 ? (int64_t) ld_read_u64(location)
                                                     : (int64_t) (int32_t) ld_read_u32(location);
+                    raw_addend -= (int64_t) ld_relocation_section_address(object, &next) -
+                                  (int64_t) ld_relocation_section_address(object, &relocation);
                     uint64_t value;
                     if (!ld_relocation_difference(minuend, subtrahend, raw_addend, addend,
                                                   relocation.length, &value)) {
@@ -2215,6 +2227,7 @@ static int ld_apply_relocations(ld_context_t *ctx) {
                     uint64_t raw_value = width == 8 ? ld_read_u64(location) : width == 4 ? ld_read_u32(location)
                                                                                          : 0;
                     int64_t raw_addend = width == 8 ? (int64_t) raw_value : (int64_t) (int32_t) raw_value;
+                    raw_addend -= (int64_t) ld_relocation_section_address(object, &relocation);
                     if (width != 8 && width != 4) return ld_fail(ctx, LD_RELOCATION_ERROR, "unsupported unsigned relocation width");
                     if (symbol && symbol->kind == LD_SYMBOL_IMPORT &&
                         width == 8U) {
-- 
2.43.0


From 295d208fba7f119a4f9ff999adb056a3913561a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:17 +0000
Subject: [PATCH 68/77] fix: do not rebase pointers to absolute Mach-O symbols

An absolute symbol keeps its value wherever the image is loaded, but
pointers to it were slid along with the image.
---
 src/ld/ld_macho.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ld/ld_macho.c b/src/ld/ld_macho.c
index 950d931..a23bb8d 100644
--- a/src/ld/ld_macho.c
+++ b/src/ld/ld_macho.c
@@ -2082,6 +2082,18 @@ static ld_branch_thunk_t *ld_find_branch_thunk(ld_context_t *ctx, ld_object_t *o
     return NULL;
 }
 
+/* An absolute value does not move with the image, so it is never rebased.
+   Linker-defined symbols hold addresses of the image. */
+static bool ld_ref_is_absolute(const ld_macho_ref_t *ref) {
+    const ld_symbol_t *symbol = ref->global;
+    if (!symbol) {
+        return (ref->object->symbols[ref->input_index].entry.n_type & LD_N_TYPE) == LD_N_ABS;
+    }
+    while (symbol->alias && symbol->alias_target) symbol = symbol->alias_target;
+    return symbol->kind == LD_SYMBOL_ABSOLUTE && !symbol->execute_header &&
+           !symbol->linker_defined && symbol->boundary_kind == LD_BOUNDARY_NONE;
+}
+
 /* The content at a section-based relocation is an address of the object. */
 static uint64_t ld_relocation_section_address(const ld_object_t *object,
                                               const ld_relocation_t *relocation) {
@@ -2286,7 +2298,10 @@ static int ld_apply_relocations(ld_context_t *ctx) {
                         if (width == 8) ld_write_u64(location, value);
                         else
                             ld_write_u32(location, (uint32_t) value);
-                        if (width == 8 && ld_add_rebase(ctx, place) != LD_OK) return ctx->error;
+                        if (width == 8 && !(has_ref && ld_ref_is_absolute(&ref)) &&
+                            ld_add_rebase(ctx, place) != LD_OK) {
+                            return ctx->error;
+                        }
                         if (width == 8 &&
                             ld_macho_symbol_is_exported_weak(symbol)) {
                             int64_t weak_addend;
@@ -2434,7 +2449,7 @@ static int ld_apply_relocations(ld_context_t *ctx) {
         } else {
             ld_write_u64(ctx->got->data + i * sizeof(uint64_t),
                          ld_macho_ref_address(ref));
-            if (ld_add_rebase(ctx, got_address) != LD_OK) return ctx->error;
+            if (!ld_ref_is_absolute(ref) && ld_add_rebase(ctx, got_address) != LD_OK) return ctx->error;
             if (ld_macho_symbol_is_exported_weak(global) &&
                 ld_add_weak_bind(ctx, global, got_address, 0) != LD_OK) {
                 return ctx->error;
-- 
2.43.0


From f04ef5424aee53d258a9e8d4154aefee10f9e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:17 +0000
Subject: [PATCH 69/77] fix: do not take an absolute symbol for an unwind
 personality

A personality given by its section and address was looked up among all
symbols with that value, so an absolute symbol that happens to have the
same value was used instead of the function.
---
 src/ld/ld_unwind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ld/ld_unwind.c b/src/ld/ld_unwind.c
index 3b862dd..c34d1ab 100644
--- a/src/ld/ld_unwind.c
+++ b/src/ld/ld_unwind.c
@@ -125,7 +125,7 @@ static bool ld_unwind_ref_at_input_address(ld_context_t *ctx,
                 continue;
             }
             uint8_t type = input->entry.n_type & LD_N_TYPE;
-            if (type != LD_N_SECT && type != LD_N_ABS) continue;
+            if (type != LD_N_SECT) continue;
             bool external = (input->entry.n_type & LD_N_EXT) != 0;
             if ((pass == 0U) != external) continue;
             if (ld_unwind_ref_for_symbol(ctx, object, (uint32_t) index,
-- 
2.43.0


From c74d2c9aa23e441bc6b313c402e6b8861af0d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:36:25 +0000
Subject: [PATCH 70/77] fix: survive custom error messages when throwing and
 reporting errors

The runtime called the message method of a thrown error from C. That method
is compiled nature code, which does not preserve callee-saved registers, so a
program throwing an error with a non-trivial message crashed. The call in
co_throw_error only served a debug print and is removed. The report of an
uncaught error keeps it, with the registers declared clobbered and the pending
flag cleared first.
---
 runtime/nutils/errort.h | 12 +++++++++++-
 runtime/nutils/nutils.c |  5 ++---
 runtime/processor.c     |  1 +
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/errort.h b/runtime/nutils/errort.h
index 9d83ff3..6c68fa0 100644
--- a/runtime/nutils/errort.h
+++ b/runtime/nutils/errort.h
@@ -17,7 +17,17 @@ static inline n_string_t errort_msg(n_errort *self) {
 static inline n_string_t rti_error_msg(n_interface_t *error) {
     assert(error->method_count == 1);
     error_msg_fn error_msg = (error_msg_fn) error->methods[0];
-    return error_msg(error->value.ptr_value);
+    n_string_t msg = error_msg(error->value.ptr_value);
+
+    // msg() may be nature code, which does not preserve callee-saved registers
+#if defined(__x86_64__)
+    __asm__ volatile("" ::: "memory", "rbx", "r12", "r13", "r14", "r15");
+#elif defined(__aarch64__)
+    __asm__ volatile("" ::: "memory", "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28");
+#elif defined(__riscv)
+    __asm__ volatile("" ::: "memory", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11");
+#endif
+    return msg;
 }
 
 /**
diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 0c8cc62..80c7dff 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -651,11 +651,10 @@ void co_throw_error(n_interface_t *error, char *path, char *fn_name, n_int_t lin
     assert(error->method_count == 1);
     coroutine_t *co = coroutine_get();
 
-    n_string_t err_msg = rti_error_msg(error);
-    DEBUGF("[runtime.co_throw_error] co=%p, error=%p, path=%s, fn_name=%s, line=%ld, column=%ld, msg=%s", co,
+    DEBUGF("[runtime.co_throw_error] co=%p, error=%p, path=%s, fn_name=%s, line=%ld, column=%ld", co,
            (void *) error, path, fn_name,
            line,
-           column, (char *) rt_string_ref(&err_msg));
+           column);
 
     assert(co->traces.data == NULL);
     n_vec_t traces = rti_vec_new(&errort_trace_rtype, 0, 0);
diff --git a/runtime/processor.c b/runtime/processor.c
index 2cb3506..58c36be 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -658,6 +658,7 @@ void rti_co_throw(coroutine_t *co, char *msg, bool panic) {
 void coroutine_dump_error(coroutine_t *co) {
     DEBUGF("[runtime.coroutine_dump_error] co=%p, errort base=%p", co, &co->error);
 
+    co->has_error = false; // msg() must not find the error it describes still pending
     n_string_t msg = rti_error_msg(&co->error);
     DEBUGF("[runtime.coroutine_dump_error] memory_string len: %lu, base: %p", msg.length, msg.data);
 
-- 
2.43.0


From 91b2a8eaea2660771c31fda3142dee56577015af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:14:28 +0000
Subject: [PATCH 71/77] fix: arm64 and riscv64 immediates out of range of the
 instruction

An addition, subtraction or comparison with a large negative constant on
arm64, and a subtraction of -2048 on riscv64, had no encoding and aborted
the compiler. Load such constants into the scratch register.
---
 src/native/arm64.c   | 6 +++---
 src/native/riscv64.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/native/arm64.c b/src/native/arm64.c
index e444d06..13563b0 100644
--- a/src/native/arm64.c
+++ b/src/native/arm64.c
@@ -77,14 +77,14 @@ static void arm64_gen_cmp(lir_op_t *op, slice_t *operations, arm64_asm_operand_t
                           bool is_int) {
     if (is_int) {
         arm64_asm_raw_opcode_t opcode;
-        if (source->type == ARM64_ASM_OPERAND_IMMEDIATE && source->immediate < 0) {
+        if (source->type == ARM64_ASM_OPERAND_IMMEDIATE && source->immediate < 0 && source->immediate >= -4095) {
             source->immediate = -source->immediate;
             opcode = R_CMN;
         } else {
             opcode = R_CMP;
         }
 
-        if (source->type == ARM64_ASM_OPERAND_IMMEDIATE && source->immediate > 4095) {
+        if (source->type == ARM64_ASM_OPERAND_IMMEDIATE && (source->immediate > 4095 || source->immediate < 0)) {
             // 使用 x16 进行中转，然后再进行比较
             arm64_asm_operand_t *free_reg;
             if (source->size <= 4) {
@@ -267,7 +267,7 @@ lir_operand_trans_arm64(closure_t *c, lir_op_t *op, lir_operand_t *operand, slic
         result->size = type_kind_sizeof(v->kind);
 
         // 三元运算符的 second 如果是 imm，imm 有数字大小限制不能超过 4095, 如果超过 4095 则需要使用 x16 寄存器进行中转
-        if (operand->pos == LIR_FLAG_SECOND && lir_op_ternary(op) && result->immediate > 4095) {
+        if (operand->pos == LIR_FLAG_SECOND && lir_op_ternary(op) && (result->immediate > 4095 || result->immediate < -4095)) {
             // 使用 x16 进行中转，然后再进行比较
             arm64_asm_operand_t *free_reg;
             if (result->size <= 4) {
diff --git a/src/native/riscv64.c b/src/native/riscv64.c
index d404c6f..e77028d 100644
--- a/src/native/riscv64.c
+++ b/src/native/riscv64.c
@@ -334,7 +334,7 @@ static slice_t *riscv64_native_sub(closure_t *c, lir_op_t *op) {
     // 使用SUB指令进行减法
     if (riscv64_is_integer_operand(op->output)) {
         if (right->type == RISCV64_ASM_OPERAND_IMMEDIATE &&
-            right->immediate >= -2048 && right->immediate <= 2047) {
+            right->immediate >= -2047 && right->immediate <= 2047) {
             // 立即数在范围内，可以使用ADDI和负数
             slice_push(operations, RISCV64_INST(RV_ADDI, result, left, RO_IMM(-right->immediate)));
         } else if (right->type == RISCV64_ASM_OPERAND_IMMEDIATE) {
-- 
2.43.0


From 501ed53148e386b57d3184675dac750782a18ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:18:34 +0000
Subject: [PATCH 72/77] fix: arm64 peephole drops a product that is doubled

x * 2 is rewritten to x + x without counting the second use of x. The
multiply-add pattern then takes x for a value used once and removes the
instruction that computes it, which aborts the compiler.
---
 src/peephole/arm64.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/peephole/arm64.c b/src/peephole/arm64.c
index efd9856..b308fd1 100644
--- a/src/peephole/arm64.c
+++ b/src/peephole/arm64.c
@@ -223,6 +223,19 @@ static bool is_mov_imm_two(lir_op_t *op, lir_operand_t **out_var) {
     return false;
 }
 
+/**
+ * x + x 比 x * 2 多使用一次 x, 需要同步到 use_count
+ */
+static void peephole_add_use(basic_block_t *block, lir_operand_t *operand) {
+    if (operand->assert_type != LIR_OPERAND_VAR) {
+        return;
+    }
+
+    lir_var_t *var = operand->value;
+    intptr_t count = (intptr_t) table_get(block->use_count, var->ident);
+    table_set(block->use_count, var->ident, (void *) (count + 1));
+}
+
 /**
  * ARM64 强度削减优化：将 x * 2 转换为 x + x
  * 
@@ -261,6 +274,7 @@ static bool peephole_strength_reduction_mul2(closure_t *c, basic_block_t *block,
             mul_op->code = LIR_OPCODE_ADD;
             mul_op->first = lir_reset_operand(other_operand, LIR_FLAG_FIRST);
             mul_op->second = lir_reset_operand(other_operand, LIR_FLAG_SECOND);
+            peephole_add_use(block, other_operand);
 
             lir_var_t *var = imm_two_var->value;
             if (!peephole_can_remove_var(block, var)) {
@@ -282,6 +296,7 @@ static bool peephole_strength_reduction_mul2(closure_t *c, basic_block_t *block,
         // MUL const_2.0, x -> ADD x, x
         op->code = LIR_OPCODE_ADD;
         op->first = lir_reset_operand(op->second, LIR_FLAG_FIRST);
+        peephole_add_use(block, op->first);
         slice_push(new_ops, op);
         (*cursor)++;
         return true;
@@ -289,6 +304,7 @@ static bool peephole_strength_reduction_mul2(closure_t *c, basic_block_t *block,
         // MUL x, const_2.0 -> ADD x, x
         op->code = LIR_OPCODE_ADD;
         op->second = lir_reset_operand(op->first, LIR_FLAG_SECOND);
+        peephole_add_use(block, op->first);
         slice_push(new_ops, op);
         (*cursor)++;
         return true;
-- 
2.43.0


From 2a3168770b55316f63dd42bf029e0023d2364e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:27:39 +0000
Subject: [PATCH 73/77] fix: arm64 compiler aborts on an operation on a call
 result that is returned

The peephole pass made the result register the first operand of the
operation. Register allocation requires a variable there.
---
 src/peephole/arm64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/peephole/arm64.c b/src/peephole/arm64.c
index b308fd1..828d5a8 100644
--- a/src/peephole/arm64.c
+++ b/src/peephole/arm64.c
@@ -62,6 +62,11 @@ static bool peephole_move_elimination_match2(closure_t *c, basic_block_t *block,
             return false;
         }
 
+        // 寄存器分配要求运算指令的 first 必须是 VAR
+        if (op1->first->assert_type != LIR_OPERAND_VAR) {
+            return false;
+        }
+
         // 执行优化：将第二个指令的first操作数替换为MOVE的输入
         op2->first = lir_reset_operand(op1->first, LIR_FLAG_FIRST);
         return true;
-- 
2.43.0


From d0dde386372cbc6907ef3e7cc732ba4a187a7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:35:20 +0000
Subject: [PATCH 74/77] fix: riscv64 unsigned comparison with the largest value
 is inverted

x > 18446744073709551615 was compiled as !(x < 0), because the bound was
incremented past the range of the type.
---
 src/native/riscv64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/native/riscv64.c b/src/native/riscv64.c
index e77028d..cf9204e 100644
--- a/src/native/riscv64.c
+++ b/src/native/riscv64.c
@@ -645,7 +645,9 @@ static slice_t *riscv64_native_scc(closure_t *c, lir_op_t *op) {
     if (is_integer) {
         // 整数比较逻辑（处理立即数）
         if (second->type == RISCV64_ASM_OPERAND_IMMEDIATE) {
-            if (second->immediate < -2048 || second->immediate > 2046) {
+            // 无符号最大值没有 imm + 1
+            bool is_umax = second->immediate == -1 && (op->code == LIR_OPCODE_USGT || op->code == LIR_OPCODE_USLE);
+            if (is_umax || second->immediate < -2048 || second->immediate > 2046) {
                 riscv64_asm_operand_t *temp_reg = RO_REG(T6);
                 riscv64_mov_imm(op, operations, temp_reg, second->immediate);
                 second = temp_reg;
-- 
2.43.0


From 520c238eb9ec3af7a2c0c8fa3213da66c33daf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:02:12 +0000
Subject: [PATCH 75/77] fix: riscv64 arguments with three fields before the end
 of an array lose values

A struct whose fields already fill both registers was classified again when
its last field is an array of two elements, so that only part of it was passed.
---
 src/lower/riscv64_abi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lower/riscv64_abi.c b/src/lower/riscv64_abi.c
index 5c402a7..193b989 100644
--- a/src/lower/riscv64_abi.c
+++ b/src/lower/riscv64_abi.c
@@ -41,7 +41,7 @@ static void reg_pass_rec(type_t *type, int *rc, int *field_offset, int offset) {
             // 如果 rc[0] > 2 表示单个数组元素需要超过 2 个寄存器， 表示无法通过寄存器传递
             // 如果 rc[0] == 2 && type->array->length > 1 表示数组元素需要超过 2 个寄存器，则无法通过寄存器传递
             // RISC-V最多只能用2个寄存器传递一个参数
-            if (rc[0] > 2 || (rc[0] == 2 && type->array->length > 1)) {
+            if (rc[0] < 0 || rc[0] > 2 || (rc[0] == 2 && type->array->length > 1)) {
                 rc[0] = -1; // 标记为无法通过寄存器传递
             } else if (type->array->length == 2 && rc[0] && rc[1] == TYPE_FLOAT) {
                 // 元素可以通过浮点寄存器传递, 并且数组中有两个元素
-- 
2.43.0


From 5be51d211fb3c04ee1e54c5028d3e10c6d388c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:09:34 +0000
Subject: [PATCH 76/77] fix: compiler reads past the stack bitmap of a function
 with a large frame

The bitmap of pointers in a frame was copied with a size that can exceed its
allocation once the frame is larger than 8 KB.
---
 src/binary/linker.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary/linker.h b/src/binary/linker.h
index 2d3e949..3f40fe3 100644
--- a/src/binary/linker.h
+++ b/src/binary/linker.h
@@ -187,7 +187,11 @@ static inline uint64_t collect_fndef_list(void *ctx) {
         size += sizeof(fndef_t);
 
         f->stack_size = c->stack_offset; // native 的时候已经进行了 16byte 对齐了
-        f->gc_bits_offset = data_put(c->stack_gc_bits->bits, calc_gc_bits_size(f->stack_size, POINTER_SIZE));
+        uint64_t gc_bits_size = calc_gc_bits_size(f->stack_size, POINTER_SIZE);
+        if (gc_bits_size > 0) {
+            bitmap_grow_set(c->stack_gc_bits, gc_bits_size * 8 - 1, 0); // 保证 bits 至少有 gc_bits_size 个字节
+        }
+        f->gc_bits_offset = data_put(c->stack_gc_bits->bits, gc_bits_size);
         f->name_offset = strtable_put(c->linkident);
         f->relpath_offset = strtable_put(c->fndef->rel_path);
         f->line = c->fndef->line;
-- 
2.43.0


From 8fe33e219ba56a8a799edce7b20feed554bf5486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:12:44 +0000
Subject: [PATCH 77/77] fix: report a catch block in the initialiser of a
 global variable

---
 src/semantic/analyzer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index 7d956b7..cccece6 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -708,6 +708,7 @@ local_ident_t *local_ident_new(module_t *m, symbol_type_t type, void *decl, stri
  * 块级作用域处理
  */
 static void analyzer_begin_scope(module_t *m) {
+    ANALYZER_ASSERTF(m->analyzer_current, "blocks are not allowed outside of functions");
     m->analyzer_current->scope_depth++;
 }
 
-- 
2.43.0

