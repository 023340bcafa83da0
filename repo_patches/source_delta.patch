From 38fd0e97ccb3a70b204ee662e095b46304e58892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 01/84] fix: compile-time division evaluates a / b and rejects
 division by zero

---
 src/compiler/optimizer/constexpr.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 778efd2..ce29e2e 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -54,8 +54,12 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
+            if(b == 0)
+                goto div_by_zero;
+            return a / b;
         case ND_MOD:
+            if(b == 0)
+                goto div_by_zero;
             return a % b;
         case ND_EQ:
             return a == b;
@@ -87,6 +91,10 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
             throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile type constant", node->tok->value);
             return 0;
     }
+
+div_by_zero:
+    throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in compile-time constant");
+    return 0;
 }
 
 static i64 const_i64_prefix(Context_T* context, ASTNode_T* node)
@@ -165,8 +173,12 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
+            if(b == 0)
+                goto div_by_zero;
+            return a / b;
         case ND_MOD:
+            if(b == 0)
+                goto div_by_zero;
             return a % b;
         case ND_EQ:
             return a == b;
@@ -198,6 +210,10 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
             throw_error(context, ERR_CONSTEXPR, node->tok, "`%s` is not a compile type constant", node->tok->value);
             return 0;
     }
+
+div_by_zero:
+    throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in compile-time constant");
+    return 0;
 }
 
 i64 const_i64(Context_T* context, ASTNode_T* node)
-- 
2.43.0


From 502e0e4d295a2b8775beea563eee6d8ff7f73d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 02/84] fix: look through type aliases when choosing operand
 width in assembly expressions

---
 src/compiler/codegen/asm/asm_codegen.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index dc999d6..5a3422a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1252,6 +1252,7 @@ static void asm_cmp_zero(ASMCodegenData_T* cg, ASTType_T* ty)
 
 static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to) 
 {
+    to = unpack(to);
     if(to->kind == TY_VOID)
         return;
     
@@ -1802,7 +1803,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_NEG:
             asm_gen_expr(cg, node->right);
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_F32:
                     asm_println(cg, "  mov $1, %%rax");
@@ -2193,7 +2194,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             // It looks like the most significant 48 or 56 bits in RAX may
 		    // contain garbage if a function return type is short or bool/char,
 		    // respectively. We clear the upper bits here.
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_BOOL:
                     asm_println(cg, "  movzx %%al, %%eax");
@@ -2251,7 +2252,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_popf(cg, 1);
             }
 
-            char* sz = node->left->data_type->kind == TY_F32 ? "ss" : "sd";
+            char* sz = unpack(node->left->data_type)->kind == TY_F32 ? "ss" : "sd";
 
             switch(node->kind)
             {
@@ -2372,8 +2373,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
     asm_pop(cg, "%rdi");
 
     char* ax, * di, * dx;
+    ASTType_T* left_type = unpack(node->left->data_type);
 
-    if(node->left->data_type->kind == TY_I64 || node->left->data_type->kind == TY_U64 || node->left->data_type->base)
+    if(left_type->kind == TY_I64 || left_type->kind == TY_U64 || left_type->base)
     {
         ax = "%rax";
         di = "%rdi";
-- 
2.43.0


From d5cae5010610fec1a4a7d4d8f5a1a62d6b58a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 03/84] fix: unordered operands compare as not equal in
 assembly float comparisons

---
 src/compiler/codegen/asm/asm_codegen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 5a3422a..bb3f05a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2279,8 +2279,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 case ND_NE:
                     asm_println(cg, "  ucomi%s %%xmm0, %%xmm1", sz);
                     asm_println(cg, "  setne %%al");
-                    asm_println(cg, "  setnp %%dl");
-                    asm_println(cg, "  and %%dl, %%al");
+                    asm_println(cg, "  setp %%dl");
+                    asm_println(cg, "  or %%dl, %%al");
                     asm_println(cg, "  and $1, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
@@ -2334,12 +2334,16 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     asm_println(cg, "  fcomip");
                     asm_println(cg, "  fstp %%st(0)");
                     asm_println(cg, "  sete %%al");
+                    asm_println(cg, "  setnp %%dl");
+                    asm_println(cg, "  and %%dl, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
                 case ND_NE:
                     asm_println(cg, "  fcomip");
                     asm_println(cg, "  fstp %%st(0)");
                     asm_println(cg, "  setne %%al");
+                    asm_println(cg, "  setp %%dl");
+                    asm_println(cg, "  or %%dl, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
                 case ND_LT:
-- 
2.43.0


From 6d99a852e65604434eee3deb820d15907e0cc0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 04/84] fix: assembly conversions of enums, u64 and f80 to and
 from integers

---
 src/compiler/codegen/asm/asm_codegen.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index bb3f05a..e5d911f 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -91,7 +91,10 @@ static const char i64f32[] = "cvtsi2ssq %rax, %xmm0";
 static const char i64f64[] = "cvtsi2sdq %rax, %xmm0";
 static const char i64f80[] = "movq %rax, -8(%rsp); fildll -8(%rsp)";
 
-static const char u64f32[] = "cvtsi2ssq %rax, %xmm0";
+static const char u64f32[] =
+  "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2ssq %rax,%xmm0; jmp 2f; "
+  "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
+  "or %rax,%rdi; cvtsi2ssq %rdi,%xmm0; addss %xmm0,%xmm0; 2:";
 static const char u64f64[] =
   "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2sd %rax,%xmm0; jmp 2f; "
   "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
@@ -107,7 +110,9 @@ static const char f32u16[] = "cvttss2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f32i32[] = "cvttss2sil %xmm0, %eax";
 static const char f32u32[] = "cvttss2siq %xmm0, %rax";
 static const char f32i64[] = "cvttss2siq %xmm0, %rax";
-static const char f32u64[] = "cvttss2siq %xmm0, %rax";
+static const char f32u64[] =
+  "cvttss2siq %xmm0, %rcx; mov $1593835520, %eax; movq %rax, %xmm1; subss %xmm1, %xmm0; "
+  "cvttss2siq %xmm0, %rax; mov %rcx, %rdx; sar $63, %rdx; and %rdx, %rax; or %rcx, %rax";
 static const char f32f64[] = "cvtss2sd %xmm0, %xmm0";
 static const char f32f80[] = "movss %xmm0, -4(%rsp); flds -4(%rsp)";
 
@@ -118,7 +123,9 @@ static const char f64u16[] = "cvttsd2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f64i32[] = "cvttsd2sil %xmm0, %eax";
 static const char f64u32[] = "cvttsd2siq %xmm0, %rax";
 static const char f64i64[] = "cvttsd2siq %xmm0, %rax";
-static const char f64u64[] = "cvttsd2siq %xmm0, %rax";
+static const char f64u64[] =
+  "cvttsd2siq %xmm0, %rcx; mov $4890909195324358656, %rax; movq %rax, %xmm1; subsd %xmm1, %xmm0; "
+  "cvttsd2siq %xmm0, %rax; mov %rcx, %rdx; sar $63, %rdx; and %rdx, %rax; or %rcx, %rax";
 static const char f64f32[] = "cvtsd2ss %xmm0, %xmm0";
 static const char f64f80[] = "movsd %xmm0, -8(%rsp); fldl -8(%rsp)";
 
@@ -130,12 +137,14 @@ static const char f64f80[] = "movsd %xmm0, -8(%rsp); fldl -8(%rsp)";
 
 static const char f80i8[]  = FROM_F80_1 "fistps" FROM_F80_2 "movsbl -24(%rsp), %eax";
 static const char f80u8[]  = FROM_F80_1 "fistps" FROM_F80_2 "movzbl -24(%rsp), %eax";
-static const char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl -24(%rsp), %eax";
-static const char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl -24(%rsp), %eax";
+static const char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl -24(%rsp), %eax";
+static const char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl -24(%rsp), %eax";
 static const char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov -24(%rsp), %eax";
-static const char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov -24(%rsp), %eax";
+static const char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %eax";
 static const char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %rax";
-static const char f80u64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %rax";
+static const char f80u64[] =
+  "mov $1593835520, %eax; mov %eax, -4(%rsp); flds -4(%rsp); fucomip; setbe %cl; ja 1f; fsubs -4(%rsp); 1: "
+  FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %rax; movzbl %cl, %ecx; shl $63, %rcx; xor %rcx, %rax";
 static const char f80f32[] = "fstps -8(%rsp); movss -8(%rsp), %xmm0";
 static const char f80f64[] = "fstpl -8(%rsp); movsd -8(%rsp), %xmm0";
 
@@ -828,6 +837,7 @@ static i32 get_type_id(ASTType_T *ty) {
         case TY_U16:
             return U16;
         case TY_I32:
+        case TY_ENUM:
             return I32;
         case TY_U32:
             return U32;
-- 
2.43.0


From f507756e01b1f7a8f9e0b0ce6a3b513d7c676ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 05/84] fix: convert mixed-type operands of comparisons,
 bitwise operations, remainders and shifts

---
 src/compiler/parser/typechecker.c | 45 ++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 0f8efad..adc1cb8 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -37,6 +37,8 @@ static void typecheck_lambda_entry(ASTNode_T* lambda, va_list args);
 static void typecheck_lambda_exit(ASTNode_T* lambda, va_list args);
 static void typecheck_return(ASTNode_T* ret, va_list args);
 static void typecheck_binop(ASTNode_T* op, va_list args);
+static void typecheck_mixed_operands(ASTNode_T* op, va_list args);
+static void typecheck_shift(ASTNode_T* op, va_list args);
 
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
 
@@ -66,7 +68,19 @@ static const ASTIteratorList_T iterator = {
         [ND_ADD] = typecheck_binop,
         [ND_SUB] = typecheck_binop,
         [ND_MUL] = typecheck_binop,
-        [ND_DIV] = typecheck_binop
+        [ND_DIV] = typecheck_binop,
+        [ND_MOD] = typecheck_mixed_operands,
+        [ND_BIT_AND] = typecheck_mixed_operands,
+        [ND_BIT_OR] = typecheck_mixed_operands,
+        [ND_XOR] = typecheck_mixed_operands,
+        [ND_EQ] = typecheck_mixed_operands,
+        [ND_NE] = typecheck_mixed_operands,
+        [ND_LT] = typecheck_mixed_operands,
+        [ND_LE] = typecheck_mixed_operands,
+        [ND_GT] = typecheck_mixed_operands,
+        [ND_GE] = typecheck_mixed_operands,
+        [ND_LSHIFT] = typecheck_shift,
+        [ND_RSHIFT] = typecheck_shift
     },
     .type_fns = {
         [TY_DYN] = typecheck_dyn_type
@@ -543,6 +557,35 @@ static void typecheck_binop(ASTNode_T* op, va_list args)
 }
 
 
+// numeric operands of different types get converted to the larger one (or the floating point one) of the two
+static void typecheck_mixed_operands(ASTNode_T* op, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    if(!op->left->data_type || !op->right->data_type)
+        return;
+
+    ASTType_T* left = unpack(op->left->data_type);
+    ASTType_T* right = unpack(op->right->data_type);
+    if(left->kind == right->kind || !is_numeric(left) || !is_numeric(right))
+        return;
+
+    bool to_right = is_flonum(left) != is_flonum(right) ? is_flonum(right) : left->size < right->size;
+    if(to_right)
+        op->left = implicit_cast(t, op->tok, op->left, op->right->data_type, CAST_OK);
+    else
+        op->right = implicit_cast(t, op->tok, op->right, op->left->data_type, CAST_OK);
+}
+
+// the shifted value has the type of the whole expression
+static void typecheck_shift(ASTNode_T* op, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    if(unpack(op->left->data_type)->size < unpack(op->data_type)->size)
+        op->left = implicit_cast(t, op->tok, op->left, op->data_type, CAST_OK);
+}
+
 void typecheck_dyn_type(ASTType_T* dyn_type, va_list args) {
     GET_TYPECHECKER(args);
 
-- 
2.43.0


From 4b3fa2ea1360139ba150e6800104c110183e701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 06/84] fix: pointer arithmetic and indexing in assembly scale
 by the element size and sign-extend the index

---
 src/compiler/codegen/asm/asm_codegen.c | 86 ++++++++++++++++----------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index e5d911f..6ea2675 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -181,6 +181,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda);
 static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty);
+static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to);
 static void asm_gen_string_literals(ASMCodegenData_T* cg);
 
 void init_asm_cg(ASMCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
@@ -880,12 +881,14 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
         case TY_PTR:
         case TY_FN:
             asm_gen_expr(cg, index->expr);
+            asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
             asm_pop(cg, "%rdi");
             asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             break;
 
         case TY_C_ARRAY:
             asm_gen_expr(cg, index->expr);
+            asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
             asm_pop(cg, "%rdi");
             if(index->from_back)
             {
@@ -903,6 +906,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
                 asm_load(cg, (ASTType_T*) primitives[TY_U64]);
                 asm_push(cg);
                 asm_gen_expr(cg, index->expr);
+                asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
                 asm_pop(cg, "%rcx"); // length
                 asm_pop(cg, "%rdi"); // pointer
 
@@ -913,6 +917,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             else
             {
                 asm_gen_expr(cg, index->expr);
+                asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
                 asm_pop(cg, "%rdi");
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             }
@@ -1637,6 +1642,33 @@ static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
     asm_gen_expr(cg, &converted);
 }
 
+// pointer + integer, pointer - integer
+static void asm_gen_ptr_offset(ASMCodegenData_T* cg, ASTNode_T* node)
+{
+    ASTType_T* i64_type = (ASTType_T*) primitives[TY_I64];
+
+    ASTNode_T addend = {
+        .kind = ND_MUL,
+        .data_type = i64_type,
+        .left = &(ASTNode_T) {
+            .kind = ND_CAST,
+            .data_type = i64_type,
+            .left = node->right
+        },
+        .right = &(ASTNode_T) {
+            .kind = ND_LONG,
+            .data_type = i64_type,
+            .long_val = MAX(unpack(node->left->data_type)->base->size, 1)
+        }
+    };
+
+    asm_gen_expr(cg, &addend);
+    asm_push(cg);
+    asm_gen_expr(cg, node->left);
+    asm_pop(cg, "%rdi");
+    asm_println(cg, "  %s %%rdi, %%rax", node->kind == ND_ADD ? "add" : "sub");
+}
+
 static void asm_gen_id_ptr(ASMCodegenData_T* cg, ASTNode_T* id)
 {
     switch(id->referenced_obj->kind)
@@ -1848,61 +1880,47 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_ADD:
             if(unpack(node->left->data_type)->base && unpack(node->right->data_type)->base)
                 throw_error(cg->context, ERR_SYNTAX_ERROR, node->tok, "cannot add two pointer types together");
-            if(ptr_type(node->left->data_type) && unpack(node->left->data_type)->base->size > 1)
+            if(is_integer(unpack(node->left->data_type)) && ptr_type(node->right->data_type))
+            {
+                // a + b -> b + a
+                ASTNode_T swapped = *node;
+                swapped.left = node->right;
+                swapped.right = node->left;
+                asm_gen_ptr_offset(cg, &swapped);
+                return;
+            }
+            if(ptr_type(node->left->data_type) && is_integer(unpack(node->right->data_type)))
             {
                 // if we add a number to a pointer, multiply the second argument with the base type size
                 // a + b -> a + b * sizeof *a
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->base->size
-                    }
-                };
-
-                node->right = &new_right;
+                asm_gen_ptr_offset(cg, node);
+                return;
             }
             break;
         
         case ND_SUB:
-            if(ptr_type(node->left->data_type) && is_integer(node->right->data_type))
+            if(ptr_type(node->left->data_type) && is_integer(unpack(node->right->data_type)))
             {
                 // if we subtract a number from a pointer, multiply the second argument with the base type size
                 // a - b -> a - b * sizeof *a
-
-                node->bool_val = true;
-
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->size
-                    }
-                };
-
-                node->right = &new_right;
+                asm_gen_ptr_offset(cg, node);
+                return;
             }
-            else if(ptr_type(node->left->data_type) && ptr_type(node->left->data_type) && !node->bool_val)
+            else if(ptr_type(node->left->data_type) && ptr_type(node->right->data_type) && !node->bool_val)
             {
                 // if both subtraction arguments are pointers, return the number of elements in between
                 // a - b -> (a - b) / sizeof *a
-
-                node->bool_val = true;
+                ASTNode_T difference = *node;
+                difference.bool_val = true;
 
                 ASTNode_T converted = {
                     .kind = ND_DIV,
                     .data_type = (ASTType_T*) primitives[TY_I64],
-                    .left = node,
+                    .left = &difference,
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_I64],
-                        .int_val = unpack(node->left->data_type)->base->size
+                        .long_val = MAX(unpack(node->left->data_type)->base->size, 1)
                     }
                 };
 
-- 
2.43.0


From e7c2b8d9dda866d1cffea6fa6f94882e69349e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 07/84] fix: reverse index into a C array was off by one
 element too many

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 6ea2675..1e5d71f 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -893,7 +893,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             if(index->from_back)
             {
                 asm_println(cg, "  imul $%d, %%rax", -index->data_type->size);
-                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size + index->data_type->size);
+                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size);
             }
             else
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
-- 
2.43.0


From 3f31f36deb0e2bb28e701055e4d279bde5632e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 08/84] fix: increment and decrement of floating point
 variables in assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 1e5d71f..3241f2c 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1622,10 +1622,18 @@ static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
         .data_type = (ASTType_T*) primitives[TY_I32]
     };
 
+    ASTNode_T float_addend = {
+        .kind = ND_CAST,
+        .left = &addend,
+        .data_type = node->data_type
+    };
+
+    ASTNode_T* right = is_flonum(unpack(node->data_type)) ? &float_addend : &addend;
+
     ASTNode_T converted = {
         .kind = ND_SUB,
         .data_type = node->data_type,
-        .right = &addend,
+        .right = right,
         .left = &(ASTNode_T) {
             .kind = ND_ASSIGN,
             .data_type = node->data_type,
@@ -1633,7 +1641,7 @@ static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
             .right = &(ASTNode_T) {
                 .kind = ND_ADD,
                 .left = node->left,
-                .right = &addend,
+                .right = right,
                 .data_type = node->left->data_type
             } 
         }
-- 
2.43.0


From f801a1a0d98b6d40108a57dfac44682ab219ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 09/84] fix: else expression left a value on the stack in
 assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 3241f2c..1ea9872 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2195,14 +2195,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 pc = cg->cur_count;
             u64 c = cg->cur_count = cg->max_count++;
             asm_gen_expr(cg, node->left);
-            asm_push(cg);
-            asm_push(cg);
             asm_cmp_zero(cg, node->left->data_type);
-            asm_println(cg, "  je .L.else.%ld", c);
-            asm_pop(cg, "%rax");
-            asm_println(cg, "  jmp .L.end.%ld", c);
-            asm_println(cg, ".L.else.%ld:", c);
-            asm_pop(cg, "%rax");
+            asm_println(cg, "  jne .L.end.%ld", c);
             asm_gen_expr(cg, node->right);
             asm_println(cg, ".L.end.%ld:", c);
             cg->cur_count = pc;
-- 
2.43.0


From fee944144a5396ba479391a24ff2918b963d7e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 10/84] fix: pipes in assembly keep the callee-saved register
 and carry floating point values

---
 src/compiler/codegen/asm/asm_codegen.c | 41 ++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 1ea9872..6a15b7c 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1842,13 +1842,48 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             } return;
         
         case ND_PIPE:
+        {
+            ASTTypeKind_T kind = unpack(node->left->data_type)->kind;
+
             asm_gen_expr(cg, node->left);
-            asm_println(cg, "  mov %%rax, %s", pipe_reg);
+            asm_println(cg, "  push %s", pipe_reg);
+            cg->depth++;
+
+            if(kind == TY_F32 || kind == TY_F64)
+                asm_println(cg, "  movq %%xmm0, %s", pipe_reg);
+            else if(kind == TY_F80)
+            {
+                asm_println(cg, "  sub $16, %%rsp");
+                asm_println(cg, "  fstpt (%%rsp)");
+                asm_println(cg, "  mov %%rsp, %s", pipe_reg);
+                cg->depth += 2;
+            }
+            else
+                asm_println(cg, "  mov %%rax, %s", pipe_reg);
+
             asm_gen_expr(cg, node->right);
-            return;
+
+            if(kind == TY_F80)
+            {
+                asm_println(cg, "  add $16, %%rsp");
+                cg->depth -= 2;
+            }
+            asm_pop(cg, pipe_reg);
+        } return;
         
         case ND_HOLE:
-            asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            switch(unpack(node->data_type)->kind)
+            {
+                case TY_F32:
+                case TY_F64:
+                    asm_println(cg, "  movq %s, %%xmm0", pipe_reg);
+                    return;
+                case TY_F80:
+                    asm_println(cg, "  fldt (%s)", pipe_reg);
+                    return;
+                default:
+                    asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            }
             return;
 
         case ND_NEG:
-- 
2.43.0


From 14f4f3a150fd1027cd2d203f717318fdd222fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 11/84] fix: inserting into the middle of a list ran off its
 end

---
 src/compiler/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/list.c b/src/compiler/list.c
index 114c9c5..ed177dd 100755
--- a/src/compiler/list.c
+++ b/src/compiler/list.c
@@ -74,7 +74,7 @@ void list_insert(List_T* list, void* item, size_t index)
 
     list_push(list, NULL);
 
-    for(size_t i = list->size - 1; i > index; i++)
+    for(size_t i = list->size - 1; i > index; i--)
         list->items[i] = list->items[i - 1];
     
     list->items[index] = item;
-- 
2.43.0


From 4b02275ddad151261ba1dd57433f05aecde04302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 12/84] fix: a nested pipe disabled the holes of the enclosing
 pipe

---
 src/compiler/parser/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index c6178de..b77acf9 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2392,11 +2392,13 @@ static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
     parser_consume_operator(p, "|>", "expect `|>` for pipe expression");
 
     bool outer_holes_used = p->holes_used;
+    bool outer_holes_enabled = parser_holes_enabled(p);
     p->holes_used = false;
 
     parser_enable_holes(p);
     pipe->right = parse_expr(p, PREC_PIPE, TOKEN_SEMICOLON);
-    parser_disable_holes(p);
+    if(!outer_holes_enabled)
+        parser_disable_holes(p);
 
     if(!p->holes_used && pipe->right->kind == ND_CALL)
         list_insert(pipe->right->args, init_ast_node(&p->context->raw_allocator, ND_HOLE, pipe->tok), 0);
-- 
2.43.0


From 63b808ebc720bfa8b77203141ca11159ffa04f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 13/84] fix: assigning an array or struct literal crashed or
 read already overwritten elements

---
 src/compiler/codegen/asm/asm_codegen.c | 3 ++-
 src/compiler/parser/validator.c        | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 6a15b7c..df47410 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2058,7 +2058,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_ASSIGN:
-            switch(node->right->kind)
+            // only a new variable cannot be read by the literal assigned to it
+            switch(node->is_initializing ? node->right->kind : ND_NOOP)
             {
             case ND_ARRAY:
                 asm_gen_addr(cg, node->left);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 719fa7f..74705e6 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1702,7 +1702,7 @@ static void iter_validate_struct_lit(ASTNode_T* struct_lit, va_list args)
     if(!struct_lit->data_type)
         validate_anon_struct_lit(v, struct_lit);
 
-    if(v->context->ct == CT_ASM && !struct_lit->is_assigning && in_function(v))
+    if(v->context->ct == CT_ASM && in_function(v))
     {
         struct_lit->buffer = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, struct_lit->tok);
         struct_lit->buffer->data_type = struct_lit->data_type;
@@ -1748,7 +1748,7 @@ static void iter_validate_array_lit(ASTNode_T* array_lit, va_list args)
 
     array_lit->data_type->size = get_type_size(v, array_lit->data_type);
 
-    if(v->context->ct == CT_ASM && !array_lit->is_assigning && in_function(v))
+    if(v->context->ct == CT_ASM && in_function(v))
     {
         array_lit->buffer = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, array_lit->tok);
         array_lit->buffer->data_type = array_lit->data_type;
-- 
2.43.0


From 97784076567a38ad41992cac4ad4edea48a4d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 14/84] fix: deferred statements overwrote floating point and
 struct return values in assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index df47410..a9315f8 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -665,12 +665,20 @@ static void asm_gen_defer(ASMCodegenData_T* cg, List_T* deferred)
     if(!deferred || deferred->size == 0)
         return;
     
-    asm_push(cg);
+    // the return value may be in any of these registers
+    asm_println(cg, "  sub $32, %%rsp");
+    asm_println(cg, "  mov %%rax, (%%rsp)");
+    asm_println(cg, "  mov %%rdx, 8(%%rsp)");
+    asm_println(cg, "  movsd %%xmm0, 16(%%rsp)");
+    asm_println(cg, "  movsd %%xmm1, 24(%%rsp)");
     for(size_t i = 0; i < deferred->size; i++)
     {
         asm_gen_stmt(cg, deferred->items[i]);
     }
-    asm_pop(cg, "%rax");
+    asm_println(cg, "  mov (%%rsp), %%rax");
+    asm_println(cg, "  mov 8(%%rsp), %%rdx");
+    asm_println(cg, "  movsd 16(%%rsp), %%xmm0");
+    asm_println(cg, "  movsd 24(%%rsp), %%xmm1");
 }
 
 static void asm_gen_function_signature(ASMCodegenData_T* cg, const char* fn_name)
-- 
2.43.0


From a7d1805fb231fefc123c4fd7e7b0622445a5c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 15/84] fix: break and continue in a range loop unbalanced the
 stack in assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a9315f8..480f638 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2697,18 +2697,22 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             
             asm_println(cg, ".L.begin.%lu:", c);
             asm_println(cg, "  cmp %%rdx, %%rdi");
-            asm_println(cg, "  jge .L.break.%lu", c);
+            asm_println(cg, "  jge .L.end.%lu", c);
 
             asm_println(cg, "  push %%rdi");
             asm_println(cg, "  push %%rdx");
             asm_gen_stmt(cg, node->body);
+
+            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  pop %%rdx");
             asm_println(cg, "  pop %%rdi");
-            
-            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  inc %%rdi");
             asm_println(cg, "  jmp .L.begin.%lu", c);
+
+            // `break` leaves with the counter and the limit still on the stack
             asm_println(cg, ".L.break.%lu:", c);
+            asm_println(cg, "  add $16, %%rsp");
+            asm_println(cg, ".L.end.%lu:", c);
 
             cg->cur_count = pc;
             cg->cur_brk_id = pbrk;
-- 
2.43.0


From 336183e2f8e8767552ed059f65a8d2b332936fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 16/84] fix: match without default ran the first case, and
 compared with the wrong width in assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 480f638..d2009ed 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -65,6 +65,15 @@ static const char* jmp_mode[TOKEN_EOF] = {
     [ND_GE] = "jge",
 };
 
+static const char* jmp_mode_unsigned[TOKEN_EOF] = {
+    [ND_EQ] = "je",
+    [ND_NE] = "jne",
+    [ND_LT] = "jb",
+    [ND_LE] = "jbe",
+    [ND_GT] = "ja",
+    [ND_GE] = "jae",
+};
+
 static const char* argreg8[]  = {"%dil", "%sil", "%dl", "%cl", "%r8b", "%r9b"};
 static const char* argreg16[] = {"%di", "%si", "%dx", "%cx", "%r8w", "%r9w"};
 static const char* argreg32[] = {"%edi", "%esi", "%edx", "%ecx", "%r8d", "%r9d"};
@@ -2803,12 +2812,17 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
     
         case ND_MATCH:
         {
+            // values are compared in 64 bits, with the signedness of the matched value
+            ASTType_T* matched_type = unpack(node->condition->data_type);
+            bool is_signed = is_integer(matched_type) && !is_unsigned_integer_type(matched_type);
+            ASTType_T* cmp_type = (ASTType_T*) primitives[is_signed ? TY_I64 : TY_U64];
+            const char** jmp = is_signed ? jmp_mode : jmp_mode_unsigned;
+
             asm_gen_expr(cg, node->condition);
+            asm_cast(cg, node->condition->data_type, cmp_type);
             u64 pc = cg->cur_count;
             u64 pbrk = cg->cur_brk_id;
             u64 c = cg->cur_count = cg->cur_brk_id = cg->max_count++;
-            char* ax = (node->condition->data_type->size == 8) ? "%rax" : "%eax";
-            char* di = (node->condition->data_type->size == 8) ? "%rdi" : "%edi";
             
             for(size_t i = 0; i < node->cases->size; i++)
             {
@@ -2817,11 +2831,12 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_push(cg);
                 asm_push(cg);
                 asm_gen_expr(cg, _case->condition);
+                asm_cast(cg, _case->condition->data_type, cmp_type);
                 asm_pop(cg, "%rdi");
-                asm_println(cg, "  cmp %s, %s", ax, di);
+                asm_println(cg, "  cmp %%rax, %%rdi");
                 asm_pop(cg, "%rax");
 
-                asm_println(cg, "  %s .L.case.%ld.%lu", jmp_mode[_case->mode], i, c);
+                asm_println(cg, "  %s .L.case.%ld.%lu", jmp[_case->mode], i, c);
             }
             
             if(node->default_case) 
@@ -2829,6 +2844,8 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 node->default_case->long_val = node->cases->size;
                 asm_println(cg, "  jmp .L.case.%lu.%lu", node->cases->size, c);
             }
+            else
+                asm_println(cg, "  jmp .L.break.%lu", c);
             
             for(size_t i = 0; i < node->cases->size; i++)
                 asm_gen_stmt(cg, node->cases->items[i]);
-- 
2.43.0


From 7eefa1b71d573945637b85d1809c5191fb94fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 17/84] fix: struct arguments and return values in registers
 follow the calling convention in assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 71 ++++++++++++++------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index d2009ed..c0de04d 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -184,6 +184,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs);
 static bool asm_has_flonum(ASTType_T* ty, i32 lo, i32 hi, i32 offset);
 static bool asm_has_flonum_1(ASTType_T* ty);
 static bool asm_has_flonum_2(ASTType_T* ty);
+static bool asm_struct_in_regs(ASTType_T* ty, i32* gp, i32* fp);
 static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
@@ -443,7 +444,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 continue;
 
             i32 top = 16, bottom = 0;
-            i32 gp = 0, fp = 0;
+            i32 gp = obj->return_ptr ? 1 : 0, fp = 0;
 
             // Assign offsets to pass-by-stack parameters
             for(size_t j = 0; j < obj->args->size; j++)
@@ -456,14 +457,8 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 case TY_STRUCT:
                     if(ty->size <= 16)
                     {
-                        bool fp1 = asm_has_flonum(ty, 0, 8, 0);
-                        bool fp2 = asm_has_flonum(ty, 8, 16, 8);
-                        if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                        {
-                            fp = fp + fp1 + fp2;
-                            gp = gp + !fp1 + fp2;
+                        if(asm_struct_in_regs(ty, &gp, &fp))
                             continue;
-                        }
                     } break;
                 
                 case TY_F32:
@@ -725,7 +720,12 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
         for(size_t j = 0; j < obj->args->size; j++)
         {
             ASTObj_T* arg = obj->args->items[j];
-            if(is_flonum(unpack(arg->data_type)))
+            ASTType_T* ty = unpack(arg->data_type);
+            if(arg->offset > 0)
+                continue;
+            if(ty->kind == TY_STRUCT || ty->kind == TY_DYN)
+                asm_struct_in_regs(ty, &gp, &fp);
+            else if(is_flonum(ty))
                 fp++;
             else
                 gp++;
@@ -1126,7 +1126,23 @@ static bool asm_has_flonum_1(ASTType_T* ty)
 
 static bool asm_has_flonum_2(ASTType_T* ty)
 {
-    return asm_has_flonum(ty, 0, 16, 0);
+    return asm_has_flonum(ty, 8, 16, 0);
+}
+
+// Try to pass a struct of at most 16 bytes in registers: each of its (one or two) eightbytes takes
+// a floating point register if it only holds floating point members, otherwise a general purpose one.
+// If there are not enough registers left for all of it, it is passed on the stack.
+static bool asm_struct_in_regs(ASTType_T* ty, i32* gp, i32* fp)
+{
+    i32 need_fp = asm_has_flonum_1(ty) + (ty->size > 8 && asm_has_flonum_2(ty));
+    i32 need_gp = (ty->size > 8 ? 2 : 1) - need_fp;
+
+    if((need_fp && *fp + need_fp > ASM_FP_MAX) || (need_gp && *gp + need_gp > ASM_GP_MAX))
+        return false;
+
+    *fp += need_fp;
+    *gp += need_gp;
+    return true;
 }
 
 static void asm_push_struct(ASMCodegenData_T* cg, ASTType_T* ty)
@@ -1171,10 +1187,10 @@ static void asm_copy_struct_reg(ASMCodegenData_T* cg)
 
     if(ty->size > 8)
     {
-        if(asm_has_flonum(ty, 8, 16, 0) && ty->kind != TY_STRUCT)
+        if(asm_has_flonum(ty, 8, 16, 0))
         {
             assert(ty->size == 12 || ty->size == 16);
-            if(ty->size == 4)
+            if(ty->size == 12)
                 asm_println(cg, "  movss 8(%%rdi), %%xmm%d", fp);
             else
                 asm_println(cg, "  movsd 8(%%rdi), %%xmm%d", fp);
@@ -1205,6 +1221,9 @@ static void asm_copy_struct_mem(ASMCodegenData_T* cg, ASTNode_T* val)
         asm_println(cg, "  mov %d(%%rax), %%dl", i);
         asm_println(cg, "  mov %%dl, %d(%%rdi)", i);
     }
+
+    // the caller reads the result through the returned address
+    asm_println(cg, "  mov %%rdi, %%rax");
 }
 
 static void asm_copy_ret_buffer(ASMCodegenData_T* cg, ASTObj_T* var)
@@ -1517,27 +1536,12 @@ static i32 asm_push_args(ASMCodegenData_T* cg, ASTNode_T* node)
         ASTType_T* ty = unpack(arg->data_type);
         switch(ty->kind)
         {
+            case TY_DYN:
             case TY_STRUCT:
-                if(ty->size > 16)
+                if(ty->size > 16 || !asm_struct_in_regs(ty, &gp, &fp))
                 {
                     arg->pass_by_stack = true;
                     stack += align_to(ty->size, 8) / 8;
-                }
-                else
-                {
-                    bool fp1 = asm_has_flonum_1(ty);
-                    bool fp2 = asm_has_flonum_2(ty);
-
-                    if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                    {
-                        fp += fp1 + fp2;
-                        gp += !fp1 + !fp2;
-                    }
-                    else
-                    {
-                        arg->pass_by_stack = true;
-                        stack += align_to(ty->size, 8) / 8;
-                    }
                 } break;
             case TY_F32:
             case TY_F64:
@@ -1595,18 +1599,17 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
                 if(ty->size > 16)
                     continue;
                 
-                bool fp1 = asm_has_flonum_1(ty);
-                bool fp2 = asm_has_flonum_2(ty);
-                if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
+                i32 next_gp = gp, next_fp = fp;
+                if(asm_struct_in_regs(ty, &next_gp, &next_fp))
                 {
-                    if(fp1)
+                    if(asm_has_flonum_1(ty))
                         asm_popf(cg, fp++);
                     else
                         asm_pop(cg, argreg64[gp++]);
                     
                     if(ty->size > 8) 
                     {
-                        if(fp2)
+                        if(asm_has_flonum_2(ty))
                             asm_popf(cg, fp++);
                         else
                             asm_pop(cg, argreg64[gp++]);    
-- 
2.43.0


From dee0dad56fa3f0cc08d938cde03e37112791931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 18/84] fix: struct size and alignment follow from the members
 and do not change between computations

---
 src/compiler/parser/validator.c | 62 ++++++++++++++-------------------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 74705e6..16c9003 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2309,18 +2309,6 @@ static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args)
 //    GET_VALIDATOR(args);
 }
 
-static i32 align_type(ASTType_T* ty)
-{
-    switch(ty->kind)
-    {
-        case TY_C_ARRAY:
-        case TY_PTR:
-            return MAX(pow(2, floor(log(ty->base->size)/log(2))), 8);
-        default:
-            return MAX(pow(2, floor(log(ty->size)/log(2))), 1);
-    }
-}
-
 static void iter_validate_type(ASTType_T* type, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2328,25 +2316,13 @@ static void iter_validate_type(ASTType_T* type, va_list args)
 
     if(exp->kind != TY_INTERFACE) {
         type->size = get_type_size(v, exp);
-        type->align = align_type(exp);
+        type->align = get_type_align(v, exp);
     }
     exp->align = type->align;
 }
 
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types);
 
-static i32 get_union_size(ASTType_T* u_type)
-{
-    i32 biggest = 0;
-    for(size_t i = 0; i < u_type->members->size; i++)
-    {
-        ASTNode_T* member = u_type->members->items[i];
-        if(member->data_type->size > biggest)
-            biggest = member->data_type->size;
-    }
-    return biggest;
-}
-
 static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** struct_types)
 {
     if(!*struct_types)
@@ -2360,19 +2336,24 @@ static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** stru
 
     list_push(*struct_types, struct_type);
 
-    i64 bits = 0;
+    i64 size = 0;
+    i32 align = 1;
     for(size_t i = 0; i < struct_type->members->size; i++)
     {
         ASTNode_T* member = struct_type->members->items[i];
         member->data_type->size = get_type_size_impl(v, member->data_type, struct_types);
-        bits = align_to(bits, get_type_align(v, member->data_type) * 8);
-        member->offset = bits / 8;
-        bits += member->data_type->size * 8;
+
+        i32 member_align = get_type_align(v, member->data_type);
+        align = MAX(align, member_align);
+
+        member->offset = struct_type->is_union ? 0 : align_to(size, member_align);
+        size = MAX(size, member->offset + member->data_type->size);
     }
+    struct_type->align = align;
 
     list_pop(*struct_types);
 
-    return align_to(bits, get_type_align(v, struct_type) * 8) / 8;
+    return align_to(size, align);
 };
 
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types)
@@ -2425,10 +2406,7 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
         case TY_ARRAY:
                 return get_type_size_impl(v, type->base, struct_types) * calculate_array_size(v, type) + PTR_S;
         case TY_STRUCT:
-            if(type->is_union)
-                return get_union_size(type);
-            else
-                return get_struct_size(v, type, struct_types);
+            return get_struct_size(v, type, struct_types);
         case TY_INTERFACE:
             throw_error(v->context, ERR_TYPE_ERROR_UNCR, type->tok, "cannot get size of type interface");
             return 0;
@@ -2455,13 +2433,25 @@ static i32 get_type_align(Validator_T* v, ASTType_T* type)
 {
     switch(type->kind)
     {
+        case TY_UNDEF:
+            return get_type_align(v, unpack(type));
+        case TY_TYPEOF:
+            return get_type_align(v, unpack(type->num_indices_node->data_type));
         case TY_C_ARRAY:
+            return get_type_align(v, type->base);
+        case TY_STRUCT:
+            // set together with the size: the strictest alignment of all members
+            return MAX(type->align, 1);
         case TY_PTR:
-            return MAX(pow(2, floor(log(type->base->size)/log(2))), 8);
+        case TY_FN:
+        case TY_VLA:
         case TY_ARRAY:
+        case TY_DYN:
             return PTR_S;
+        case TY_INTERFACE:
+            return 1;
         default:
-            return MAX(pow(2, floor(log(type->size)/log(2))), 1);
+            return MAX(get_type_size(v, type), 1);
     }
 }
 
-- 
2.43.0


From 7774fdf3ba741c8e46f0e6870295d0cde204b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 19/84] fix: length of a local array whose type is an alias was
 not stored

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index c0de04d..bacf6ca 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2874,7 +2874,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 // load all of the known array sizes into the first 8 bytes of the local variable
                 if(unpack(local->data_type)->kind == TY_ARRAY)
-                    asm_println(cg, "  movq $%lu, %d(%%rbp)", local->data_type->num_indices, local->offset);
+                    asm_println(cg, "  movq $%lu, %d(%%rbp)", unpack(local->data_type)->num_indices, local->offset);
             }
 
             for(size_t i = 0; i < node->stmts->size; i++)
-- 
2.43.0


From edbcb23c08a12914859c815b910b6a7f138147af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 20/84] fix: unnamed arguments of a variadic function with
 named arguments on the stack

---
 src/compiler/codegen/asm/asm_codegen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index bacf6ca..ede6f1c 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -714,7 +714,7 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
     // save arg registers if function is variadic
     if(is_variadic(obj->data_type))
     {
-        i32 gp = 0, fp = 0;
+        i32 gp = 0, fp = 0, overflow = 16;
         if(obj->return_ptr)
             gp++;
         for(size_t j = 0; j < obj->args->size; j++)
@@ -722,7 +722,11 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
             ASTObj_T* arg = obj->args->items[j];
             ASTType_T* ty = unpack(arg->data_type);
             if(arg->offset > 0)
+            {
+                // the unnamed arguments follow the named ones on the stack
+                overflow = align_to(arg->offset + ty->size, 8);
                 continue;
+            }
             if(ty->kind == TY_STRUCT || ty->kind == TY_DYN)
                 asm_struct_in_regs(ty, &gp, &fp);
             else if(is_flonum(ty))
@@ -737,7 +741,7 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
 		asm_println(cg, "  movl $%d, %d(%%rbp)", gp * 8, off);          // gp_offset
 		asm_println(cg, "  movl $%d, %d(%%rbp)", fp * 8 + 48, off + 4); // fp_offset
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 8);            // overflow_arg_area
-		asm_println(cg, "  addq $16, %d(%%rbp)", off + 8);
+		asm_println(cg, "  addq $%d, %d(%%rbp)", overflow, off + 8);
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 16);           // reg_save_area
 		asm_println(cg, "  addq $%d, %d(%%rbp)", off + 24, off + 16);
             
-- 
2.43.0


From 0a2795b2ec80bbb53bbf60aa828f57148384df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 21/84] fix: index expressions passed as arguments shared the
 flag for reverse indexing with the one for stack arguments

---
 src/compiler/ast/ast.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index b824f02..e6dc5a9 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -148,11 +148,9 @@ struct AST_NODE_STRUCT
         ASTObj_T* stack_ptr;
     };
 
-    union { 
-        bool is_default_case : 1; // case
-        bool pass_by_stack   : 1; // call
-        bool from_back       : 1; // index
-    };
+    bool is_default_case : 1; // case
+    bool pass_by_stack   : 1; // call
+    bool from_back       : 1; // index
 
     UnpackMode_T unpack_mode : 2;
 
-- 
2.43.0


From 57c3006a31a1128987900e771533f32f7ee2f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 22/84] fix: f80 has the size and alignment of a C long double
 (16)

---
 src/compiler/ast/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/ast/types.h b/src/compiler/ast/types.h
index 1b43863..afacbab 100644
--- a/src/compiler/ast/types.h
+++ b/src/compiler/ast/types.h
@@ -16,7 +16,7 @@
 #define U64_S  8
 #define F32_S  4
 #define F64_S  8
-#define F80_S  10
+#define F80_S  16
 #define CHAR_S 1
 #define BOOL_S 1
 #define VOID_S 1
-- 
2.43.0


From f5b91a77cc86c46a1168e7ed5c46cf020eb48c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 23/84] fix: the lexer hung on a prefixed integer literal at
 the end of a file

---
 src/compiler/lexer/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 923ff82..0fdbcc1 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -296,7 +296,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
 
     *lexer->tmp_buffer = '\0';
 
-    while(strchr(digits, lexer->c))
+    while(lexer->c && strchr(digits, lexer->c))
     {
         if(lexer->c == '_')
         {
-- 
2.43.0


From cba16d81fc622d5c20e8cd8f94051156835b436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 24/84] fix: integer literals of 2^63 and above were cut to
 2^63 - 1

---
 src/compiler/lexer/lexer.c   | 2 +-
 src/compiler/parser/parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 0fdbcc1..d18e6ae 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -308,7 +308,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
         lexer_advance(lexer);
     }
 
-    u64 decimal = strtoll(lexer->tmp_buffer, NULL, base);
+    u64 decimal = strtoull(lexer->tmp_buffer, NULL, base);
     sprintf(lexer->tmp_buffer, "%lu", decimal);
 
     Token_T* token = init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_INT, lexer->file);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index b77acf9..633535b 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1934,7 +1934,7 @@ static ASTNode_T* parse_int_lit(Parser_T* p)
 {
     ASTNode_T* lit = init_ast_node(&p->context->raw_allocator, ND_INT, p->tok);
     parser_consume(p, TOKEN_INT, "expect integer literal (0, 1, 2, ...)");
-    i64 num = atoll(lit->tok->value);
+    u64 num = strtoull(lit->tok->value, NULL, 10);
     if(num <= INT_MAX)
     {
         lit->kind = ND_INT;
-- 
2.43.0


From 2d8169da3dc7ad61e78b7da2bb700ef9de617eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 25/84] fix: long identifiers, numbers and operators overflowed
 the lexer's buffer

---
 src/compiler/lexer/lexer.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index d18e6ae..ba12635 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -264,13 +264,23 @@ static TokenType_T lexer_get_id_type(char* id)
     return type;
 }
 
+static void lexer_append(Lexer_T* lexer, char c)
+{
+    size_t len = strlen(lexer->tmp_buffer);
+    if(len + 2 > lexer->tmp_buffer_size)
+        lexer->tmp_buffer = realloc(lexer->tmp_buffer, lexer->tmp_buffer_size *= 2);
+
+    lexer->tmp_buffer[len] = c;
+    lexer->tmp_buffer[len + 1] = '\0';
+}
+
 static Token_T* lexer_get_id(Lexer_T* lexer)
 {
     *lexer->tmp_buffer = '\0';
 
     while(isalnum(lexer->c) || lexer->c == '_' || lexer->c == '?' || lexer->c == '\'')
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
         lexer_advance(lexer);
     }
 
@@ -303,7 +313,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
             lexer_advance(lexer);
             continue;
         }
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
 
         lexer_advance(lexer);
     }
@@ -328,7 +338,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             continue;
         }
 
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
 
         if(lexer->c == '.')
         {   
@@ -478,7 +488,7 @@ static Token_T* lexer_get_operator(Lexer_T* lexer)
 
     while(is_operator_char(lexer->c))
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
         lexer_advance(lexer);
     }
 
-- 
2.43.0


From 19a122c7a38b409a9fbd3c68b6bcc9a2209b59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 26/84] fix: string literals overflowed the lexer's string
 buffer by up to three bytes

---
 src/compiler/lexer/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index ba12635..a78db6f 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -391,7 +391,7 @@ static Token_T* lexer_get_str(Lexer_T* lexer)
 
     while(lexer->c != '"' || (lexer_peek(lexer, -1) == '\\' && lexer_peek(lexer, -2) != '\\'))
     {
-        if(strlen(buffer) - 3 >= length)
+        if(strlen(buffer) + 2 > length)
             buffer = realloc(buffer, length *= 2);
 
         strcat(buffer, (char[2]){lexer->c, '\0'});
-- 
2.43.0


From 7f0174c0a0e5aa60a45a6b67016a50abbbfcd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 27/84] fix: an escaped quote after an escaped backslash ended
 a string literal

---
 src/compiler/lexer/lexer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index a78db6f..d539153 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -389,8 +389,11 @@ static Token_T* lexer_get_str(Lexer_T* lexer)
 
     lexer_advance(lexer);
 
-    while(lexer->c != '"' || (lexer_peek(lexer, -1) == '\\' && lexer_peek(lexer, -2) != '\\'))
+    bool escaped = false;
+    while(lexer->c != '"' || escaped)
     {
+        escaped = lexer->c == '\\' && !escaped;
+
         if(strlen(buffer) + 2 > length)
             buffer = realloc(buffer, length *= 2);
 
-- 
2.43.0


From 890ae590f79ce0f53f13e3654c88fc1e30a6fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 28/84] fix: a multiline comment's delimiters could share a
 character

---
 src/compiler/lexer/lexer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index d539153..6fdb9df 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -212,9 +212,15 @@ static void lexer_skip_multiline_comment(Lexer_T* lexer)
     while(lexer->c != ']' || lexer_peek(lexer, 1) != '#' || depth != 1)
     {
         if(lexer->c == '#' && lexer_peek(lexer, 1) == '[')
+        {
             depth++;
+            lexer_advance(lexer);
+        }
         else if(lexer->c == ']' && lexer_peek(lexer, 1) == '#')
+        {
             depth--;
+            lexer_advance(lexer);
+        }
         else if(lexer->c == '\0')
         {   
             //end of file
-- 
2.43.0


From 4e65013b0bb690bc853828d503ffa4c0af9e4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 29/84] fix: a byte 0xff ended the source silently; the token
 of an unknown character was not terminated

---
 src/compiler/lexer/lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 6fdb9df..d1f9fee 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -553,13 +553,13 @@ static Token_T* lexer_get_symbol(Lexer_T* lexer)
             return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
 
         default: {
-            if(!lexer->c || lexer->c == -1) 
+            if(lexer->pos >= get_line_len(lexer->file, lexer->line))
             {
                 // file is empty, return EOF
                 return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
             }
             else
-                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, &lexer->c, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
+                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, (char[]){lexer->c, '\0'}, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
         }
     }
     // satisfy -Wall
-- 
2.43.0


From af265f9c1fa5ed557ebc317b1fdb80cabc2beb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 30/84] fix: a variable declared after a range loop was
 rejected or added to the loop

---
 src/compiler/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 633535b..3663108 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1378,7 +1378,11 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
             loop->init_stmt = init_stmt;
 
             if(tok_is_operator(p, ".."))
-                return parse_for_range(p, loop, needs_semicolon);
+            {
+                parse_for_range(p, loop, needs_semicolon);
+                p->cur_block = prev_block;
+                return loop;
+            }
             parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop initializer");
         }
     } 
-- 
2.43.0


From 95e64dba984d1541cb1fb2dbdf7372724dfb66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 31/84] fix: any token was accepted for the semicolons of a for
 loop, and the parser ran past the end of the file

---
 src/compiler/parser/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 3663108..962d37b 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1391,11 +1391,11 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
     
     if(!tok_is(p, TOKEN_SEMICOLON))
         loop->condition = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
-    parser_advance(p);
+    parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop condition");
 
     if(!tok_is(p, TOKEN_SEMICOLON))
         loop->expr = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
-    parser_advance(p);
+    parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop expression");
 
     loop->body = parse_stmt(p, needs_semicolon);
 
-- 
2.43.0


From 701556c5c41b56668326692c00a88e7b04e8cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 32/84] fix: a function definition cut off in its argument list
 crashed the parser

---
 src/compiler/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 962d37b..68a6bb5 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -998,7 +998,8 @@ List_T* parse_argument_list(Parser_T* p, TokenType_T end_tok, ASTIdentifier_T**
 
     while(p->tok->type != end_tok)
     {
-        if(parser_peek(p, 2)->type == TOKEN_VA_LIST)
+        Token_T* arg_type = parser_peek(p, 2);
+        if(arg_type && arg_type->type == TOKEN_VA_LIST)
         {
             (*variadic_id) = parse_simple_identifier(p);
             parser_consume_operator(p, ":", "expect `:` after argument name");
-- 
2.43.0


From e03a6ac3b9c3f656f90194a039a8a993f741677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 33/84] fix: an incomplete type expression was accepted without
 an error

---
 src/compiler/parser/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 68a6bb5..2b19e10 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2523,6 +2523,8 @@ static ASTNode_T* parse_type_expr(Parser_T* p)
     }
     else if(tok_is(p, TOKEN_ID))
         parse_builtin_type_exprs(p, expr);
+    else
+        throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "unexpected token `%s`, expect `(` or identifier after `type::`", p->tok->value);
     return expr;
 }
 
-- 
2.43.0


From 4c70ae447f78531ae1b4ff60e5df8f6970b47263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 34/84] fix: the `else` of a ternary was taken by a logical
 operator, assignment or pipe in its first branch

---
 src/compiler/parser/parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 2b19e10..3876b20 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -43,6 +43,7 @@ typedef struct PARSER_STRUCT
 
     bool holes_enabled;
     bool holes_used;
+    bool in_ternary_branch;
 } Parser_T;
 
 typedef enum 
@@ -1266,11 +1267,14 @@ static ASTNode_T* parse_block(Parser_T* p)
 
     ASTNode_T* prev_block = p->cur_block;
     p->cur_block = block;
+    bool outer_in_ternary_branch = p->in_ternary_branch;
+    p->in_ternary_branch = false;
 
     while(p->tok->type != TOKEN_RBRACE)
         list_push(block->stmts, parse_stmt(p, true));
     
     p->cur_block = prev_block;
+    p->in_ternary_branch = outer_in_ternary_branch;
 
     parser_consume(p, TOKEN_RBRACE, "expect `}` at the end of a block statement");
 
@@ -1878,17 +1882,23 @@ static ASTNode_T* parse_expr(Parser_T* p, Precedence_T prec, TokenType_T end_tok
     if(!prefix)
         throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "unexpected token `%s`, expect expression", p->tok->value);
 
+    // operands belong to the enclosing expression, anything else with an end token starts a new one
+    bool outer_in_ternary_branch = p->in_ternary_branch;
+    if(end_tok != TOKEN_EOF && end_tok != TOKEN_SEMICOLON)
+        p->in_ternary_branch = end_tok == TOKEN_ELSE;
+
     ASTNode_T* left_expr = prefix(p);
 
-    while(!tok_is(p, end_tok) && prec < get_precedence(p, p->tok))
+    while(!tok_is(p, end_tok) && !(p->in_ternary_branch && tok_is(p, TOKEN_ELSE)) && prec < get_precedence(p, p->tok))
     {
         InfixParseFn_T infix = get_InfixParseFn_T(p, p->tok);
         if(!infix)
-            return left_expr;
+            break;
         
         left_expr = infix(p, left_expr);
     }
 
+    p->in_ternary_branch = outer_in_ternary_branch;
     return left_expr;
 }
 
-- 
2.43.0


From 8e7f455a3bcf442541b0970a6fea237008d7835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 35/84] fix: a custom infix operator was only found in the
 global namespace

---
 src/compiler/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 3876b20..4511949 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2369,6 +2369,7 @@ static ASTNode_T* parse_custom_infix_operator(Parser_T* p, ASTNode_T* left)
     ASTNode_T* call = init_ast_node(&p->context->raw_allocator, ND_CALL, p->tok);
     call->expr = init_ast_node(&p->context->raw_allocator, ND_ID, p->tok);
     call->expr->id = init_ast_identifier(&p->context->raw_allocator, p->tok, p->tok->value);
+    call->expr->id->global_scope = false;
 
     parser_consume(p, TOKEN_OPERATOR, "expect operator");
 
-- 
2.43.0


From c1d40700a7712fe95e9bff6883dc04f67028a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 36/84] fix: `__func__!` outside of a function crashed the
 parser

---
 src/compiler/parser/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 4511949..32902f1 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2685,6 +2685,9 @@ static ASTNode_T* parse_pow_3(Parser_T* p, ASTNode_T* left)
 
 static ASTNode_T* parse_current_fn_token(Parser_T* p)
 {
+    if(!p->cur_obj)
+        throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "cannot use `__func__!` outside of a function");
+
     p->tok->type = TOKEN_STRING;
     p->tok = allocator_realloc(&p->context->raw_allocator, p->tok, sizeof(Token_T) + strlen(p->cur_obj->id->callee) + 1);
     strcpy(p->tok->value, p->cur_obj->id->callee);
-- 
2.43.0


From daff631a88fe3bfd7eff5b34a527f8bdae6699b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 37/84] fix: a diagnostic on an empty string literal printed
 without end

---
 src/compiler/error/default.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 75012fe..f263a3d 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -62,7 +62,7 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
     fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
             ERR_LINE_NUMBER_SPACES, "", (int) (character - strlen(tok->value) - trim_offset), "");
 
-    for(u32 i = 0; i < strlen(tok->value) - 1; i++)
+    for(size_t i = 1; i < strlen(tok->value); i++)
         putc('~', ERR_OUTPUT_STREAM);
     fprintf(ERR_OUTPUT_STREAM, err_tmp3);
 }
-- 
2.43.0


From b6b88b2967725cfb63fd1ace57d356da35683cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 38/84] fix: a diagnostic on a token of a predefined macro
 crashed

---
 src/compiler/error/default.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index f263a3d..56adb78 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -29,10 +29,10 @@ static void print_current_fn(Context_T* context) {
 
 void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, const char* format, va_list args, bool is_error, const char* error_str)
 {
-    if(!tok)
+    if(!tok || !tok->source) // tokens of predefined macros have no source
     {
         LOG_ERROR(COLOR_BOLD_RED "[Error] " COLOR_RESET COLOR_RED);
-        fprintf(ERR_OUTPUT_STREAM,"%s", format);
+        vfprintf(ERR_OUTPUT_STREAM, format, args);
         LOG_ERROR("\n");
         return;
     }
-- 
2.43.0


From 4e577ca6e6afeab2f07f94a39fe36cf5690163b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 39/84] fix: with --silent a failed compilation exited with
 success

---
 src/compiler/error/default.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 56adb78..11dba8a 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -85,4 +85,6 @@ void default_panic_handler(Context_T* context)
         else if(context->emitted_warnings)
             LOG_WARN_F(COLOR_BOLD_YELLOW "[Warning]" COLOR_RESET COLOR_YELLOW " %u warning%s thrown during code validation\n", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
     }
+    else if(context->emitted_errors)
+        exit(1);
 }
-- 
2.43.0


From 2846811503afd76e72e94adf870c0c52df2e1470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 40/84] fix: a diagnostic on a blank line read before the start
 of the line

---
 src/compiler/error/default.c | 2 +-
 src/compiler/util.c          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 11dba8a..5c23aee 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -59,7 +59,7 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
 
     fprintf(ERR_OUTPUT_STREAM, err_tmp1, source_file_path, (long) line, (long) character, is_error ? COLOR_BOLD_RED : COLOR_BOLD_YELLOW, error_str);
     vfprintf(ERR_OUTPUT_STREAM, format, args);
-    fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
+    fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, *src_line && src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
             ERR_LINE_NUMBER_SPACES, "", (int) (character - strlen(tok->value) - trim_offset), "");
 
     for(size_t i = 1; i < strlen(tok->value); i++)
diff --git a/src/compiler/util.c b/src/compiler/util.c
index 1f14ef6..fbf66c0 100644
--- a/src/compiler/util.c
+++ b/src/compiler/util.c
@@ -95,8 +95,8 @@ char *trim(char* string)
 
     // trim right
     char* back = string + strlen(string);
-    while(isspace(*--back));
-    back[1] = '\0';
+    while(back > string && isspace(back[-1])) back--;
+    *back = '\0';
 
     return string;
 }
-- 
2.43.0


From 43e62a277fbbe18bb534f95cf484cb67779535a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 41/84] fix: tuples of different named types, array lengths or
 function types shared one layout

---
 src/compiler/parser/parser.c | 57 ++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 32902f1..4dff80f 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -449,27 +449,52 @@ static inline bool is_executable(ASTNode_T* n)
     return n->kind == ND_CALL || n->kind == ND_ASSIGN || n->kind == ND_INC || n->kind == ND_DEC || n->kind == ND_CAST || n->kind == ND_MEMBER || n->kind == ND_ASM;
 }
 
+static bool check_id(ASTIdentifier_T* a, ASTIdentifier_T* b)
+{
+    if(!a || !b)
+        return a == b;
+
+    return a->global_scope == b->global_scope && strcmp(a->callee, b->callee) == 0 && check_id(a->outer, b->outer);
+}
+
+// whether two types, as they are written, are certainly the same
 static bool check_type(ASTType_T* a, ASTType_T* b)
 {
-    if(a->kind != b->kind)
-        return false;
-    
-    /*if(a->callee != NULL && b->callee != NULL && strcmp(a->callee, b->callee) != 0)
-        return false;
-    
-    if((a->callee == NULL && b->callee != NULL) || (a->callee != NULL && b->callee == NULL))
-        return false;*/
-    
-    if(a->is_primitive != b->is_primitive)
-        return false;
-    
-    if((a->base == NULL && b->base != NULL) || (a->base != NULL && b->base == NULL))
+    if(!a || !b)
+        return a == b;
+
+    if(a->kind != b->kind || a->is_primitive != b->is_primitive || a->is_constant != b->is_constant)
         return false;
 
-    if(a->base && b->base)
-        return check_type(a->base, b->base);
+    switch(a->kind)
+    {
+        case TY_UNDEF:
+            return check_id(a->id, b->id);
+
+        case TY_ARRAY:
+        case TY_C_ARRAY:
+            return a->num_indices_node && b->num_indices_node
+                && a->num_indices_node->kind == ND_INT && b->num_indices_node->kind == ND_INT
+                && a->num_indices_node->int_val == b->num_indices_node->int_val
+                && check_type(a->base, b->base);
 
-    return true;
+        case TY_FN:
+            if(a->is_variadic != b->is_variadic || a->arg_types->size != b->arg_types->size)
+                return false;
+            for(size_t i = 0; i < a->arg_types->size; i++)
+                if(!check_type(a->arg_types->items[i], b->arg_types->items[i]))
+                    return false;
+            return check_type(a->base, b->base);
+
+        case TY_STRUCT:
+        case TY_ENUM:
+        case TY_INTERFACE:
+        case TY_TYPEOF:
+            return false;
+
+        default:
+            return check_type(a->base, b->base);
+    }
 }
 
 static ASTObj_T* get_compatible_tuple(Parser_T* p, ASTType_T* tuple)
-- 
2.43.0


From 774cf01c4e8c51bf5ad027421ab8f23f52b547f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 42/84] fix: returning a value from a lambda was judged by the
 type of the enclosing function

---
 src/compiler/parser/parser.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 4dff80f..2b93811 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -44,6 +44,7 @@ typedef struct PARSER_STRUCT
     bool holes_enabled;
     bool holes_used;
     bool in_ternary_branch;
+    ASTType_T* cur_return_type;
 } Parser_T;
 
 typedef enum 
@@ -1127,6 +1128,7 @@ static ASTObj_T* parse_fn(Parser_T* p)
 
     ASTObj_T* last_obj = p->cur_obj;
     p->cur_obj = fn;
+    p->cur_return_type = fn->return_type;
     
     if(tok_is_operator(p, "="))
     {
@@ -1144,6 +1146,7 @@ static ASTObj_T* parse_fn(Parser_T* p)
     collect_locals(fn->body, fn->objs);
 
     p->cur_obj = last_obj;
+    p->cur_return_type = NULL;
     
     return fn;
 }
@@ -1317,7 +1320,7 @@ static ASTNode_T* parse_return(Parser_T* p, bool needs_semicolon)
 
     if(!tok_is(p, TOKEN_SEMICOLON) && !tok_is(p, TOKEN_UNLESS) && !tok_is(p, TOKEN_WHILE))
     {
-        if((p->cur_obj && p->cur_obj->return_type->kind == TY_VOID))
+        if(p->cur_return_type && p->cur_return_type->kind == TY_VOID)
             throw_error(p->context, ERR_TYPE_ERROR_UNCR, ret->tok, "cannot return value from function with type `void`, expect `;`");
         ret->return_val = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
     }
@@ -2158,7 +2161,11 @@ static ASTNode_T* parse_lambda_lit(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
+
+        ASTType_T* outer_return_type = p->cur_return_type;
+        p->cur_return_type = lambda->data_type->base;
         lambda->body = parse_stmt(p, false);
+        p->cur_return_type = outer_return_type;
     }
 
     return lambda;
@@ -2233,7 +2240,11 @@ static ASTNode_T* parse_const_lambda(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
+
+        ASTType_T* outer_return_type = p->cur_return_type;
+        p->cur_return_type = lambda_fn->return_type;
         lambda_fn->body = parse_stmt(p, false);
+        p->cur_return_type = outer_return_type;
     }
 
     collect_locals(lambda_fn->body, lambda_fn->objs);
-- 
2.43.0


From b817ac943b632831000854bbd40c768c9a0951ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 43/84] fix: the default case of a match was visited three
 times, which lost the default of a nested match (type)

---
 src/compiler/ast/ast_iterator.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/compiler/ast/ast_iterator.c b/src/compiler/ast/ast_iterator.c
index 3aceb11..c8566bf 100644
--- a/src/compiler/ast/ast_iterator.c
+++ b/src/compiler/ast/ast_iterator.c
@@ -317,14 +317,19 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
             ast_node(list, node->body, custom_args);
             break;
         
-        case ND_MATCH_TYPE:
+        case ND_MATCH_TYPE: {
             ast_type(list, node->data_type, custom_args);
-            ast_node(list, node->body, custom_args);
+            // the default case or, once it is validated, the body of the chosen case
+            ASTNode_T* body = node->default_case;
             for(size_t i = 0; i < node->cases->size; i++)
-                ast_node(list, node->cases->items[i], custom_args);
-            ast_node(list, node->default_case, custom_args);
-            ast_node(list, node->body, custom_args);
-            break;
+            {
+                ASTNode_T* case_stmt = node->cases->items[i];
+                ast_node(list, case_stmt, custom_args);
+                if(case_stmt->body == body)
+                    body = NULL;
+            }
+            ast_node(list, body, custom_args);
+        } break;
 
         case ND_LOOP:
             ast_node(list, node->body, custom_args);
@@ -350,10 +355,8 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
 
         case ND_MATCH:
             ast_node(list, node->condition, custom_args);
-            ast_node(list, node->body, custom_args);
             for(size_t i = 0; i < node->cases->size; i++)
                 ast_node(list, node->cases->items[i], custom_args);
-            ast_node(list, node->body, custom_args);
             ast_node(list, node->default_case, custom_args);
             break;
 
-- 
2.43.0


From aa6f397047008ab33e7736d48fa1708d9bcd90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 44/84] fix: an aborted compilation exited with status 0 when
 no error had been counted

---
 src/compiler/error/default.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 5c23aee..1b63bb1 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -85,6 +85,6 @@ void default_panic_handler(Context_T* context)
         else if(context->emitted_warnings)
             LOG_WARN_F(COLOR_BOLD_YELLOW "[Warning]" COLOR_RESET COLOR_YELLOW " %u warning%s thrown during code validation\n", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
     }
-    else if(context->emitted_errors)
-        exit(1);
+
+    exit(1); // compilation was aborted, even if no error was counted
 }
-- 
2.43.0


From 3473e1af8d81a61b1fac611d94944d17ceb53a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 45/84] fix: --set-mmcd without a value crashed

---
 src/compiler/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index ed0d3e0..71932ce 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -317,7 +317,7 @@ i32 main(i32 argc, char* argv[])
             context.flags.optimize = false;
         else if(streq(arg, "--set-mmcd"))
         {
-            if(!(context.max_macro_call_depth = atoi(argv[++i])))
+            if(!argv[++i] || !(context.max_macro_call_depth = atoi(argv[i])))
             {
                 LOG_ERROR(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " `--set-mmcd` expects an integer greater than 0\n");
                 exit(1);
-- 
2.43.0


From b0f1023e35215c02b2ec387d8eb8e865162c8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 46/84] fix: a subprocess killed by a signal counted as
 successful

---
 src/compiler/platform/linux/linux_platform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/platform/linux/linux_platform.c b/src/compiler/platform/linux/linux_platform.c
index a59a4b8..d5935a1 100644
--- a/src/compiler/platform/linux/linux_platform.c
+++ b/src/compiler/platform/linux/linux_platform.c
@@ -59,7 +59,8 @@ i32 subprocess(const char* p_name, char* const* p_arg, bool print_exit_msg)
     if(pid == 0 && execvp(p_name, p_arg) == -1)
     {
         LOG_ERROR_F("error executing %s: %s\n", p_name, strerror(errno));
-        exit(-1);
+        fflush(OUTPUT_STREAM);
+        _exit(-1);
     }
 
     i32 pid_status;
@@ -86,7 +87,8 @@ i32 subprocess(const char* p_name, char* const* p_arg, bool print_exit_msg)
 #endif
     }
 
-    return WEXITSTATUS(pid_status);
+    // processes killed by a signal have no exit status
+    return WIFEXITED(pid_status) ? WEXITSTATUS(pid_status) : -1;
 }
 
 static i32 unlink_cb(const char *fpath, const struct stat *sb, int typeflag, struct FTW *ftwbuf)
-- 
2.43.0


From f6859041b8c7d97065248ae8eb968ab697c10d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 47/84] fix: type and identifier names were appended to
 uninitialised buffers and past their end

---
 src/compiler/ast/ast.c      | 103 +++++++++++++++++++++---------------
 src/compiler/parser/queue.c |   3 +-
 2 files changed, 61 insertions(+), 45 deletions(-)

diff --git a/src/compiler/ast/ast.c b/src/compiler/ast/ast.c
index b5cebad..a9cba63 100644
--- a/src/compiler/ast/ast.c
+++ b/src/compiler/ast/ast.c
@@ -103,18 +103,28 @@ const char* obj_kind_to_str(ASTObjKind_T kind)
     }
 }
 
-char* ast_id_to_str(char* dest, ASTIdentifier_T* id, size_t size)
+// append to a buffer of `size` bytes, if enough memory is left
+static void append_str(char* dest, size_t size, const char* str)
+{
+    if(strlen(dest) + strlen(str) < size)
+        strcat(dest, str);
+}
+
+static void append_id(char* dest, ASTIdentifier_T* id, size_t size)
 {
     if(id->outer)
     {
-        ast_id_to_str(dest, id->outer, size);
-        if(size - strlen(dest) - 1 < 2)
-            return dest;
-        strcat(dest, "::");
+        append_id(dest, id->outer, size);
+        append_str(dest, size, "::");
     }
-    
-    if(size - strlen(dest) - 1 - strlen(id->callee) > 0) // concatenate the callee, if enough memory is left
-        strcat(dest, id->callee);
+
+    append_str(dest, size, id->callee);
+}
+
+char* ast_id_to_str(char* dest, ASTIdentifier_T* id, size_t size)
+{
+    *dest = '\0';
+    append_id(dest, id, size);
     return dest;
 }
 
@@ -174,48 +184,48 @@ const char* type_kind_to_str(ASTTypeKind_T kind)
     }
 }
 
-char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
+static void append_type(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
 {
     if(size - strlen(dest) < 32) // if not enough memory is left, return
     {
-        strcat(dest, "...");
-        return dest;
+        append_str(dest, size, "...");
+        return;
     }
 
     if(ty->is_constant)
-        strcat(dest, "const ");
+        append_str(dest, size, "const ");
 
     switch(ty->kind)
     {
         case TY_I8...TY_CHAR:
-            strcat(dest, type_kind_to_str(ty->kind));
+            append_str(dest, size, type_kind_to_str(ty->kind));
             break;
         case TY_PTR:
-            strcat(dest, "&");
-            ast_type_to_str(context, dest, ty->base, size);
+            append_str(dest, size, "&");
+            append_type(context, dest, ty->base, size);
             break;
         case TY_C_ARRAY:
-            ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, " 'c[");
+            append_type(context, dest, ty->base, size);
+            append_str(dest, size, " 'c[");
             
             {
                 char buf[128] = {'\0'};
                 sprintf(buf, "%lu", const_u64(context, ty->num_indices_node));
-                strcat(dest, buf);
+                append_str(dest, size, buf);
             }            
             
-            strcat(dest, "]");
+            append_str(dest, size, "]");
             break;
         case TY_ARRAY:
-            ast_type_to_str(context, dest, ty->base, size);            
-            sprintf(dest + strlen(dest), "[%lu]", ty->num_indices);
+            append_type(context, dest, ty->base, size);            
+            snprintf(dest + strlen(dest), size - strlen(dest), "[%lu]", ty->num_indices);
             break;
         case TY_VLA:
-            ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, "[]");
+            append_type(context, dest, ty->base, size);
+            append_str(dest, size, "[]");
             break;
         case TY_STRUCT:
-            strcat(dest, ty->is_union ? "union {" : "struct {");
+            append_str(dest, size, ty->is_union ? "union {" : "struct {");
             for(size_t i = 0; i < ty->members->size; i++)
             {
                 ASTNode_T* member = ty->members->items[i];
@@ -224,60 +234,65 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
                 case ND_STRUCT_MEMBER:
                     if(member->id->callee && strlen(member->id->callee) != 0)
                     {
-                        strcat(dest, member->id->callee);
-                        strcat(dest, ": ");
+                        append_str(dest, size, member->id->callee);
+                        append_str(dest, size, ": ");
                     }
 
-                    ast_type_to_str(context, dest, member->data_type, size);
+                    append_type(context, dest, member->data_type, size);
                     break;
 
                 case ND_EMBED_STRUCT:
-                    strcat(dest, "embed ");
-                    ast_type_to_str(context, dest, member->data_type, size);
+                    append_str(dest, size, "embed ");
+                    append_type(context, dest, member->data_type, size);
                     break;
                 default:
                     unreachable();
                 }
                 
                 if(ty->members->size - i > 1)
-                    strcat(dest, ", ");
+                    append_str(dest, size, ", ");
             }
-            strcat(dest, "}");
+            append_str(dest, size, "}");
             break;
         case TY_INTERFACE:
-            strcat(dest, "interface {}");
+            append_str(dest, size, "interface {}");
             break;
         case TY_DYN:
-            strcat(dest, "dyn ");
-            ast_type_to_str(context, dest, ty->base, size);
+            append_str(dest, size, "dyn ");
+            append_type(context, dest, ty->base, size);
             break;
         case TY_ENUM:
-            strcat(dest, "enum");
+            append_str(dest, size, "enum");
             break;
         case TY_FN:
-            strcat(dest, "fn<");
-            ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, ">(");
+            append_str(dest, size, "fn<");
+            append_type(context, dest, ty->base, size);
+            append_str(dest, size, ">(");
             for(size_t i = 0; i < ty->arg_types->size; i++)
             {
-                ast_type_to_str(context, dest, ty->arg_types->items[i], size);
+                append_type(context, dest, ty->arg_types->items[i], size);
                 if(ty->arg_types->size - i > 1)
-                    strcat(dest, ", ");
+                    append_str(dest, size, ", ");
             }
             if(is_variadic(ty))
-                strcat(dest, ", ...");
-            strcat(dest, ")");
+                append_str(dest, size, ", ...");
+            append_str(dest, size, ")");
             break;
         case TY_UNDEF:
-            ast_id_to_str(dest, ty->id, size);
+            append_id(dest, ty->id, size);
             break;
         case TY_TYPEOF:
-            strcat(dest, "<typeof>");
+            append_str(dest, size, "<typeof>");
             break;
         default:
             break;
     }
+}
 
+char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
+{
+    *dest = '\0';
+    append_type(context, dest, ty, size);
     return dest;
 }
 
diff --git a/src/compiler/parser/queue.c b/src/compiler/parser/queue.c
index 736a074..2bd48ad 100644
--- a/src/compiler/parser/queue.c
+++ b/src/compiler/parser/queue.c
@@ -94,7 +94,8 @@ static void report_recursive_dependency(Validator_T* v, ASTObj_T* obj)
         ASTObj_T* obj = v->obj_stack->items[v->obj_stack->size - 1 - i];
         snprintf(cursor, BUFSIZ, COLOR_RESET "  %s:%d:%d: " COLOR_BOLD_WHITE, EITHER(obj->tok->source->short_path, obj->tok->source->path), obj->tok->line + 1, obj->tok->pos);
 
-        ast_id_to_str(cursor, obj->id, BUFSIZ - strlen(cursor) - 1);
+        size_t prefix = strlen(cursor);
+        ast_id_to_str(cursor + prefix, obj->id, BUFSIZ - prefix - 4);
 
         if(obj->kind == OBJ_FUNCTION)
             strcat(cursor, "()");
-- 
2.43.0


From 2d8061d3a136c1977f470d70b1e0915011e9cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 48/84] fix: a directive without a following object printed a
 message without its argument

---
 src/compiler/parser/directives.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 0319aac..d8fb8dd 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -235,7 +235,7 @@ void parse_directives(Parser_T* p, List_T* objects, bool in_extern_block, bool i
     else
         parse_obj(p, objects);
     if(objects->size == old_obj_list_size)
-        throw_error(parser_context(p), ERR_UNDEFINED, parser_peek(p, 0), "directive `%s` requires an object [const, fn, type, namespace] after `]`");
+        throw_error(parser_context(p), ERR_UNDEFINED, parser_peek(p, 0), "directive `%s` requires an object [const, fn, type, namespace] after `]`", libs_following);
 
     obj = objects->items[objects->size - 1];
 
-- 
2.43.0


From f798b5d1982254c146bb396a76aa8d7354fa448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 49/84] fix: `cspc run` searched the program in $PATH instead
 of the current directory

---
 src/compiler/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 71932ce..0df671a 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -461,13 +461,17 @@ static void run(Context_T* context, char* filename)
             LOG_OK_F(COLOR_RESET "`%s`%s", context->args.argv[i], context->args.argc - i > 1 ? ", " : "]\n" COLOR_RESET);
     }
 
+    // without a directory, the executable would be searched for in $PATH
+    char path[strlen(filename) + 3];
+    sprintf(path, "%s%s", strchr(filename, '/') ? "" : "./", filename);
+
     const char* argv[context->args.argc + 2];
     argv[0] = filename;
     if(context->args.argc && context->args.argv != NULL)
         memcpy(argv + 1, context->args.argv, context->args.argc * sizeof(const char*));
     argv[context->args.argc + 1] = NULL;
 
-    context->last_exit_code = subprocess(filename, (char* const*) argv, !context->flags.silent);
+    context->last_exit_code = subprocess(path, (char* const*) argv, !context->flags.silent);
     timer_stop(context);
 }
 
-- 
2.43.0


From 60a139041618d7708131356daf9b0ccec995b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 50/84] fix: the default output file was wrong for files
 without extension in directories with a dot

---
 src/compiler/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 0df671a..dd58c80 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -495,7 +495,7 @@ static char* default_output_file(Context_T* context, Action_T action, const char
         fileext = SHARED_LIB_FILEEXT;
 
     uintptr_t extptr = (uintptr_t) strrchr(input_file, '.');
-    if(!extptr)
+    if(!extptr || strchr((const char*) extptr, '/')) // dots in directory names start no file extension
         extptr = (uintptr_t) input_file + strlen(input_file);
     uintptr_t base_length = extptr - (uintptr_t) input_file;
 
-- 
2.43.0


From 385438ce9cf59807ebaad011c8ca6e2a5b2494cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 51/84] fix: a standard library path that does not exist
 crashed the compiler

---
 src/compiler/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index dd58c80..40e7241 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -332,7 +332,11 @@ i32 main(i32 argc, char* argv[])
                 LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " expect STD path after %s.\n", arg);
                 exit(1);
             }
-            context.paths.std_path = get_absolute_path(argv[i]);
+            if(!(context.paths.std_path = get_absolute_path(argv[i])))
+            {
+                LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " error opening STD path \"%s\": No such file or directory\n", argv[i]);
+                exit(1);
+            }
         }
         else if(streq(arg, "--clear-cache"))
             context.flags.clear_cache_after = true;
-- 
2.43.0


From bd9b5794cc2137dde9234f653e597bc50788d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 52/84] fix: --clear-cache had no effect after a compilation

---
 src/compiler/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 40e7241..67181a2 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -386,6 +386,9 @@ i32 main(i32 argc, char* argv[])
             break;
     }
 
+    if(context.flags.clear_cache_after)
+        clear_cache(&context);
+
     if(context.flags.timer_enabled)
         timer_print_summary(&context);
 
-- 
2.43.0


From af4bd64abb49d004da26081bc678dfcb65be3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 53/84] fix: empty --cc-flags cut off the arguments of the C
 compiler

---
 src/compiler/main.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 67181a2..6105d1d 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -350,10 +350,8 @@ i32 main(i32 argc, char* argv[])
             }
 
             char* state;
-            char* flag = strtok_r(flags, " \t", &state);
-            do
+            for(char* flag = strtok_r(flags, " \t", &state); flag; flag = strtok_r(NULL, " \t", &state))
                 list_push(context.compiler_flags, flag);
-            while((flag = strtok_r(NULL, " \t", &state)) != NULL);
         }
         else if(streq(arg, "--"))
         {
-- 
2.43.0


From 52a0c81a6dd294779aea823aef7d122dc6d8e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 54/84] fix: --set-mmcd accepted negative numbers

---
 src/compiler/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 6105d1d..75b6851 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -317,7 +317,7 @@ i32 main(i32 argc, char* argv[])
             context.flags.optimize = false;
         else if(streq(arg, "--set-mmcd"))
         {
-            if(!argv[++i] || !(context.max_macro_call_depth = atoi(argv[i])))
+            if(!argv[++i] || (i32)(context.max_macro_call_depth = atoi(argv[i])) <= 0)
             {
                 LOG_ERROR(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " `--set-mmcd` expects an integer greater than 0\n");
                 exit(1);
-- 
2.43.0


From 4615ec1978cd4c73d37a481bfa946363f041b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 55/84] fix: const was only enforced for plain names and leaked
 into the type of other variables

---
 src/compiler/parser/typechecker.c | 34 ++++++++++++++++++++++++++++---
 src/compiler/parser/validator.c   |  2 --
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index adc1cb8..75c555d 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -180,13 +180,41 @@ static void typecheck_for_range(ASTNode_T* loop, va_list args)
     loop->right = implicit_cast(t, loop->right->tok, loop->right, (ASTType_T*) primitives[TY_I64], CAST_OK);
 }
 
+static bool is_constant_type(ASTType_T* type)
+{
+    while(type && !type->is_constant && type->kind == TY_UNDEF)
+        type = type->base;
+    return type && type->is_constant;
+}
+
+// the variable, or the part of it, that is written to by an assignment may not be constant
+static bool is_constant_lvalue(ASTNode_T* expr)
+{
+    if(is_constant_type(expr->data_type))
+        return true;
+
+    switch(expr->kind)
+    {
+        case ND_ID:
+            return expr->referenced_obj->is_constant;
+        case ND_CLOSURE:
+            return is_constant_lvalue(list_last(expr->exprs));
+        case ND_MEMBER:
+            return is_constant_lvalue(expr->left);
+        case ND_INDEX:
+            return is_const_len_array(expr->left->data_type) && is_constant_lvalue(expr->left);
+        default:
+            return false;
+    }
+}
+
 static void typecheck_assignment(ASTNode_T* assignment, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf1[BUFSIZ] = {'\0'};
     char buf2[BUFSIZ] = {'\0'};
 
-    if(unpack(assignment->left->data_type)->is_constant && !assignment->is_initializing)
+    if(is_constant_lvalue(assignment->left) && !assignment->is_initializing)
         throw_error(t->context, 
             ERR_TYPE_ERROR_UNCR, 
             assignment->tok, 
@@ -417,7 +445,7 @@ static void typecheck_inc(ASTNode_T* inc, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(inc->data_type->is_constant)
+    if(is_constant_lvalue(inc->left))
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, inc->tok, "cannot increment constant type `%s`", ast_type_to_str(t->context, buf, inc->data_type, LEN(buf)));
 }
 
@@ -425,7 +453,7 @@ static void typecheck_dec(ASTNode_T* dec, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(dec->data_type->is_constant)
+    if(is_constant_lvalue(dec->left))
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, dec->tok, "cannot decrement constant type `%s`", ast_type_to_str(t->context, buf, dec->data_type, LEN(buf)));
 }
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 16c9003..40cb1e8 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1640,8 +1640,6 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
                 case OBJ_FN_ARG:
                     //if(assigned_obj->is_constant)
                     //    throw_error(v->context, ERR_CONST_ASSIGN, assigned_obj->tok, "cannot assign a value to constant %s `%s`", obj_kind_to_str(assigned_obj->kind), assigned_obj->id->callee);
-                    if(assigned_obj->is_constant)
-                        assigned_obj->data_type->is_constant = true;
                     break;
 
                 case OBJ_FUNCTION:
-- 
2.43.0


From b70910da381e05bc1924a25f343481236402469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 56/84] fix: loop bodies that may not run, and lambdas, counted
 as returning a value

---
 src/compiler/parser/validator.c | 44 ++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 40cb1e8..a39f7d4 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -775,6 +775,40 @@ static void validate_main_fn(Validator_T* v, ASTObj_T* fn)
     }
 }
 
+// whether `stmt`, in the body of a loop, may `break` out of this loop (or `continue` to its condition)
+static bool leaves_loop(ASTNode_T* stmt, bool or_continue)
+{
+    if(!stmt)
+        return false;
+
+    switch(stmt->kind)
+    {
+        case ND_BREAK:
+            return true;
+        case ND_CONTINUE:
+            return or_continue;
+        case ND_BLOCK:
+            for(size_t i = 0; i < stmt->stmts->size; i++)
+                if(leaves_loop(stmt->stmts->items[i], or_continue))
+                    return true;
+            return false;
+        case ND_IF:
+        case ND_WITH:
+            return leaves_loop(stmt->if_branch, or_continue) || leaves_loop(stmt->else_branch, or_continue);
+        case ND_MATCH:
+        case ND_MATCH_TYPE:
+            for(size_t i = 0; i < stmt->cases->size; i++)
+                if(leaves_loop(((ASTNode_T*) stmt->cases->items[i])->body, or_continue))
+                    return true;
+            return stmt->default_case && leaves_loop(stmt->default_case->body, or_continue);
+        case ND_USING:
+        case ND_DEFER:
+            return leaves_loop(stmt->body, or_continue);
+        default:
+            return false;
+    }
+}
+
 static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
 {
     switch(node->kind)
@@ -797,10 +831,11 @@ static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
         case ND_IF:
             return stmt_returns_value(v, node->if_branch) && node->else_branch ? stmt_returns_value(v, node->else_branch) : false;
         case ND_LOOP:
+            return !leaves_loop(node->body, false);
         case ND_FOR:
-        case ND_WHILE:
+            return !node->condition && !leaves_loop(node->body, false);
         case ND_DO_WHILE:
-            return stmt_returns_value(v, node->body);
+            return stmt_returns_value(v, node->body) && !leaves_loop(node->body, true);
         case ND_MATCH:
             if(!node->default_case)
                 return false;
@@ -813,8 +848,6 @@ static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
                 
                 return cases_return == node->cases->size && stmt_returns_value(v, node->default_case->body);
             }
-        case ND_FOR_RANGE:
-            return stmt_returns_value(v, node->body);
         case ND_EXPR_STMT:
             return stmt_returns_value(v, node->expr);
         default: 
@@ -1839,6 +1872,9 @@ static void iter_leave_lambda(ASTNode_T* lambda, va_list args)
 {
     GET_VALIDATOR(args);
 
+    if(unpack(lambda->data_type->base)->kind != TY_VOID && !stmt_returns_value(v, lambda->body))
+        throw_error(v->context, ERR_NORETURN, lambda->tok, "lambda does not return a value");
+
     if(v->context->ct != CT_ASM)
         return;
     ASTObj_T* lambda_stack_ptr = init_ast_obj(&v->context->raw_allocator, OBJ_GLOBAL, lambda->tok);
-- 
2.43.0


From 1d1acd13c4805761576bb458f5033d4a8f14d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 57/84] fix: struct members hid types of the same name, and
 embedding a struct crashed the compiler

---
 src/compiler/parser/validator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index a39f7d4..4c3c6e4 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -421,9 +421,15 @@ static void enter_type_scope(ASTType_T* type, va_list args)
         begin_scope(v, type->members);
         break;
     case TY_STRUCT:
+        // members have to be unique, but are not visible to the types of other members
         begin_scope(v, NULL);
         for(size_t i = 0; i < type->members->size; i++)
-            scope_register_node(v, type->members->items[i]);
+        {
+            ASTNode_T* member = type->members->items[i];
+            if(member->kind == ND_STRUCT_MEMBER)
+                scope_register_node(v, member);
+        }
+        end_scope(v);
         break;
     default:
         break;
@@ -436,7 +442,6 @@ static void leave_type_scope(ASTType_T* type, va_list args)
     switch(type->kind)
     {
     case TY_ENUM:
-    case TY_STRUCT:
         end_scope(v);
         break;
     default:
-- 
2.43.0


From a3e5b49c0e77b165f0693a368b6dadbdcbc3bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 58/84] fix: members of an embedded struct had the same offset
 in both structs

---
 src/compiler/parser/validator.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 4c3c6e4..e0e0daf 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2262,7 +2262,12 @@ static void resolve_struct_embeds(Validator_T* v, ASTType_T* struct_type)
 
                 resolve_struct_embeds(v, embedded_type);
                 for(size_t i = 0; i < embedded_type->members->size; i++)
-                    list_push(resolved_fields, embedded_type->members->items[i]);
+                {
+                    // the member has another offset in this struct than in the embedded one
+                    ASTNode_T* field = init_ast_node(&v->context->raw_allocator, ND_STRUCT_MEMBER, member->tok);
+                    *field = *(ASTNode_T*) embedded_type->members->items[i];
+                    list_push(resolved_fields, field);
+                }
             } break;
             default:
                 unreachable();
-- 
2.43.0


From 22145e04833664cf7bc9497ea9794703609c8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 59/84] fix: using a variable before its type is known crashed
 the compiler

---
 src/compiler/parser/validator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index e0e0daf..198c712 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1336,6 +1336,8 @@ static void iter_validate_identifier(ASTNode_T* id, va_list args)
     }
 
     id->data_type = id->referenced_obj->data_type;
+    if(!id->data_type && !id->is_assigning)
+        throw_error(v->context, ERR_TYPE_ERROR, id->id->tok, "%s `%s` is used before its data type is known", obj_kind_to_str(id->referenced_obj->kind), id->id->callee);
 }
 
 static void iter_validate_closure(ASTNode_T* closure, va_list args)
@@ -1646,6 +1648,8 @@ static void iter_enter_assignment(ASTNode_T* assign, va_list args)
 {
     if(assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT)
         assign->right->is_assigning = true;
+    if(assign->is_initializing)
+        assign->left->is_assigning = true;
 }
 
 static void iter_leave_assignment(ASTNode_T* assign, va_list args)
-- 
2.43.0


From e84c37125b88d095f118d87ba87b7be574d6d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 60/84] fix: the initial value of a global variable could be of
 any type

---
 src/compiler/parser/typechecker.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 75c555d..e57a538 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -26,6 +26,7 @@ static void unset_fn(ASTObj_T* fn, va_list args);
 
 static ASTNode_T* typecheck_arg_pass(TypeChecker_T* t, ASTType_T* expected, ASTNode_T* received);
 static void typecheck_call(ASTNode_T* call, va_list args);
+static void typecheck_global(ASTObj_T* global, va_list args);
 static void typecheck_explicit_cast(ASTNode_T* cast, va_list args);
 static void typecheck_assignment(ASTNode_T* assignment, va_list args);
 static void typecheck_array_lit(ASTNode_T* a_lit, va_list args);
@@ -49,7 +50,8 @@ static const ASTIteratorList_T iterator = {
         [OBJ_FUNCTION] = set_fn
     },
     .obj_end_fns = {
-        [OBJ_FUNCTION] = unset_fn
+        [OBJ_FUNCTION] = unset_fn,
+        [OBJ_GLOBAL] = typecheck_global
     },
     .node_start_fns = {
         [ND_LAMBDA] = typecheck_lambda_entry,
@@ -180,6 +182,23 @@ static void typecheck_for_range(ASTNode_T* loop, va_list args)
     loop->right = implicit_cast(t, loop->right->tok, loop->right, (ASTType_T*) primitives[TY_I64], CAST_OK);
 }
 
+static void typecheck_global(ASTObj_T* global, va_list args)
+{
+    GET_TYPECHECKER(args);
+    if(!global->value || !global->value->data_type || types_equal(t->context, global->data_type, global->value->data_type))
+        return;
+
+    if(implicitly_castable(t, global->value->tok, global->value->data_type, global->data_type) & CAST_ERR)
+    {
+        char buf1[BUFSIZ] = {'\0'};
+        char buf2[BUFSIZ] = {'\0'};
+        throw_error(t->context, ERR_TYPE_ERROR_UNCR, global->value->tok, "cannot initialize global variable of type `%s` with value of type `%s`",
+            ast_type_to_str(t->context, buf1, global->data_type, LEN(buf1)),
+            ast_type_to_str(t->context, buf2, global->value->data_type, LEN(buf2))
+        );
+    }
+}
+
 static bool is_constant_type(ASTType_T* type)
 {
     while(type && !type->is_constant && type->kind == TY_UNDEF)
-- 
2.43.0


From 5344b528291afe60d9ec6716758c3987c7a09aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 61/84] fix: a pointer to a constant could be assigned to
 variables of unrelated types

---
 src/compiler/parser/typechecker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index e57a538..95726a5 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -738,8 +738,10 @@ ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType
     if(!from || !to)
         return CAST_ERR;
 
+    bool compatible = from->kind == to->kind ? to->kind != TY_FN :
+        (from->kind == TY_C_ARRAY && to->kind == TY_PTR) || (from->kind == TY_ARRAY && to->kind == TY_VLA);
     if(from->base && to->base && from->base->is_constant && !to->base->is_constant)
-        return CAST_DELETING_CONST;
+        return compatible ? CAST_DELETING_CONST : CAST_ERR;
     
     // Buffer for warnings and errors
     char buf1[BUFSIZ] = {'\0'};
-- 
2.43.0


From 22f2c98f03fef6acb3f68f47f8d6bee3910ea145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 62/84] fix: a pipe into `$` inside of another pipe lost the
 outer one

---
 src/compiler/parser/validator.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 198c712..2e1c78b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1848,14 +1848,13 @@ static void iter_leave_pipe(ASTNode_T* pipe, va_list args)
 {
     GET_VALIDATOR(args);
     pipe->data_type = pipe->right->data_type;
+    v->current_pipe = pipe->expr;
 
     if(pipe->right->kind == ND_HOLE)
     {
         throw_error(v->context, ERR_SYNTAX_WARNING, pipe->tok, "unnecessary `|>` expression");
         *pipe = *pipe->left;
     }
-
-    v->current_pipe = pipe->expr;
 }
 
 static void iter_validate_hole(ASTNode_T* hole, va_list args)
-- 
2.43.0


From 44aade4ded1c81ba46f2aa1a28a4d3a0693edcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 63/84] fix: lambdas and aliases of variable length arrays as
 global values crashed the compiler

---
 src/compiler/parser/validator.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 2e1c78b..694b5a4 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -547,7 +547,7 @@ static void leave_using_scope(ASTNode_T* using, va_list args)
 static void register_local_var(ASTObj_T* local, va_list args)
 {
     GET_VALIDATOR(args);
-    if(v->current_obj->kind == OBJ_FUNCTION && v->current_obj->va_area == local)
+    if(v->current_obj && v->current_obj->kind == OBJ_FUNCTION && v->current_obj->va_area == local)
         return;
     scope_register_obj(v, local);
 }
@@ -1023,7 +1023,7 @@ static void iter_enter_fn_arg(ASTObj_T* arg, va_list args)
 {
     GET_VALIDATOR(args);
 
-    if(v->current_obj->constexpr)
+    if(v->current_obj && v->current_obj->constexpr)
         arg->constexpr = true;
 
     validator_push_obj(v, arg);
@@ -1097,8 +1097,12 @@ static void iter_leave_global(ASTObj_T* global, va_list args)
     case TY_VLA:
         if(global->value && unpack(global->value->data_type)->kind == TY_ARRAY)
         {
-            global->data_type->kind = TY_ARRAY;
-            global->data_type->num_indices = unpack(global->value->data_type)->num_indices;
+            ASTType_T* array_type = init_ast_type(&v->context->raw_allocator, TY_ARRAY, global->data_type->tok);
+            array_type->base = type->base;
+            array_type->is_constant = type->is_constant;
+            array_type->num_indices = unpack(global->value->data_type)->num_indices;
+            validate_data_type(v, array_type);
+            global->data_type = array_type;
         }
         break;
     
@@ -1130,10 +1134,13 @@ static void iter_enter_block(ASTNode_T* block, va_list args)
 {
     GET_VALIDATOR(args);
 
+    if(block->locals->size > 0 && !v->current_obj)
+        throw_error(v->context, ERR_SYNTAX_ERROR, block->tok, "local variables are not allowed outside of functions");
+
     for(size_t i = 0; i < block->locals->size; i++)
     {
         ASTObj_T* var = block->locals->items[i];
-        var->constexpr = v->current_obj->constexpr;
+        var->constexpr = v->current_obj && v->current_obj->constexpr;
     }
 }
 
@@ -1144,7 +1151,7 @@ static void iter_leave_block(ASTNode_T* block, va_list args)
     for(size_t i = 0; i < block->locals->size; i++)
     {
         ASTObj_T* var = block->locals->items[i];
-        if(!var->referenced && !v->current_obj->ignore_unused)
+        if(!var->referenced && !(v->current_obj && v->current_obj->ignore_unused))
             throw_error(v->context, ERR_UNUSED, var->tok, "unused local variable `%s`", var->id->callee);
     }
 }
-- 
2.43.0


From b3d52c5f81efc0f4fc4ff5b264c9ba1608182794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 64/84] fix: constant arrays and aliases of variable length
 arrays could not be initialised with arrays

---
 src/compiler/parser/typechecker.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 95726a5..ad37e9a 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -188,6 +188,10 @@ static void typecheck_global(ASTObj_T* global, va_list args)
     if(!global->value || !global->value->data_type || types_equal(t->context, global->data_type, global->value->data_type))
         return;
 
+    // the elements are what counts, an array as a whole may be constant
+    if(is_const_len_array(global->data_type) && unpack(global->data_type)->kind == unpack(global->value->data_type)->kind)
+        return;
+
     if(implicitly_castable(t, global->value->tok, global->value->data_type, global->data_type) & CAST_ERR)
     {
         char buf1[BUFSIZ] = {'\0'};
@@ -800,7 +804,7 @@ ASTNode_T* implicit_cast(TypeChecker_T* t, Token_T* tok, ASTNode_T* expr, ASTTyp
         return cast;
     }
 
-    if(unpack(expr->data_type)->kind == TY_ARRAY && to->kind == TY_VLA)
+    if(unpack(expr->data_type)->kind == TY_ARRAY && unpack(to)->kind == TY_VLA)
     {
         ASTNode_T* ref = init_ast_node(&t->context->raw_allocator, ND_REF, tok);
         ref->data_type = to;
-- 
2.43.0


From 67f0f24b8c1034b629ab70acf3a82d088e778bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 65/84] fix: function pointers and variable length arrays were
 loaded wrongly from variables, members and elements

---
 src/compiler/codegen/asm/asm_codegen.c | 44 +++++++++-----------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index ede6f1c..1c99359 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1001,12 +1001,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
             if(!node->data_type)
                 node->data_type = node->referenced_obj->data_type;
 
-            if(unpack(node->data_type)->kind == TY_VLA)
-            {
-                asm_println(cg, "  mov %d(%%rbp), %%rax", node->referenced_obj->offset);
-                return;
-            }
-
             switch(node->referenced_obj->kind)
             {
                 case OBJ_FN_ARG:
@@ -1016,7 +1010,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 case OBJ_GLOBAL:
                 case OBJ_ENUM_MEMBER:
-                    asm_println(cg, "  %s %s(%%rip), %%rax", node->call ? "movq" : "lea", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
+                    asm_println(cg, "  lea %s(%%rip), %%rax", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
                     return;
                 
                 case OBJ_FUNCTION:
@@ -1066,8 +1060,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node->left);
             asm_println(cg, "  add $%ld, %%rax", node->body->offset);
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
         } return;
         case ND_INDEX:
             asm_gen_index(cg, node, true);
@@ -1371,8 +1363,6 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         case TY_STRUCT:
         case TY_DYN:
         case TY_ARRAY:
-        case TY_VLA:
-        case TY_FN:
             return;
         case TY_F32:
             asm_println(cg, "  movss (%%rax), %%xmm0");
@@ -1450,7 +1440,7 @@ static void unpack_struct(ASMCodegenData_T* cg, List_T* unpacked_args, ASTNode_T
 
 static List_T* unpack_call_args(ASMCodegenData_T* cg, ASTNode_T* node)
 {
-    if((node->called_obj && node->called_obj->data_type && !unpack(node->called_obj->data_type)->is_variadic))
+    if(!unpack(node->expr->data_type)->is_variadic)
         return node->args;
     
     bool needs_unpacking = false;
@@ -1847,7 +1837,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     
                     case TY_ARRAY:
                     case TY_VLA:
-                        asm_gen_addr(cg, node->expr);
+                        asm_gen_expr(cg, node->expr);
                         asm_println(cg, "  mov (%%rax), %%rax");
                         break;
                     
@@ -1998,13 +1988,10 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_ID:
             asm_gen_addr(cg, node);
-            asm_load(cg, node->data_type);
 
-            if(unpack(node->data_type)->kind == TY_FN && 
-                node->referenced_obj && 
-                (node->referenced_obj->kind == OBJ_LOCAL || node->referenced_obj->kind == OBJ_FN_ARG)
-            )
-                    asm_println(cg, "  mov (%%rax), %%rax");
+            // the address of a function is its value
+            if(node->referenced_obj->kind != OBJ_FUNCTION)
+                asm_load(cg, node->data_type);
             return;
 
         case ND_MEMBER: {
@@ -2017,10 +2004,6 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node);
             asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
-
         } return;
         
         case ND_ARRAY:
@@ -2073,12 +2056,17 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
 
         case ND_REF:
-            asm_gen_addr(cg, node->right);
+            // a variable length array refers to its elements, so does a pointer to one
+            if(unpack(node->right->data_type)->kind == TY_VLA)
+                asm_gen_expr(cg, node->right);
+            else
+                asm_gen_addr(cg, node->right);
             return;
         
         case ND_DEREF:
             asm_gen_expr(cg, node->right);
-            asm_load(cg, node->data_type);
+            if(unpack(node->data_type)->kind != TY_VLA)
+                asm_load(cg, node->data_type);
             return;
         
         case ND_ASSIGN:
@@ -2267,10 +2255,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             List_T* packed_args = node->args;
             node->args = unpack_call_args(cg, node);
             i32 stack_args = asm_push_args(cg, node);
-            asm_gen_addr(cg, node->expr);
-
-            if(!node->called_obj || node->called_obj->kind == OBJ_LOCAL || node->called_obj->kind == OBJ_FN_ARG)
-                asm_println(cg, "  mov (%%rax), %%rax");
+            asm_gen_expr(cg, node->expr);
 
             i32 fp = asm_pop_args(cg, node);
 
@@ -2647,6 +2632,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 .referenced_obj = node->exit_fn,
                 .expr = &(ASTNode_T) {
                     .kind = ND_ID,
+                    .data_type = node->exit_fn->data_type,
                     .referenced_obj = node->exit_fn,
                     .id = node->exit_fn->id
                 },
-- 
2.43.0


From db24e391cad824b0f4835ae4d278a8fc6f804eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 66/84] fix: assignments to variables in parentheses were
 judged by unrelated memory

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 694b5a4..dace12a 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1678,7 +1678,7 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
             break;
         case ND_ID: 
         {
-            ASTObj_T* assigned_obj = assign->left->referenced_obj;
+            ASTObj_T* assigned_obj = expand_closure(assign->left)->referenced_obj;
             if(!assigned_obj)
                 return;
 
-- 
2.43.0


From 6fc5a62426e81468ea5ef61a1f941e789dfd21b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 67/84] fix: the address of (a, b) did not evaluate a

---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 1c99359..32fb0ac 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -994,6 +994,8 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
     switch(node->kind)
     {
         case ND_CLOSURE:
+            for(size_t i = 0; i + 1 < node->exprs->size; i++)
+                asm_gen_expr(cg, node->exprs->items[i]);
             asm_gen_addr(cg, node->exprs->items[node->exprs->size - 1]);
             return;
 
-- 
2.43.0


From 69661170316aedfa61612c0c03b13f8131dce15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 68/84] fix: constant members could be changed through an alias
 of a pointer type

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index dace12a..18a3ab7 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1456,7 +1456,7 @@ static void iter_validate_member(ASTNode_T* member, va_list args)
     {
         // convert x->y to (*x).y
         ASTNode_T* new_left = init_ast_node(&v->context->raw_allocator, ND_DEREF, member->left->tok);
-        new_left->data_type = member->left->data_type->base;
+        new_left->data_type = unpack(member->left->data_type)->base;
         new_left->right = member->left;
         member->left = new_left;
     }
-- 
2.43.0


From 90462f76c4d2d944cb6bac26fa2aa0192443ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 69/84] fix: character literals crashed as array lengths and
 enum values

The validator replaced the literal's text by its value (sharing storage)
after, or twice in, the evaluation of compile-time constants, which read
the text.
---
 src/compiler/optimizer/constexpr.c |  4 +--
 src/compiler/parser/parser.c       | 49 +++++++++++++++++++++++---
 src/compiler/parser/validator.c    | 55 ------------------------------
 3 files changed, 47 insertions(+), 61 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index ce29e2e..88a8a46 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -135,7 +135,7 @@ u64 const_u64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
@@ -235,7 +235,7 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 2b93811..5e0cff7 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2050,11 +2050,52 @@ static ASTNode_T* parse_char_lit(Parser_T* p)
 {
     ASTNode_T* char_lit = init_ast_node(&p->context->raw_allocator, ND_CHAR, p->tok);
 
+    // check for invalid escape sequences and evaluate them
+    char c = p->tok->value[0];
+
     if(strlen(p->tok->value) > 1)
-        char_lit->str_val = strdup((char[]){'\\', p->tok->value[1], '\0'});
-    else 
-        char_lit->str_val = strdup((char[]){p->tok->value[0], '\0'});
-    
+    {
+        switch(p->tok->value[1])
+        {
+            case 'a':
+                c = '\a';
+                break;
+            case 'b':
+                c = '\b';
+                break;
+            case 't':
+                c = '\t';
+                break;
+            case 'v':
+                c = '\v';
+                break;
+            case 'n':
+                c = '\n';
+                break;
+            case 'r':
+                c = '\r';
+                break;
+            case 'f':
+                c = '\f';
+                break;
+            case '\'':
+                c = '\'';
+                break;
+            case '"':
+                c = '"';
+                break;
+            case '\\':
+                c = '\\';
+                break;  
+            case '0':
+                c = '\0';
+                break;
+            default:
+                throw_error(p->context, ERR_SYNTAX_ERROR_UNCR, p->tok, "invalid escape sequence `\\%c` found in char literal", p->tok->value[1]);
+        }
+    }
+
+    char_lit->int_val = c;
     char_lit->is_constant = true; 
     char_lit->data_type = (ASTType_T*) primitives[TY_CHAR];
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 18a3ab7..b06be52 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1955,60 +1955,6 @@ static void iter_validate_string_lit(ASTNode_T* str, va_list args)
     }
 }
 
-static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
-{
-     GET_VALIDATOR(args);
-
-    // check for invalid escape sequences and evaluate them
-    char c = ch->str_val[0];
-
-    if(c == '\\')
-    {
-        switch(ch->str_val[1])
-        {
-            case 'a':
-                c = '\a';
-                break;
-            case 'b':
-                c = '\b';
-                break;
-            case 't':
-                c = '\t';
-                break;
-            case 'v':
-                c = '\v';
-                break;
-            case 'n':
-                c = '\n';
-                break;
-            case 'r':
-                c = '\r';
-                break;
-            case 'f':
-                c = '\f';
-                break;
-            case '\'':
-                c = '\'';
-                break;
-            case '"':
-                c = '"';
-                break;
-            case '\\':
-                c = '\\';
-                break;  
-            case '0':
-                c = '\0';
-                break;
-            default:
-                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", ch->str_val[1]);
-                return;
-        }
-    }
-    
-    free(ch->str_val);
-    ch->int_val = c;
-}
-
 static void iter_validate_sizeof(ASTNode_T* expr, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2194,7 +2140,6 @@ static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
             [ND_HOLE] = iter_validate_hole,
             [ND_LAMBDA] = iter_leave_lambda,
             [ND_STR] = iter_validate_string_lit,
-            [ND_CHAR] = iter_validate_char_lit,
             [ND_SIZEOF] = iter_validate_sizeof,
             [ND_TYPE_EXPR] = iter_validate_type_expr,
         },
-- 
2.43.0


From 0a1123b0187253c4b7a70021e3c40d94f77ec417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:39 +0000
Subject: [PATCH 70/84] fix: global variables got wrong initial values

Global initializers were evaluated before they were type checked, by an
interpreter which read values through the wrong fields, and then emitted
without regard to the type of the variable: negative and wide integers,
floating-point values, enum members, conversions, comparisons, string
pointers and aggregates started out with something else than written, or
crashed the compiler. Evaluate them after type checking, in the types of
their operands, and emit their image in the type of the variable.
---
 src/compiler/codegen/asm/asm_codegen.c |   4 +-
 src/compiler/codegen/asm/relocation.c  | 222 +++++++++++------------
 src/compiler/codegen/asm/relocation.h  |   2 +-
 src/compiler/interpreter/interpreter.c | 234 ++++++++++++++++---------
 src/compiler/interpreter/interpreter.h |   5 +-
 src/compiler/interpreter/value.c       |  32 ++--
 src/compiler/optimizer/constexpr.c     |  37 +++-
 src/compiler/parser/validator.c        |   8 +-
 8 files changed, 330 insertions(+), 214 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 32fb0ac..1036059 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -541,9 +541,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 
 static void asm_gen_relocation(ASMCodegenData_T* cg, ASTObj_T* var)
 {
-    ASTNode_T* value = var->value;
-    size_t target_size = var->data_type->size;
-    gen_relocation(cg, value, target_size);
+    gen_relocation(cg, var->value, var->data_type);
 }
 
 static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index e7fbafd..8981b94 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -72,111 +72,145 @@ u8 escape_sequence(char c, const char* str, size_t* i)
     }
 }
 
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
+// the image of a number, converted to the type of the object it is stored in
+static size_t asm_gen_const_number(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type)
 {
-    if(!node)
-        return 0;
-    
-    size_t size_generated = 0;
-    //memset(buffer, 0, target_size);
-    
-    switch(node->kind) 
-    {
-        case ND_NIL:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "0");
-            break;
-
-        case ND_STR:
-            assert(target_size == PTR_S);
-            size_generated = PTR_S;
-            asm_println(cg, "  .%dbyte .L.string.%lu", PTR_S, cg->string_literals->size);
-            list_push(cg->string_literals, node->str_val);
-            break;
+    bool is_float = false, is_unsigned = false;
+    f80 float_val = 0;
+    i64 int_val = 0;
 
+    switch(node->kind)
+    {
+        case ND_INT:
         case ND_CHAR:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
+            int_val = node->int_val;
             break;
-
         case ND_BOOL:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->bool_val);
+            int_val = node->bool_val;
             break;
-
-        case ND_INT:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
-            break;
-
         case ND_LONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
+            int_val = node->long_val;
             break;
-
         case ND_ULONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
+            int_val = node->ulong_val;
+            is_unsigned = true;
             break;
-
         case ND_FLOAT:
-        {
-            union {
-                f32 in;
-                uint32_t out;
-            } conv = {.in = node->float_val};
+            is_float = true;
+            float_val = node->float_val;
+            break;
+        case ND_DOUBLE:
+            is_float = true;
+            float_val = node->double_val;
+            break;
+        case ND_NIL:
+            break;
+        default:
+            unreachable();
+    }
 
-            size_generated = asm_gen_const_data(cg, target_size);
+    f80 as_float = is_float ? float_val : is_unsigned ? (f80) (u64) int_val : (f80) int_val;
+    size_t size_generated;
+    switch(type->kind)
+    {
+        case TY_F32:
+        {
+            union {f32 in; u32 out;} conv = {.in = as_float};
+            size_generated = asm_gen_const_data(cg, F32_S);
             asm_println(cg, "%u", conv.out);
         } break;
 
-        case ND_DOUBLE: 
+        case TY_F64:
         {
-            union {
-                f64 in;
-                uint64_t out;
-            } conv = {.in = node->double_val};
+            union {f64 in; u64 out;} conv = {.in = as_float};
+            size_generated = asm_gen_const_data(cg, F64_S);
+            asm_println(cg, "%lu", conv.out);
+        } break;
 
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", conv.out);
+        case TY_F80:
+        {
+            union {f80 in; struct {u64 low; u16 high;} out;} conv = {.in = as_float};
+            size_generated = asm_gen_const_data(cg, U64_S);
+            asm_println(cg, "%lu", conv.out.low);
+            size_generated += asm_gen_const_data(cg, U16_S);
+            asm_println(cg, "%u", conv.out.high);
         } break;
 
-        case ND_ARRAY:
+        case TY_BOOL:
+            size_generated = asm_gen_const_data(cg, BOOL_S);
+            asm_println(cg, "%d", is_float ? float_val != 0 : int_val != 0);
+            break;
+
+        default:
         {
-            size_generated = asm_gen_const_data(cg, PTR_S);
-            asm_println(cg, "%zu", node->data_type->num_indices);
-            size_t index_size = node->data_type->base->size;
-            for(size_t i = 0; i < node->args->size; i++)
-                size_generated += gen_relocation(cg, node->args->items[i], index_size);
+            u64 bits = !is_float ? (u64) int_val : float_val < 0 ? (u64) (i64) float_val : (u64) float_val;
+            if(type->size < U64_S)
+                bits &= ((u64) 1 << (type->size * 8)) - 1;
+            size_generated = asm_gen_const_data(cg, type->size);
+            asm_println(cg, "%lu", bits);
         } break;
+    }
+    return size_generated;
+}
+
+// the image of `node` in an object of `type`
+void gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type)
+{
+    if(!node)
+        return;
+
+    size_t target_size = type->size;
+    size_t size_generated = 0;
+    type = unpack(type);
+
+    switch(node->kind)
+    {
+        case ND_NIL:
+        case ND_CHAR:
+        case ND_BOOL:
+        case ND_INT:
+        case ND_LONG:
+        case ND_ULONG:
+        case ND_FLOAT:
+        case ND_DOUBLE:
+            size_generated = asm_gen_const_number(cg, node, type);
+            break;
+
+        case ND_STR:
+            assert(target_size == PTR_S);
+            size_generated = PTR_S;
+            asm_println(cg, "  .%dbyte .L.string.%lu", PTR_S, cg->string_literals->size);
+            list_push(cg->string_literals, node->str_val);
+            break;
+
+        case ND_ARRAY:
+            if(type->kind == TY_ARRAY)
+            {
+                size_generated = asm_gen_const_data(cg, PTR_S);
+                asm_println(cg, "%zu", type->num_indices);
+            }
+            for(size_t i = 0; i < node->args->size; i++)
+            {
+                gen_relocation(cg, node->args->items[i], type->base);
+                size_generated += type->base->size;
+            }
+            break;
 
         case ND_STRUCT:
-        {
-            ASTType_T* struct_type = unpack(node->data_type);
             for(size_t i = 0; i < node->args->size; i++)
             {
-                ASTNode_T* arg = node->args->items[i];
-                size_t offset = ((ASTNode_T*) struct_type->members->items[i])->offset;
+                ASTNode_T* member = type->members->items[i];
 
-                if(size_generated < offset)
-                    asm_println(cg, "  .zero %zu", offset - size_generated); // pad correctly
-                size_generated += gen_relocation(cg, arg, arg->data_type->size);
-            }  
-        } break;
-        
-        case ND_CLOSURE:
-            size_generated = gen_relocation(cg, node->expr, target_size);
-            break;
-        
-        case ND_NEG:
-            node->right->int_val = -node->right->int_val; // temporary
-            size_generated = gen_relocation(cg, node->right, target_size);
+                if(size_generated < (size_t) member->offset)
+                {
+                    asm_println(cg, "  .zero %zu", member->offset - size_generated); // pad correctly
+                    size_generated = member->offset;
+                }
+                gen_relocation(cg, node->args->items[i], member->data_type);
+                size_generated += member->data_type->size;
+            }
             break;
 
-        case ND_CAST:
-            size_generated = gen_relocation(cg, node->left, node->data_type->size);
-            break;
-        
         case ND_ID:
             if(target_size <= 8)
             {
@@ -188,44 +222,10 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
             break;
 
         default:
-            if(is_unsigned_integer_type(node->data_type))
-            {
-                size_generated = asm_gen_const_data(cg, target_size);
-                asm_println(cg, "%zu", const_u64(cg->context, node));
-                return size_generated;
-            }
-            else if(is_signed_integer_type(node->data_type))
-            {
-                i64 raw_data = const_i64(cg->context, node);
-                size_generated = asm_gen_const_data(cg, target_size);
-                switch(node->data_type->size) {
-                case I64_S:
-                    asm_println(cg, "%zu", raw_data);
-                    break;
-                case I32_S: {
-                    asm_println(cg, "%u", (i32) raw_data);
-                    break;
-                }
-                case I16_S: {
-                    asm_println(cg, "%u", (i16) raw_data);
-                    break;
-                }
-                case I8_S: {
-                    asm_println(cg, "%u", (i8) raw_data);
-                    break;
-                }
-                default:
-                    unreachable();
-                }
-                return size_generated;
-            }
-
             throw_error(cg->context, ERR_CODEGEN, node->tok, "cannot generate relocation for `%s` (%d)", node->tok->value, node->kind);
             break;
     }
 
     if(size_generated < target_size)
         asm_println(cg, "  .zero %zu", target_size - size_generated);
-
-    return size_generated;
 }
diff --git a/src/compiler/codegen/asm/relocation.h b/src/compiler/codegen/asm/relocation.h
index 3e14763..58b438e 100644
--- a/src/compiler/codegen/asm/relocation.h
+++ b/src/compiler/codegen/asm/relocation.h
@@ -6,6 +6,6 @@
 #include "asm_codegen.h"
 
 u8 escape_sequence(char c, const char* str, size_t* i);
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size);
+void gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type);
 
 #endif
diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 421fe7e..1dbc2d3 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -43,7 +43,7 @@
     INTEGER_PREFIX_OP_CASES(value, op);             \
     UINTEGER_PREFIX_OP_CASES(value, op);            \
     PREFIX_OP_CASE(TY_CHAR, character, value, op);  \
-    PREFIX_OP_CASE(TY_PTR, character, value, op)
+    PREFIX_OP_CASE(TY_BOOL, boolean, value, op)
 
 #define FP_PREFIX_OP_CASE(value, op)                \
     PREFIX_OP_CASE(TY_F32, flt.f32, value, op);     \
@@ -75,7 +75,7 @@
     INTEGER_INFIX_OP_CASES(left_value, right_value, op);            \
     UINTEGER_INFIX_OP_CASES(left_value, right_value, op);           \
     INFIX_OP_CASE(TY_CHAR, character, left_value, right_value, op); \
-    INFIX_OP_CASE(TY_PTR, character, left_value, right_value, op)
+    INFIX_OP_CASE(TY_BOOL, boolean, left_value, right_value, op)
 
 #define FP_INFIX_OP_CASES(left_value, right_value, op)              \
     INFIX_OP_CASE(TY_F32, flt.f32, left_value, right_value, op);    \
@@ -89,16 +89,20 @@
 #define COMPARISON_OP_CASE(node_kind, op) case node_kind: do {      \
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
-    switch(left_value.type->kind) {                                 \
+    switch(is_float_value(&right_value) ? right_value.type->kind : left_value.type->kind) { \
         case TY_F32: case TY_F64: case TY_F80:                      \
             return BOOL_VALUE(interpreter_value_f80(&left_value) op interpreter_value_f80(&right_value)); \
+        case TY_U64: case TY_PTR:                                   \
+            return BOOL_VALUE((u64) interpreter_value_i64(&left_value) op (u64) interpreter_value_i64(&right_value)); \
         default:                                                    \
             return BOOL_VALUE(interpreter_value_i64(&left_value) op interpreter_value_i64(&right_value)); \
     }} while(0)
 
-#define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {       \
+#define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {               \
         InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
         InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+        left_value = convert_operand(ictx, &left_value, expr);          \
+        right_value = convert_operand(ictx, &right_value, expr);        \
         switch(left_value.type->kind) {                                 \
             INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
             default: unreachable();                                     \
@@ -133,7 +137,7 @@ typedef i32 Enum;
     PRIMITIVE_CAST_FN_DECL(ty, f80, TY_F80, field, flt.f80)        \
     PRIMITIVE_CAST_FN_DECL(ty, bool, TY_BOOL, field, boolean)      \
     PRIMITIVE_CAST_FN_DECL(ty, char, TY_CHAR, field, character)    \
-    PRIMITIVE_CAST_FN_DECL(ty, Enum, TY_ENUM, field, integer.i32)
+    PRIMITIVE_CAST_FN_DECL(ty, Enum, TY_I32, field, integer.i32)
 
 #define PRIMITIVE_MAP_ENTRY(c_type) \
     c_type##i8, c_type##i16, c_type##i32, c_type##i64, c_type##u8, c_type##u16, c_type##u32, c_type##u64, c_type##f32, c_type##f64, c_type##f80, c_type##bool, [TY_CHAR]=c_type##char, [TY_ENUM]=c_type##Enum
@@ -178,6 +182,8 @@ static InterpreterValue_T (*const type_cast_map[TY_KIND_LEN][TY_KIND_LEN])(Inter
 };
 
 static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt);
+static InterpreterValue_T cast_value(InterpreterContext_T* ictx, InterpreterValue_T* value, const ASTType_T* type, Token_T* tok);
+static InterpreterValue_T convert_operand(InterpreterContext_T* ictx, InterpreterValue_T* value, ASTNode_T* expr);
 static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn, const InterpreterValueList_T* args);
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok);
@@ -194,7 +200,7 @@ void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, AS
     ictx->recursion_depth = 0;
     ictx->constexpr_only = false;
 
-    ictx->string_literals = hashmap_init();
+    ictx->string_literals = init_list();
     ictx->broken = false;
 
     // assure that address 0 is always occupied
@@ -206,13 +212,20 @@ void free_interpreter_context(InterpreterContext_T* ictx)
 {
     free_interpreter_stack(ictx->stack);
     free_interpreter_stack(ictx->global_storage);
-    hashmap_free(ictx->string_literals);
+    free_list(ictx->string_literals);
+}
+
+// the memory of the interpreter does not exist in the compiled program
+bool interpreter_owns_address(InterpreterContext_T* ictx, uintptr_t address)
+{
+    return (address >= (uintptr_t) ictx->stack && address < (uintptr_t) &ictx->stack->data[ictx->stack->allocated])
+        || (address >= (uintptr_t) ictx->global_storage && address < (uintptr_t) &ictx->global_storage->data[ictx->global_storage->allocated]);
 }
 
 static inline InterpreterValue_T push_str_lit(InterpreterContext_T* ictx, const char* str_lit)
 {
     size_t stack_addr = interpreter_stack_push(&ictx->global_storage, str_lit, strlen(str_lit) + 1);
-    return PTR_VALUE(&ictx->global_storage[stack_addr], char_ptr_type);
+    return PTR_VALUE(&ictx->global_storage->data[stack_addr], char_ptr_type);
 }
 
 static inline InterpreterValue_T push_argv(InterpreterContext_T* ictx)
@@ -390,18 +403,24 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
     }
 }
 
+static inline bool is_float_value(InterpreterValue_T* value)
+{
+    return value->type->kind == TY_F32 || value->type->kind == TY_F64 || value->type->kind == TY_F80;
+}
+
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
     
-    ASTType_T* left_type = unpack(expr->left->data_type);
+    ASTType_T* left_type = unpack((ASTType_T*) left_value.type);
     if(PTR_TYPE(left_type)) {
-        left_value.type = left_type;
         left_value.value.ptr += interpreter_value_i64(&right_value) * left_type->base->size;
         return left_value;
     }
 
+    left_value = convert_operand(ictx, &left_value, expr);
+    right_value = convert_operand(ictx, &right_value, expr);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, +);
@@ -416,8 +435,8 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
     
-    ASTType_T* left_type = unpack(expr->left->data_type);
-    ASTType_T* right_type = unpack(expr->right->data_type);
+    ASTType_T* left_type = unpack((ASTType_T*) left_value.type);
+    ASTType_T* right_type = unpack((ASTType_T*) right_value.type);
     if(PTR_TYPE(left_type) && PTR_TYPE(right_type))
     {
         left_value.type = primitives[TY_I64];
@@ -425,11 +444,12 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
     else if(PTR_TYPE(left_type)) {
-        left_value.type = left_type;
         left_value.value.ptr -= interpreter_value_i64(&right_value) * left_type->base->size;
         return left_value;
     }
 
+    left_value = convert_operand(ictx, &left_value, expr);
+    right_value = convert_operand(ictx, &right_value, expr);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, -);
@@ -484,6 +504,77 @@ static inline InterpreterValue_T cast_to_ptr(InterpreterContext_T* ictx, Interpr
 #undef CAST_IMPL
 }
 
+static InterpreterValue_T cast_value(InterpreterContext_T* ictx, InterpreterValue_T* value, const ASTType_T* type, Token_T* tok)
+{
+    const ASTType_T* to = unpack((ASTType_T*) type), *from = value->type;
+
+    if(to->kind == TY_PTR)
+        return cast_to_ptr(ictx, value, to, tok);
+
+    InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[from->kind][to->kind];
+    switch((uintptr_t) cast_fn) {
+        case 0: // no cast possible
+        {
+            char* buf1 = malloc(BUFSIZ);
+            char* buf2 = malloc(BUFSIZ);
+            *buf1 = *buf2 = '\0';
+
+            throw_error(ictx->context, ERR_INTERNAL, tok, "(interpreter) cannot cast from `%s` to `%s`", 
+                ast_type_to_str(ictx->context, buf1, (ASTType_T*) from, BUFSIZ),
+                ast_type_to_str(ictx->context, buf2, (ASTType_T*) to, BUFSIZ)
+            );
+            
+            free(buf1);
+            free(buf2);
+            return VOID_VALUE;
+        }
+        case NO_CAST_INT: // no cast needed
+            return *value;
+        default:
+            return cast_fn(ictx, value);
+    }
+}
+
+// operands have the type of the operator's result, which may not have been checked yet
+static InterpreterValue_T convert_operand(InterpreterContext_T* ictx, InterpreterValue_T* value, ASTNode_T* expr)
+{
+    return expr->data_type ? cast_value(ictx, value, expr->data_type, expr->tok) : *value;
+}
+
+static bool check_divisor(InterpreterContext_T* ictx, InterpreterValue_T* value, Token_T* tok)
+{
+    if(is_float_value(value) || interpreter_value_i64(value) != 0)
+        return true;
+    throw_error(ictx->context, ERR_CONSTEXPR, tok, "division by zero in compile-time constant");
+    return false;
+}
+
+// dividing by -1 overflows for the smallest value
+static bool is_minus_one(InterpreterValue_T* value)
+{
+    switch(value->type->kind)
+    {
+        case TY_I8:
+        case TY_I16:
+        case TY_I32:
+        case TY_I64:
+        case TY_CHAR:
+            return interpreter_value_i64(value) == -1;
+        default:
+            return false;
+    }
+}
+
+static InterpreterValue_T negate_value(InterpreterValue_T value)
+{
+    switch(value.type->kind)
+    {
+        NUMERIC_PREFIX_OP_CASES(value, -);
+        default: unreachable();
+    }
+    return value;
+}
+
 InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
 //    printf(">> expr %d\n", expr->kind);
@@ -502,15 +593,9 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_CHAR:
             return CHAR_VALUE(expr->int_val);
         case ND_STR:
-        {
-            uintptr_t offset = (uintptr_t) hashmap_get(ictx->string_literals, expr->str_val);
-            if(offset)
-                return PTR_VALUE(offset, char_ptr_type);
-
-            InterpreterValue_T addr = push_str_lit(ictx, expr->str_val);
-            hashmap_put(ictx->string_literals, expr->str_val, (void*) addr.value.ptr);
-            return addr;
-        }
+            if(!list_contains(ictx->string_literals, expr->str_val))
+                list_push(ictx->string_literals, expr->str_val);
+            return PTR_VALUE(expr->str_val, char_ptr_type);
         case ND_FLOAT:
             return F32_VALUE(expr->float_val);
         case ND_DOUBLE:
@@ -529,8 +614,13 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_ALIGNOF:
             return I64_VALUE(expr->the_type->align);
         case ND_PIPE:
-            ictx->pipe_value = interpreter_eval_expr(ictx, expr->left);
-            return interpreter_eval_expr(ictx, expr->right);
+        {
+            InterpreterValue_T left = interpreter_eval_expr(ictx, expr->left), outer_value = ictx->pipe_value;
+            ictx->pipe_value = left;
+            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            ictx->pipe_value = outer_value;
+            return value;
+        }
         case ND_HOLE:
             return ictx->pipe_value;    
         case ND_TERNARY:
@@ -549,15 +639,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_AND:
             return BOOL_VALUE(interpreter_value_is_truthy(interpreter_eval_expr(ictx, expr->left)) && interpreter_value_is_truthy(interpreter_eval_expr(ictx, expr->right)));
         case ND_NEG:
-        {
-            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
-            switch(value.type->kind)
-            {
-                NUMERIC_PREFIX_OP_CASES(value, -);
-                default: unreachable();
-            }
-            return value;
-        }
+            return negate_value(interpreter_eval_expr(ictx, expr->right));
         // TODO: ND_INDEX
         // TODO: ND_INC, ND_DEC
         // TODO: ND_LEN
@@ -569,6 +651,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            left_value = convert_operand(ictx, &left_value, expr);
+            right_value = convert_operand(ictx, &right_value, expr);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, *);
@@ -580,6 +664,12 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            left_value = convert_operand(ictx, &left_value, expr);
+            right_value = convert_operand(ictx, &right_value, expr);
+            if(!check_divisor(ictx, &right_value, expr->tok))
+                return left_value;
+            if(is_minus_one(&right_value))
+                return negate_value(left_value);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, /);
@@ -587,13 +677,29 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             }
             return left_value;
         }
-        INTEGER_INFIX_OP_CASE(ND_MOD, %);
+        case ND_MOD:
+        {
+            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
+            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            left_value = convert_operand(ictx, &left_value, expr);
+            right_value = convert_operand(ictx, &right_value, expr);
+            if(!check_divisor(ictx, &right_value, expr->tok))
+                return left_value;
+            if(is_minus_one(&right_value))
+                return cast_value(ictx, &I32_VALUE(0), left_value.type, expr->tok);
+            switch(left_value.type->kind)
+            {
+                INTLIKE_INFIX_OP_CASES(left_value, right_value, %);
+                default: unreachable();
+            }
+            return left_value;
+        }
         case ND_ID:
         {
             ASTObj_T* obj = expr->referenced_obj;
             assert(obj != NULL);
 
-            return load_value(lvalue_from_id(ictx, obj, expr->data_type, expr->tok));
+            return load_value(lvalue_from_id(ictx, obj, EITHER(expr->data_type, obj->data_type), expr->tok));
         }
         // TODO: ND_MEMBER
         case ND_ARRAY:
@@ -626,33 +732,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_CAST:
         {
             InterpreterValue_T value = interpreter_eval_expr(ictx, expr->left);
-            const ASTType_T* to = unpack(expr->data_type), *from = value.type;
-
-            if(to->kind == TY_PTR)
-                return cast_to_ptr(ictx, &value, to, expr->tok);
-
-            InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[from->kind][to->kind];
-            switch((uintptr_t) cast_fn) {
-                case 0: // no cast possible
-                {
-                    char* buf1 = malloc(BUFSIZ);
-                    char* buf2 = malloc(BUFSIZ);
-                    *buf1 = *buf2 = '\0';
-
-                    throw_error(ictx->context, ERR_INTERNAL, expr->tok, "(interpreter) cannot cast from `%s` to `%s`", 
-                        ast_type_to_str(ictx->context, buf1, from, BUFSIZ),
-                        ast_type_to_str(ictx->context, buf2, to, BUFSIZ)
-                    );
-                    
-                    free(buf1);
-                    free(buf2);
-                    return VOID_VALUE;
-                }
-                case NO_CAST_INT: // no cast needed
-                    return value;
-                default:
-                    return cast_fn(ictx, &value);
-            }
+            return cast_value(ictx, &value, expr->data_type, expr->tok);
         }
         case ND_NOT:
             return BOOL_VALUE(interpreter_value_is_falsy(interpreter_eval_expr(ictx, expr->right)));
@@ -671,18 +751,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         INTEGER_INFIX_OP_CASE(ND_LSHIFT, <<);
         INTEGER_INFIX_OP_CASE(ND_RSHIFT, >>);
         INTEGER_INFIX_OP_CASE(ND_XOR, ^);
-        case ND_EQ:
-        {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
-            return BOOL_VALUE(interpreter_values_equal(left_value, right_value));
-        }
-        case ND_NE:
-        {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
-            return BOOL_VALUE(!interpreter_values_equal(left_value, right_value));
-        }
+        COMPARISON_OP_CASE(ND_EQ, ==);
+        COMPARISON_OP_CASE(ND_NE, !=);
         COMPARISON_OP_CASE(ND_LT, <);
         COMPARISON_OP_CASE(ND_LE, <=);
         COMPARISON_OP_CASE(ND_GT, >);
@@ -772,14 +842,19 @@ static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node)
 
 static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
 {
-    global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
-    if(global->value) 
+    if(global->value)
     {
+        // may push other globals
         InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
-        interpreter_stack_push(&ictx->global_storage, &value.value, MIN(global->data_type->size, value.type->size));
+        value = cast_value(ictx, &value, global->data_type, global->tok);
+        global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
+        interpreter_stack_push(&ictx->global_storage, &value.value, global->data_type->size);
     }
     else
+    {
+        global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
         interpreter_stack_grow(&ictx->global_storage, global->data_type->size);
+    }
 }
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok)
@@ -825,6 +900,7 @@ static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTTyp
 
 static InterpreterValue_T load_value(LValue_T lvalue)
 { 
+    lvalue.type = unpack((ASTType_T*) lvalue.type);
     switch(lvalue.type->kind) {
         case TY_I8:
             return INT_VALUE(TY_I8, i8, *(i8*) lvalue.ptr);
@@ -852,10 +928,12 @@ static InterpreterValue_T load_value(LValue_T lvalue)
             return BOOL_VALUE(*(bool*) lvalue.ptr);
         case TY_CHAR:
             return CHAR_VALUE(*(char*) lvalue.ptr);
+        case TY_ENUM:
+            return I32_VALUE(*(i32*) lvalue.ptr);
         case TY_VOID:
             return VOID_VALUE;
         case TY_PTR:
-            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type->base);
+            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type);
         case TY_FN:
             return (InterpreterValue_T){.type = lvalue.type, .value = (InterpreterValueUnion_T){.fn_obj = lvalue.ptr} };
         default:
diff --git a/src/compiler/interpreter/interpreter.h b/src/compiler/interpreter/interpreter.h
index 7835004..8ab7575 100644
--- a/src/compiler/interpreter/interpreter.h
+++ b/src/compiler/interpreter/interpreter.h
@@ -3,7 +3,7 @@
 
 #include "ast/ast.h"
 #include "config.h"
-#include "hashmap.h"
+#include "list.h"
 #include "stack.h"
 
 #include "value.h"
@@ -19,7 +19,7 @@ typedef struct INTERPRETER_CONTEXT_STRUCT
     size_t recursion_depth;
     
     InterpreterValue_T pipe_value;
-    HashMap_T* string_literals;
+    List_T* string_literals;
 
     bool broken;    // reached `break`
     bool continued; // reached `continue`
@@ -33,5 +33,6 @@ void free_interpreter_context(InterpreterContext_T* ictx);
 i32 interpreter_pass(Context_T* context, ASTProg_T* ast);
 
 InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T* expr);
+bool interpreter_owns_address(InterpreterContext_T* ictx, uintptr_t address);
 
 #endif
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 3c84f0b..f6f141a 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -71,13 +71,11 @@ bool interpreter_value_is_falsy(InterpreterValue_T value)
         case TY_I16:
         case TY_I32:
         case TY_I64:
-            return value.value.integer.i64 == 0;
-
         case TY_U8:
         case TY_U16:
         case TY_U32:
         case TY_U64:
-            return value.value.uinteger.u64 == 0;
+            return interpreter_value_i64(&value) == 0;
 
         case TY_F32:
             return value.value.flt.f32 == 0;
@@ -111,17 +109,32 @@ i64 interpreter_value_i64(InterpreterValue_T* value)
     switch(value->type->kind)
     {
         case TY_I8:
+            return value->value.integer.i8;
+
         case TY_I16:
+            return value->value.integer.i16;
+
         case TY_I32:
+            return value->value.integer.i32;
+
         case TY_I64:
             return value->value.integer.i64;
 
         case TY_U8:
+            return value->value.uinteger.u8;
+
         case TY_U16:
+            return value->value.uinteger.u16;
+
         case TY_U32:
+            return value->value.uinteger.u32;
+
         case TY_U64:
             return (i64) value->value.uinteger.u64;
 
+        case TY_BOOL:
+            return value->value.boolean;
+
         case TY_PTR:
             return (i64) value->value.ptr;
 
@@ -147,9 +160,11 @@ f80 interpreter_value_f80(InterpreterValue_T* value)
         case TY_F80:
             return value->value.flt.f80;
         
+        case TY_U64:
+            return (f80) (u64) interpreter_value_i64(value);
+
         default:
-            unreachable();
-            return 0.0L;
+            return (f80) interpreter_value_i64(value);
     }
 }
 
@@ -213,13 +228,6 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
             node->referenced_obj = (ASTObj_T*) value->value.fn_obj;
             break;
         case TY_PTR:
-            if(unpack(node->data_type->base)->kind == TY_CHAR)
-            {
-                node->kind = ND_CHAR;
-                node->str_val = strdup((const char*) value->value.ptr);
-                break;
-            }
-
             node->kind = ND_ULONG;
             node->ulong_val = (u64) value->value.ptr;
             break;
diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 88a8a46..7e32214 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -1,8 +1,11 @@
 #include "constexpr.h"
 #include "ast/ast.h"
+#include "ast/types.h"
+#include "context.h"
 #include "error/error.h"
 #include "interpreter/interpreter.h"
 #include "interpreter/value.h"
+#include "codegen/codegen_utils.h"
 
 void init_constexpr_resolver(ConstexprResolver_T* resolver, Context_T* context, ASTProg_T* ast)
 {
@@ -22,8 +25,6 @@ static bool skip_eval_constexpr(ASTNodeKind_T kind) {
         case ND_LONG:
         case ND_ULONG:
         case ND_FLOAT:
-        case ND_ARRAY: // FIXME
-        case ND_STRUCT: // FIXME
         case ND_CHAR:
         case ND_BOOL:
             return true;
@@ -32,12 +33,42 @@ static bool skip_eval_constexpr(ASTNodeKind_T kind) {
     }
 }
 
+static inline bool is_aggregate_literal(ASTNode_T* node)
+{
+    return node->kind == ND_ARRAY || node->kind == ND_STRUCT;
+}
+
 ASTNode_T* eval_constexpr(ConstexprResolver_T* resolver, ASTNode_T* expr)
 {
     if(skip_eval_constexpr(expr->kind))
         return expr;
+    if(expr->kind == ND_CAST && is_aggregate_literal(expr->left) && unpack(expr->data_type)->kind == unpack(expr->left->data_type)->kind)
+        return eval_constexpr(resolver, expr->left); // converting between names of the same type
+    if(is_aggregate_literal(expr))
+    {
+        for(size_t i = 0; i < expr->args->size; i++)
+            expr->args->items[i] = eval_constexpr(resolver, expr->args->items[i]);
+        return expr;
+    }
+
     InterpreterValue_T value = interpreter_eval_expr(resolver, expr);
-    return ast_node_from_interpreter_value(resolver->context, &value, expr->tok);
+    if(value.type->kind == TY_PTR && value.value.ptr)
+    {
+        if(list_contains(resolver->string_literals, (void*) value.value.ptr))
+        {
+            ASTNode_T* node = init_ast_node(&resolver->context->raw_allocator, ND_STR, expr->tok);
+            node->data_type = expr->data_type;
+            node->str_val = (char*) value.value.ptr;
+            return node;
+        }
+        if(interpreter_owns_address(resolver, value.value.ptr))
+            throw_error(resolver->context, ERR_CONSTEXPR, expr->tok, "`%s` is not a compile-time constant", expr->tok->value);
+    }
+
+    ASTNode_T* node = ast_node_from_interpreter_value(resolver->context, &value, expr->tok);
+    if(expr->data_type)
+        node->data_type = expr->data_type;
+    return node;
 }
 
 static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index b06be52..196ab27 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1068,9 +1068,6 @@ static void iter_leave_global(ASTObj_T* global, va_list args)
 {
     GET_VALIDATOR(args);
 
-    if(global->value)
-        global->value = eval_constexpr(&v->constexpr_resolver, global->value);
-
     if(!global->data_type)
     {
         if(!global->value->data_type)
@@ -1111,6 +1108,9 @@ static void iter_leave_global(ASTObj_T* global, va_list args)
     }
 
     typecheck_obj(&v->typechecker, global);
+
+    if(global->value && !v->context->emitted_errors)
+        global->value = eval_constexpr(&v->constexpr_resolver, global->value);
 }
 
 static void iter_enter_enum_member(ASTObj_T* member, va_list args)
@@ -2280,7 +2280,7 @@ static void iter_validate_c_array_type(ASTType_T* ca_type, va_list args)
 {
     GET_VALIDATOR(args);
     if(ca_type->num_indices_node)
-        ca_type->num_indices = const_u64(v->context, ca_type->num_indices_node);
+        ca_type->num_indices = const_u64(v->context, eval_constexpr(&v->constexpr_resolver, ca_type->num_indices_node));
 }
 
 static void iter_validate_enum_type(ASTType_T* enum_type, va_list args)
-- 
2.43.0


From 0e693548709be2303a42ec7021c91ab7a20ea1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 71/84] fix: uninitialised globals lacked the lengths of the
 arrays inside them

---
 src/compiler/codegen/asm/asm_codegen.c | 17 +------
 src/compiler/codegen/asm/relocation.c  | 65 +++++++++++++++++++++++++-
 src/compiler/codegen/asm/relocation.h  |  1 +
 3 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 1036059..fdda347 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -587,7 +587,7 @@ static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
 
                     i32 align = (obj->data_type->kind == TY_C_ARRAY || obj->data_type->kind == TY_ARRAY) && obj->data_type->size >= 16 ? MAX(16, obj->data_type->align) : obj->data_type->align;
 
-                    if(obj->value)
+                    if(obj->value || has_array_length(obj->data_type))
                     {
                         asm_println(cg, "  .section %s", obj->data_type->is_constant ? ".rodata" : ".data");
                         asm_println(cg, "  .type %s, @object", id);
@@ -599,21 +599,6 @@ static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
 
                         continue;
                     }
-                    else if(unpack(obj->data_type)->kind == TY_ARRAY)
-                    {
-                        asm_println(cg, "  .section %s", obj->data_type->is_constant ? ".rodata" : ".data");
-                        asm_println(cg, "  .type %s, @object", id);
-                        asm_println(cg, "  .size %s, %d", id, obj->data_type->size);
-                        asm_println(cg, "  .align %d", align);
-                        asm_println(cg, "%s:", id);
-
-                        union {u64 num; u8 bytes[8];} length;
-                        length.num = unpack(obj->data_type)->num_indices;
-
-                        for(i8 i = 0; i < 8; i++)
-                            asm_println(cg, "  .byte %d", length.bytes[i]);
-                        asm_println(cg, "  .zero %d", obj->data_type->size - 8);
-                    }
                     else
                     {
                         asm_println(cg, "  .section .bss");    
diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index 8981b94..7c41068 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -153,11 +153,72 @@ static size_t asm_gen_const_number(ASMCodegenData_T* cg, ASTNode_T* node, ASTTyp
     return size_generated;
 }
 
+bool has_array_length(ASTType_T* type)
+{
+    type = unpack(type);
+    switch(type->kind)
+    {
+        case TY_ARRAY:
+            return true;
+        case TY_C_ARRAY:
+            return has_array_length(type->base);
+        case TY_STRUCT:
+            for(size_t i = 0; !type->is_union && i < type->members->size; i++)
+                if(has_array_length(((ASTNode_T*) type->members->items[i])->data_type))
+                    return true;
+            return false;
+        default:
+            return false;
+    }
+}
+
+// the image of an uninitialized object: all zero, except for the lengths of its arrays
+static void gen_zero_relocation(ASMCodegenData_T* cg, ASTType_T* type)
+{
+    size_t target_size = type->size;
+    size_t size_generated = 0;
+
+    if(has_array_length(type))
+    {
+        type = unpack(type);
+        if(type->kind == TY_STRUCT)
+        {
+            for(size_t i = 0; i < type->members->size; i++)
+            {
+                ASTNode_T* member = type->members->items[i];
+                if(size_generated < (size_t) member->offset)
+                    asm_println(cg, "  .zero %zu", member->offset - size_generated);
+                gen_zero_relocation(cg, member->data_type);
+                size_generated = member->offset + member->data_type->size;
+            }
+        }
+        else
+        {
+            if(type->kind == TY_ARRAY)
+            {
+                size_generated = asm_gen_const_data(cg, PTR_S);
+                asm_println(cg, "%zu", type->num_indices);
+            }
+            for(size_t i = 0; has_array_length(type->base) && i < type->num_indices; i++)
+            {
+                gen_zero_relocation(cg, type->base);
+                size_generated += type->base->size;
+            }
+        }
+    }
+
+    if(size_generated < target_size)
+        asm_println(cg, "  .zero %zu", target_size - size_generated);
+}
+
 // the image of `node` in an object of `type`
 void gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type)
 {
     if(!node)
+    {
+        gen_zero_relocation(cg, type);
         return;
+    }
 
     size_t target_size = type->size;
     size_t size_generated = 0;
@@ -197,7 +258,7 @@ void gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type)
             break;
 
         case ND_STRUCT:
-            for(size_t i = 0; i < node->args->size; i++)
+            for(size_t i = 0; i < (type->is_union ? node->args->size : type->members->size); i++)
             {
                 ASTNode_T* member = type->members->items[i];
 
@@ -206,7 +267,7 @@ void gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type)
                     asm_println(cg, "  .zero %zu", member->offset - size_generated); // pad correctly
                     size_generated = member->offset;
                 }
-                gen_relocation(cg, node->args->items[i], member->data_type);
+                gen_relocation(cg, i < node->args->size ? node->args->items[i] : NULL, member->data_type);
                 size_generated += member->data_type->size;
             }
             break;
diff --git a/src/compiler/codegen/asm/relocation.h b/src/compiler/codegen/asm/relocation.h
index 58b438e..25472f7 100644
--- a/src/compiler/codegen/asm/relocation.h
+++ b/src/compiler/codegen/asm/relocation.h
@@ -5,6 +5,7 @@
 #include "util.h"
 #include "asm_codegen.h"
 
+bool has_array_length(ASTType_T* type);
 u8 escape_sequence(char c, const char* str, size_t* i);
 void gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type);
 
-- 
2.43.0


From 82b88607ff8e08f90d1b645e98660786735ca57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 72/84] fix: constant remainders were computed in the type of
 the left operand

---
 src/compiler/interpreter/interpreter.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 1dbc2d3..ddfb95a 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -681,18 +681,20 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
-            left_value = convert_operand(ictx, &left_value, expr);
-            right_value = convert_operand(ictx, &right_value, expr);
+            // the result has the type of the left operand, but the operation is done in the larger one
+            const ASTType_T* type = left_value.type->size < right_value.type->size ? right_value.type : left_value.type;
+            left_value = cast_value(ictx, &left_value, type, expr->tok);
+            right_value = cast_value(ictx, &right_value, type, expr->tok);
             if(!check_divisor(ictx, &right_value, expr->tok))
                 return left_value;
             if(is_minus_one(&right_value))
-                return cast_value(ictx, &I32_VALUE(0), left_value.type, expr->tok);
-            switch(left_value.type->kind)
+                left_value = cast_value(ictx, &I32_VALUE(0), left_value.type, expr->tok);
+            else switch(left_value.type->kind)
             {
                 INTLIKE_INFIX_OP_CASES(left_value, right_value, %);
                 default: unreachable();
             }
-            return left_value;
+            return convert_operand(ictx, &left_value, expr);
         }
         case ND_ID:
         {
-- 
2.43.0


From e4c73832246a2282bf2db811329a9c7594d03622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 73/84] fix: enum members without a value could not be used
 before their enum

---
 src/compiler/interpreter/interpreter.c | 13 ++++++++++++-
 src/compiler/parser/parser.c           |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index ddfb95a..6c337ac 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -842,12 +842,23 @@ static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node)
     }
 }
 
+static InterpreterValue_T next_enum_value(InterpreterContext_T* ictx, ASTObj_T* previous)
+{
+    if(!previous)
+        return I32_VALUE(0);
+
+    InterpreterValue_T value = load_value(lvalue_from_id(ictx, previous, previous->data_type, previous->tok));
+    return I32_VALUE((i32) interpreter_value_i64(&value) + 1);
+}
+
 static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
 {
     if(global->value)
     {
         // may push other globals
-        InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
+        InterpreterValue_T value = global->kind == OBJ_ENUM_MEMBER && global->value->kind == ND_NOOP
+            ? next_enum_value(ictx, global->value->referenced_obj)
+            : interpreter_eval_expr(ictx, global->value);
         value = cast_value(ictx, &value, global->data_type, global->tok);
         global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
         interpreter_stack_push(&ictx->global_storage, &value.value, global->data_type->size);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 5e0cff7..7b2317d 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -667,6 +667,7 @@ static ASTType_T* parse_enum_type(Parser_T* p)
         ASTObj_T* member = init_ast_obj(&p->context->raw_allocator, OBJ_ENUM_MEMBER, p->tok);
         member->data_type = (ASTType_T*) primitives[TY_I32];
         member->id = parse_simple_identifier(p);
+        ASTObj_T* previous = enum_type->members->size ? list_last(enum_type->members) : NULL;
         list_push(enum_type->members, member);
         member->is_constant = true;
         member->constexpr = true;
@@ -678,7 +679,9 @@ static ASTType_T* parse_enum_type(Parser_T* p)
             member->value = parse_expr(p, PREC_LOWEST, TOKEN_COMMA);
         }
         else {
+            // one more than the previous member, which may be needed before the whole enum is evaluated
             member->value = init_ast_node(&p->context->raw_allocator, ND_NOOP, member->tok);
+            member->value->referenced_obj = previous;
         }
 
         if(!tok_is(p, TOKEN_RBRACE))
-- 
2.43.0


From d89eb3078b5005fd466468d9464dcbdb77a2234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 74/84] fix: array lengths were computed without converting
 operands of different types

`u8[(-1: i8) / (-32768: i16)]` divided by zero in the compiler.
---
 src/compiler/interpreter/interpreter.c | 30 ++++++++++++++++----------
 src/compiler/parser/typechecker.c      |  5 +++++
 src/compiler/parser/typechecker.h      |  1 +
 src/compiler/parser/validator.c        |  6 ++++++
 4 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 6c337ac..6cc6561 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -101,8 +101,7 @@
 #define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {               \
         InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
         InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
-        left_value = convert_operand(ictx, &left_value, expr);          \
-        right_value = convert_operand(ictx, &right_value, expr);        \
+        convert_operands(ictx, &left_value, &right_value, expr);        \
         switch(left_value.type->kind) {                                 \
             INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
             default: unreachable();                                     \
@@ -184,6 +183,7 @@ static InterpreterValue_T (*const type_cast_map[TY_KIND_LEN][TY_KIND_LEN])(Inter
 static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt);
 static InterpreterValue_T cast_value(InterpreterContext_T* ictx, InterpreterValue_T* value, const ASTType_T* type, Token_T* tok);
 static InterpreterValue_T convert_operand(InterpreterContext_T* ictx, InterpreterValue_T* value, ASTNode_T* expr);
+static void convert_operands(InterpreterContext_T* ictx, InterpreterValue_T* left, InterpreterValue_T* right, ASTNode_T* expr);
 static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn, const InterpreterValueList_T* args);
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok);
@@ -419,8 +419,7 @@ static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
-    left_value = convert_operand(ictx, &left_value, expr);
-    right_value = convert_operand(ictx, &right_value, expr);
+    convert_operands(ictx, &left_value, &right_value, expr);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, +);
@@ -448,8 +447,7 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
-    left_value = convert_operand(ictx, &left_value, expr);
-    right_value = convert_operand(ictx, &right_value, expr);
+    convert_operands(ictx, &left_value, &right_value, expr);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, -);
@@ -535,7 +533,19 @@ static InterpreterValue_T cast_value(InterpreterContext_T* ictx, InterpreterValu
     }
 }
 
-// operands have the type of the operator's result, which may not have been checked yet
+// operands have the type of the operator's result; as long as that is not known, the larger of their own
+static void convert_operands(InterpreterContext_T* ictx, InterpreterValue_T* left, InterpreterValue_T* right, ASTNode_T* expr)
+{
+    const ASTType_T* type = expr->data_type;
+    if(!type)
+    {
+        bool to_right = is_float_value(left) == is_float_value(right) ? left->type->size < right->type->size : is_float_value(right);
+        type = to_right ? right->type : left->type;
+    }
+    *left = cast_value(ictx, left, type, expr->tok);
+    *right = cast_value(ictx, right, type, expr->tok);
+}
+
 static InterpreterValue_T convert_operand(InterpreterContext_T* ictx, InterpreterValue_T* value, ASTNode_T* expr)
 {
     return expr->data_type ? cast_value(ictx, value, expr->data_type, expr->tok) : *value;
@@ -651,8 +661,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
-            left_value = convert_operand(ictx, &left_value, expr);
-            right_value = convert_operand(ictx, &right_value, expr);
+            convert_operands(ictx, &left_value, &right_value, expr);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, *);
@@ -664,8 +673,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
-            left_value = convert_operand(ictx, &left_value, expr);
-            right_value = convert_operand(ictx, &right_value, expr);
+            convert_operands(ictx, &left_value, &right_value, expr);
             if(!check_divisor(ictx, &right_value, expr->tok))
                 return left_value;
             if(is_minus_one(&right_value))
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index ad37e9a..935c8ee 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -112,6 +112,11 @@ void typecheck_obj(TypeChecker_T* t, ASTObj_T* obj)
     t->context->current_obj = old;
 }
 
+void typecheck_expr(TypeChecker_T* t, ASTNode_T* expr)
+{
+    ast_iterate_stmt(&iterator, expr, t);
+}
+
 static inline ASTType_T* current_return_type(TypeChecker_T* t)
 {
     return list_last(t->return_type_stack);
diff --git a/src/compiler/parser/typechecker.h b/src/compiler/parser/typechecker.h
index 0c5f6d9..e873233 100644
--- a/src/compiler/parser/typechecker.h
+++ b/src/compiler/parser/typechecker.h
@@ -25,6 +25,7 @@ void typechecker_init(TypeChecker_T* t, Context_T* context, ASTProg_T* ast);
 void typechecker_free(TypeChecker_T* t);
 
 void typecheck_obj(TypeChecker_T* t, ASTObj_T* obj);
+void typecheck_expr(TypeChecker_T* t, ASTNode_T* expr);
 
 bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b);
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 196ab27..9060895 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2273,14 +2273,20 @@ static void iter_validate_array_type(ASTType_T* array_type, va_list args)
 {
     GET_VALIDATOR(args);
     if(array_type->num_indices_node)
+    {
+        typecheck_expr(&v->typechecker, array_type->num_indices_node);
         array_type->num_indices = const_u64(v->context, eval_constexpr(&v->constexpr_resolver, array_type->num_indices_node));
+    }
 }
 
 static void iter_validate_c_array_type(ASTType_T* ca_type, va_list args)
 {
     GET_VALIDATOR(args);
     if(ca_type->num_indices_node)
+    {
+        typecheck_expr(&v->typechecker, ca_type->num_indices_node);
         ca_type->num_indices = const_u64(v->context, eval_constexpr(&v->constexpr_resolver, ca_type->num_indices_node));
+    }
 }
 
 static void iter_validate_enum_type(ASTType_T* enum_type, va_list args)
-- 
2.43.0


From bdb5377155cd28b97f00e2d889a5e18101d0416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 75/84] fix: functions used only in type matches or converted
 to interfaces were removed as dead code

---
 src/compiler/optimizer/optimizer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/optimizer/optimizer.c b/src/compiler/optimizer/optimizer.c
index f3351d3..590e1b7 100644
--- a/src/compiler/optimizer/optimizer.c
+++ b/src/compiler/optimizer/optimizer.c
@@ -135,6 +135,8 @@ static void remove_dead_code(ASTProg_T* ast)
             case ND_INC:
             case ND_DEC:
             case ND_CAST:
+            case ND_DYNCAST:
+            case ND_DYNUNCAST:
                 list_push(node_stack, stack_top->left);
                 break;
 
@@ -172,6 +174,7 @@ static void remove_dead_code(ASTProg_T* ast)
                 break;
 
             case ND_USING:
+            case ND_MATCH_TYPE:
                 if(stack_top->body)
                     list_push(node_stack, stack_top->body);
                 break;
-- 
2.43.0


From 3ac472bf359fdb291d3692b2b030a10314ef561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 76/84] fix: main(argv) and after_main functions were called
 with a misaligned stack

---
 src/compiler/codegen/asm/asm_codegen.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index fdda347..dd57716 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -37,6 +37,7 @@ static const char* asm_main_call[] =
         "  xorl %ebp, %ebp\n"
         "  popq %rdi\n"
         "  movq %rsp, %rdi\n"
+        "  andq $~15, %rsp\n"
         "  call .main\n",
 
     [MFK_ARGC_ARGV_PTR] =
@@ -408,7 +409,9 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
 
     if(cg->ast->after_main && cg->ast->after_main->size)
     {
-        asm_push(cg);
+        // keep the stack aligned to 16 bytes for the calls
+        asm_println(cg, "  subq $16, %%rsp");
+        asm_println(cg, "  movq %%rax, (%%rsp)");
         for(size_t i = 0; i < cg->ast->after_main->size; i++)
         {
             const ASTObj_T* fn = cg->ast->after_main->items[i];
@@ -418,12 +421,12 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
                 asm_println(cg, "  movq (%%rsp), %s", argreg64[0]);
             asm_println(cg, "  call %s", id);
         }
-        asm_pop(cg, "%rdi");
+        asm_println(cg, "  movq (%%rsp), %s", argreg64[0]);
     }
     else
-        asm_println(cg, "  movq %rax, %rdi");
+        asm_println(cg, "  movq %%rax, %%rdi");
 
-    asm_println(cg, "  movq $60, %rax");
+    asm_println(cg, "  movq $60, %%rax");
     asm_println(cg, "  syscall");
 }
 
-- 
2.43.0


From 3c57234cbabd61f4f5f6a369421c3636aa2f7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 77/84] fix: x++ and compound assignments evaluated the
 assigned expression twice

---
 src/compiler/codegen/asm/asm_codegen.c | 77 ++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index dd57716..15a0700 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1614,8 +1614,76 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
     return fp;
 }
 
+// generate `node` with the address of `lvalue`, which may occur in it more than once, only evaluated once
+static void asm_gen_once(ASMCodegenData_T* cg, ASTNode_T* lvalue, ASTNode_T* node)
+{
+    asm_gen_addr(cg, lvalue);
+    asm_push(cg);
+
+    ASTNode_T saved_address = {
+        .kind = ND_NOOP,
+        .tok = lvalue->tok,
+        .long_val = cg->depth
+    };
+
+    ASTNode_T original = *lvalue;
+    *lvalue = (ASTNode_T) {
+        .kind = ND_DEREF,
+        .tok = original.tok,
+        .right = &saved_address,
+        .data_type = original.data_type
+    };
+    asm_gen_expr(cg, node);
+    *lvalue = original;
+
+    asm_println(cg, "  add $8, %%rsp");
+    cg->depth--;
+}
+
+// the address of `lvalue` needs more than a name
+static bool is_computed(ASTNode_T* lvalue)
+{
+    return lvalue->kind != ND_ID && !(lvalue->kind == ND_DEREF && lvalue->right->kind == ND_NOOP);
+}
+
+// a += b, parsed to a = a + b with both `a` being the same node
+static bool is_compound_assignment(ASTNode_T* assign)
+{
+    ASTNode_T* op = assign->right;
+    while(op->kind == ND_CAST)
+        op = op->left;
+
+    switch(op->kind)
+    {
+        case ND_ADD:
+        case ND_SUB:
+        case ND_MUL:
+        case ND_DIV:
+        case ND_MOD:
+        case ND_LSHIFT:
+        case ND_RSHIFT:
+        case ND_XOR:
+        case ND_BIT_OR:
+        case ND_BIT_AND:
+        {
+            ASTNode_T* left = op->left;
+            while(left->kind == ND_CAST)
+                left = left->left;
+            return left == assign->left;
+        }
+        default:
+            return false;
+    }
+}
+
 static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
 {
+    if(is_computed(node->left))
+    {
+        asm_gen_once(cg, node->left, node);
+        return;
+    }
+
     // convert x++ to (x = x + 1) - 1
     //         x-- to (x = x + -1) - -1
     ASTNode_T addend = {
@@ -1744,6 +1812,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
     switch(node->kind)
     {
         case ND_NOOP:
+            // an address saved by `asm_gen_once`
+            if(node->long_val)
+                asm_println(cg, "  mov %ld(%%rsp), %%rax", (cg->depth - node->long_val) * PTR_S);
             return;
         case ND_CLOSURE:
             for(size_t i = 0; i < node->exprs->size; i++)
@@ -2058,6 +2129,12 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_ASSIGN:
+            if(is_computed(node->left) && is_compound_assignment(node))
+            {
+                asm_gen_once(cg, node->left, node);
+                return;
+            }
+
             // only a new variable cannot be read by the literal assigned to it
             switch(node->is_initializing ? node->right->kind : ND_NOOP)
             {
-- 
2.43.0


From 5fecf9131b81c467520fdcf8f5b4927ad4dfad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:47 +0000
Subject: [PATCH 78/84] fix: discarded 80-bit floats stayed on the x87 stack
 and assignments to them yielded no value

---
 src/compiler/codegen/asm/asm_codegen.c | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 15a0700..15ea63d 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -190,6 +190,7 @@ static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node);
+static void asm_gen_discarded(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda);
 static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty);
 static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to);
@@ -981,7 +982,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
     {
         case ND_CLOSURE:
             for(size_t i = 0; i + 1 < node->exprs->size; i++)
-                asm_gen_expr(cg, node->exprs->items[i]);
+                asm_gen_discarded(cg, node->exprs->items[i]);
             asm_gen_addr(cg, node->exprs->items[node->exprs->size - 1]);
             return;
 
@@ -1614,6 +1615,16 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
     return fp;
 }
 
+// generate an expression whose value is not used
+static void asm_gen_discarded(ASMCodegenData_T* cg, ASTNode_T* node)
+{
+    asm_gen_expr(cg, node);
+
+    // all other values are in registers that get overwritten
+    if(node->data_type && unpack(node->data_type)->kind == TY_F80)
+        asm_println(cg, "  fstp %%st(0)");
+}
+
 // generate `node` with the address of `lvalue`, which may occur in it more than once, only evaluated once
 static void asm_gen_once(ASMCodegenData_T* cg, ASTNode_T* lvalue, ASTNode_T* node)
 {
@@ -1817,8 +1828,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_println(cg, "  mov %ld(%%rsp), %%rax", (cg->depth - node->long_val) * PTR_S);
             return;
         case ND_CLOSURE:
-            for(size_t i = 0; i < node->exprs->size; i++)
-                asm_gen_expr(cg, node->exprs->items[i]);
+            for(size_t i = 0; i + 1 < node->exprs->size; i++)
+                asm_gen_discarded(cg, node->exprs->items[i]);
+            asm_gen_expr(cg, node->exprs->items[node->exprs->size - 1]);
             return;
         case ND_FLOAT:
         {
@@ -2190,6 +2202,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_gen_expr(cg, node->right);
 
                 asm_store(cg, node->left->data_type);
+                // storing has taken the value off the stack
+                if(unpack(node->left->data_type)->kind == TY_F80)
+                    asm_println(cg, "  fldt (%%rdi)");
                 return;
             }
 
@@ -2684,7 +2699,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 c = cg->cur_count = cg->max_count++;
             ASTNode_T* id = node->condition->left;
 
-            asm_gen_expr(cg, node->condition);
+            asm_gen_discarded(cg, node->condition);
             asm_gen_expr(cg, id);
             asm_cmp_zero(cg, node->condition->data_type);
             asm_println(cg, "  je .L.else.%lu", c);
@@ -2737,7 +2752,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             asm_gen_stmt(cg, node->body);
             asm_println(cg, ".L.continue.%lu:", c);
             if(node->expr)
-                asm_gen_expr(cg, node->expr);
+                asm_gen_discarded(cg, node->expr);
             asm_println(cg, "  jmp .L.begin.%lu", c);
             asm_println(cg, ".L.break.%lu:", c);
 
@@ -2955,7 +2970,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_EXPR_STMT:
-            asm_gen_expr(cg, node->expr);
+            asm_gen_discarded(cg, node->expr);
             return;
         
         case ND_CONTINUE:
-- 
2.43.0


From 54cf522f438cd4eb02218f27d34fc09cddee1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 79/84] fix: keep what functions named only in inline assembly
 need

---
 src/compiler/optimizer/optimizer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/compiler/optimizer/optimizer.c b/src/compiler/optimizer/optimizer.c
index 590e1b7..60bf047 100644
--- a/src/compiler/optimizer/optimizer.c
+++ b/src/compiler/optimizer/optimizer.c
@@ -79,11 +79,7 @@ static void remove_dead_code(ASTProg_T* ast)
         {
             case ND_ASM:
                 for(size_t i = 0; i < stack_top->args->size; i++) 
-                {
-                    ASTNode_T* arg = stack_top->args->items[i];
-                    if(arg->kind == ND_ID)
-                        arg->referenced_obj->referenced = true;
-                }
+                    list_push(node_stack, stack_top->args->items[i]);
                 break;
 
             case ND_ADD:
-- 
2.43.0


From ad2804c4921d696b79491b541087d5d2e09004ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 80/84] fix: end dead code removal when an exit function enters
 a with of its own type

---
 src/compiler/optimizer/optimizer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/optimizer/optimizer.c b/src/compiler/optimizer/optimizer.c
index 60bf047..b3d02e2 100644
--- a/src/compiler/optimizer/optimizer.c
+++ b/src/compiler/optimizer/optimizer.c
@@ -143,9 +143,9 @@ static void remove_dead_code(ASTProg_T* ast)
                 break;
 
             case ND_WITH:
-                stack_top->exit_fn->referenced = true;
-                if(stack_top->exit_fn->kind == OBJ_FUNCTION && !stack_top->exit_fn->is_extern)
+                if(stack_top->exit_fn->kind == OBJ_FUNCTION && !stack_top->exit_fn->is_extern && !stack_top->exit_fn->referenced)
                         list_push(node_stack, stack_top->exit_fn->body);
+                stack_top->exit_fn->referenced = true;
                 // fall through
             case ND_TERNARY:
             case ND_IF:
-- 
2.43.0


From 2aee64afe819f607ca4a0df15862f3971d7e2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:47 +0000
Subject: [PATCH 81/84] fix: look at the chosen case of a type match for jumps
 out of a loop

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 9060895..5c94f7c 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -801,11 +801,11 @@ static bool leaves_loop(ASTNode_T* stmt, bool or_continue)
         case ND_WITH:
             return leaves_loop(stmt->if_branch, or_continue) || leaves_loop(stmt->else_branch, or_continue);
         case ND_MATCH:
-        case ND_MATCH_TYPE:
             for(size_t i = 0; i < stmt->cases->size; i++)
                 if(leaves_loop(((ASTNode_T*) stmt->cases->items[i])->body, or_continue))
                     return true;
             return stmt->default_case && leaves_loop(stmt->default_case->body, or_continue);
+        case ND_MATCH_TYPE: // already reduced to the chosen case
         case ND_USING:
         case ND_DEFER:
             return leaves_loop(stmt->body, or_continue);
-- 
2.43.0


From afd9ddc7ceeca84f551292e5bfec593764ef0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:33 +0000
Subject: [PATCH 82/84] fix: report the redefinition of a standard macro
 instead of crashing

---
 src/compiler/preprocessor/preprocessor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index ad063e1..841115e 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -299,7 +299,7 @@ static Macro_T* parse_macro_def(Preprocessor_T* pp, size_t* i)
         throw_error(pp->context, ERR_SYNTAX_ERROR, next, "unexpected token `%s`, expect `}` to end the macro body", next->value);
 
     Macro_T* found = find_macro(pp, macro->tok->value, macro->argc);
-    if(found && found->tok)
+    if(found && found->tok->source)
         throw_error(pp->context, ERR_REDEFINITION, macro->tok, "redefinition of macro `%s` with %d arguments\nfirst defined in `%s` at line %d", macro->tok->value, macro->argc, found->tok->source->path ? found->tok->source->path : found->tok->source->short_path, found->tok->line + 1);
     else if(found)
         throw_error(pp->context, ERR_SYNTAX_ERROR, macro->tok, "redefinition of macro `%s` with %d arguments", macro->tok->value, macro->argc);
-- 
2.43.0


From c6fc0839bf79c64de8769ef23befa622477dbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:33 +0000
Subject: [PATCH 83/84] fix: stop at macros and macro calls with too many
 arguments before they overflow

---
 src/compiler/preprocessor/preprocessor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 841115e..3781955 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -259,7 +259,7 @@ static Macro_T* parse_macro_def(Preprocessor_T* pp, size_t* i)
             if(macro_has_arg(macro, next->value))
                 throw_error(pp->context, ERR_REDEFINITION, next, "duplicate macro argument `%s`", next->value);
             if(macro->argc >= __CSP_MAX_FN_NUM_ARGS)
-                throw_error(pp->context, ERR_MISC, next, "too many macro arguments, maximal argument count is `%d`", __CSP_MAX_FN_NUM_ARGS);
+                throw_error(pp->context, ERR_SYNTAX_ERROR, next, "too many macro arguments, maximal argument count is `%d`", __CSP_MAX_FN_NUM_ARGS);
 
             macro->args[macro->argc++] = next;
 
@@ -386,6 +386,9 @@ static void parse_macro_call(Preprocessor_T* pp, MacroCall_T* call, List_T* toke
 
                 if(has_arg) 
                 {
+                    if(call->argc >= __CSP_MAX_FN_NUM_ARGS)
+                        throw_error(pp->context, ERR_SYNTAX_ERROR, next, "too many arguments for macro call");
+
                     call->args[call->argc].start_idx = arg_start;
                     call->args[call->argc++].end_idx = arg_end - 1;
                 }
-- 
2.43.0


From 5e1899c23b07e72b8091f0ce498b8325f62500e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:43 +0000
Subject: [PATCH 84/84] fix: replace macro parameters passed on to other
 macros, and keep a macro's tokens when it concatenates names

---
 src/compiler/preprocessor/preprocessor.c | 82 ++++++++++++------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 3781955..aad06bc 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -425,54 +425,52 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
     if(pp->macro_call_depth++ > pp->context->max_macro_call_depth)
         throw_error(pp->context, ERR_SYNTAX_ERROR, call.tok, "too many macro calls, maximum is %d.\nIf you need a larger call depth, use --set-mmcd", pp->context->max_macro_call_depth);
     
+    // the macro body with the arguments in place of their names
+    List_T* body = init_list();
     for(size_t i = 0; i < call.macro->replacing_tokens->size; i++)
     {
         Token_T* tok = call.macro->replacing_tokens->items[i];
         tok->in_macro_expansion = true;
 
-        switch(tok->type) {
-            case TOKEN_ID:
+        i32 arg_idx = tok->type == TOKEN_ID ? find_macro_arg(call.macro, tok->value) : -1;
+        if(arg_idx != -1)
+            for(size_t j = call.args[arg_idx].start_idx; j <= call.args[arg_idx].end_idx; j++)
             {
-                i32 arg_idx = find_macro_arg(call.macro, tok->value);
-                if(arg_idx != -1)
-                    for(size_t j = call.args[arg_idx].start_idx; j <= call.args[arg_idx].end_idx; j++)
-                    {
-                        Token_T* tok = src_list->items[j];
-                        if(tok->type == TOKEN_MACRO_CALL)
-                        {
-                            MacroCall_T macro_call;
-                            parse_macro_call(pp, &macro_call, src_list, &j, call.args[arg_idx].end_idx);
-                            expand_macro_call(pp, macro_call, src_list, dest_list);
-                        }
-                        else
-                            list_push(dest_list, src_list->items[j]);
-                    }
-                else if(strcmp(tok->value, "__line__") == 0)
+                Token_T* tok = src_list->items[j];
+                if(tok->type == TOKEN_MACRO_CALL)
                 {
-                    char linestr[BUFSIZ] = { '\0' };
-                    sprintf(linestr, "%u", call.tok->line + 1);
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
+                    MacroCall_T macro_call;
+                    parse_macro_call(pp, &macro_call, src_list, &j, call.args[arg_idx].end_idx);
+                    expand_macro_call(pp, macro_call, src_list, body);
                 }
-                else if(strcmp(tok->value, "__file__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
-                else if(strcmp(tok->value, "__func__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
                 else
-                    list_push(dest_list, tok);
-            } break;
-
-            case TOKEN_MACRO_CALL:
-            {
-                // FIXME: segfaults (macro doesn't get correctly parsed?)
-                MacroCall_T macro_call;
-                parse_macro_call(pp, &macro_call, call.macro->replacing_tokens, &i, call.macro->replacing_tokens->size);
-                expand_macro_call(pp, macro_call, call.macro->replacing_tokens, dest_list);
-            } break;
+                    list_push(body, src_list->items[j]);
+            }
+        else if(tok->type == TOKEN_ID && strcmp(tok->value, "__line__") == 0)
+        {
+            char linestr[BUFSIZ] = { '\0' };
+            sprintf(linestr, "%u", call.tok->line + 1);
+            list_push(body, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
+        }
+        else if(tok->type == TOKEN_ID && strcmp(tok->value, "__file__") == 0)
+            list_push(body, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
+        else if(tok->type == TOKEN_ID && strcmp(tok->value, "__func__") == 0)
+            list_push(body, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
+        else
+            list_push(body, tok);
+    }
 
-            default:
-                list_push(dest_list, tok);
-                break;
+    for(size_t i = 0; i < body->size; i++)
+    {
+        Token_T* tok = body->items[i];
+        if(tok->type == TOKEN_MACRO_CALL)
+        {
+            MacroCall_T macro_call;
+            parse_macro_call(pp, &macro_call, body, &i, body->size);
+            expand_macro_call(pp, macro_call, body, dest_list);
         }
+        else
+            list_push(dest_list, tok);
 
         // handle situations where an identifier should be concatenated
         Token_T *at, *id;
@@ -489,11 +487,15 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
             list_pop(dest_list);
             list_pop(dest_list);
 
-            u64 prev_size = sizeof(Token_T) + strlen(id->value) * sizeof(char);
-            dest_list->items[dest_list->size - 1] = id = allocator_realloc(&pp->context->raw_allocator, id, prev_size + (strlen(current->value) + 1) * sizeof(char));
-            strcat(id->value, current->value);
+            // the tokens belong to the macro and may be needed again
+            char value[strlen(id->value) + strlen(current->value) + 1];
+            strcat(strcpy(value, id->value), current->value);
+            dest_list->items[dest_list->size - 1] = id = init_token(&pp->context->raw_allocator, value, id->line, id->pos, TOKEN_ID, id->source);
+            id->in_macro_expansion = true;
         }
     }
+
+    free_list(body);
 }
 
 //
-- 
2.43.0

