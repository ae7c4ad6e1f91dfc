From 5a34f56086a177261c90f06cf13b24c7c1bfd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 01/59] fix: skip the body of an empty array instruction by
 instruction

The body was scanned byte by byte, so operand bytes that look like array
opcodes (keys, limits, constants, jump tables) ended the skip early or late.
---
 src/vm/il_layout.h | 134 +++++++++++++++++++++++++++++++++++++++++++++
 src/vm/vm_exec.c   |  19 ++++++-
 2 files changed, 150 insertions(+), 3 deletions(-)
 create mode 100644 src/vm/il_layout.h

diff --git a/src/vm/il_layout.h b/src/vm/il_layout.h
new file mode 100644
index 0000000..f583b6a
--- /dev/null
+++ b/src/vm/il_layout.h
@@ -0,0 +1,134 @@
+#ifndef CND_IL_LAYOUT_H
+#define CND_IL_LAYOUT_H
+
+#include "concordia.h"
+
+// Shared knowledge about the size of IL instructions. Used wherever bytecode
+// has to be walked instruction by instruction without executing it.
+
+static inline uint16_t cnd_il_peek_u16(const uint8_t* p) {
+    return (uint16_t)(p[0] | ((uint16_t)p[1] << 8));
+}
+
+static inline uint32_t cnd_il_peek_u32(const uint8_t* p) {
+    return (uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24);
+}
+
+static inline uint64_t cnd_il_peek_u64(const uint8_t* p) {
+    return (uint64_t)cnd_il_peek_u32(p) | ((uint64_t)cnd_il_peek_u32(p + 4) << 32);
+}
+
+// Size in bytes of a value of the given primitive type, 0 if it is not one.
+static inline size_t cnd_il_type_size(uint8_t type) {
+    switch (type) {
+        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: return 1;
+        case OP_IO_U16: case OP_IO_I16: return 2;
+        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
+        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
+        default: return 0;
+    }
+}
+
+static inline bool cnd_il_type_is_int(uint8_t type) {
+    return type >= OP_IO_U8 && type <= OP_IO_I64;
+}
+
+// Length of the instruction at `ip`. Returns 0 for an unknown opcode (or an
+// unknown operand type). The result may reach past `len` when the instruction
+// is truncated; callers have to check that.
+static inline size_t cnd_il_instr_len(const uint8_t* bc, size_t len, size_t ip) {
+    uint8_t op = bc[ip];
+    size_t avail = len - ip;
+    size_t size;
+    switch (op) {
+        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: case OP_EXIT_STRUCT:
+        case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE: case OP_ARR_END: case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            return 1;
+
+        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL:
+            return 2;
+        case OP_EMIT:
+            return (avail < 2 || cnd_il_type_size(bc[ip + 1])) ? 2 : 0;
+
+        case OP_META_NAME: case OP_ENTER_STRUCT:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            return 3;
+
+        case OP_IO_BIT_U: case OP_IO_BIT_I:
+            return 4;
+
+        case OP_STR_NULL: case OP_ARR_DYNAMIC: case OP_JUMP: case OP_JUMP_IF_NOT:
+            return 5;
+
+        case OP_ARR_FIXED: case OP_RAW_BYTES: case OP_SWITCH: case OP_SWITCH_TABLE:
+            return 7;
+
+        case OP_CRC_16: return 8;
+        case OP_CRC_32: return 14;
+        case OP_SCALE_LIN: return 17;
+        case OP_PUSH_IMM:
+        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV:
+            return 9;
+
+        case OP_TRANS_POLY: return avail < 2 ? 2 : 2 + (size_t)bc[ip + 1] * 8;
+        case OP_TRANS_SPLINE: return avail < 2 ? 2 : 2 + (size_t)bc[ip + 1] * 16;
+
+        case OP_CONST_WRITE:
+            if (avail < 2) return 2;
+            return bc[ip + 1] >= OP_IO_U8 && bc[ip + 1] <= OP_IO_U64 ? 2 + cnd_il_type_size(bc[ip + 1]) : 0;
+        case OP_CONST_CHECK:
+            if (avail < 4) return 4;
+            return cnd_il_type_is_int(bc[ip + 3]) ? 4 + cnd_il_type_size(bc[ip + 3]) : 0;
+        case OP_RANGE_CHECK:
+            if (avail < 2) return 2;
+            size = cnd_il_type_size(bc[ip + 1]);
+            return size && bc[ip + 1] != OP_IO_BOOL ? 2 + 2 * size : 0;
+        case OP_ENUM_CHECK:
+            if (avail < 4) return 4;
+            return cnd_il_type_is_int(bc[ip + 1]) ? 4 + cnd_il_type_size(bc[ip + 1]) * cnd_il_peek_u16(bc + ip + 2) : 0;
+
+        default:
+            return 0;
+    }
+}
+
+// For the complete OP_SWITCH / OP_SWITCH_TABLE instruction at `ip`: where its
+// jump table starts and ends. Returns false if the table is not inside the
+// program.
+static inline bool cnd_il_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* table_end) {
+    uint32_t rel = cnd_il_peek_u32(bc + ip + 3);
+    if (rel > len - (ip + 7)) return false;
+    size_t table = ip + 7 + rel;
+    size_t avail = len - table;
+    size_t size;
+    if (bc[ip] == OP_SWITCH) {
+        if (avail < 6) return false;
+        size = 6 + (size_t)cnd_il_peek_u16(bc + table) * 12;
+    } else {
+        if (avail < 20) return false;
+        uint64_t min_val = cnd_il_peek_u64(bc + table);
+        uint64_t max_val = cnd_il_peek_u64(bc + table + 8);
+        if (max_val < min_val || max_val - min_val >= (avail - 20) / 4) return false;
+        size = 20 + ((size_t)(max_val - min_val) + 1) * 4;
+    }
+    if (size > avail) return false;
+    *start = table;
+    *table_end = table + size;
+    return true;
+}
+
+#endif // CND_IL_LAYOUT_H
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..50a044c 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1,4 +1,5 @@
 #include "vm_internal.h"
+#include "il_layout.h"
 #include <string.h>
 #include <stdio.h>
 #include <inttypes.h>
@@ -304,13 +305,25 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 // --- Loop Stack Helpers ---
 
 static void skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
     int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+    while (ctx->ip < len && depth > 0) {
+        uint8_t op = bc[ctx->ip];
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+
+        // Step over the whole instruction: its operands are not opcodes
+        size_t instr_len = cnd_il_instr_len(bc, len, ctx->ip);
+        if (instr_len == 0 || instr_len > len - ctx->ip) { ctx->ip = len; break; }
+        if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            // The cases and the jump table belong to the switch
+            size_t table_start;
+            if (!cnd_il_switch_table(bc, len, ctx->ip, &table_start, &ctx->ip)) { ctx->ip = len; break; }
+        } else {
+            ctx->ip += instr_len;
+        }
     }
 }
 
-- 
2.43.0


From 0001bf737efaa36cc043e85453c68ffba3bc9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 02/59] fix: read-to-end arrays do not leak a loop frame, end,
 and are not confused with a count

An @eof array at the end of the data pushed a frame it never popped, an
element that consumes nothing looped for ever, and a 32-bit count of
0xFFFFFFFF was taken for 'until the end of the data'.
---
 include/concordia.h |  2 ++
 src/vm/vm_exec.c    | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/concordia.h b/include/concordia.h
index c116bef..26b06c1 100644
--- a/include/concordia.h
+++ b/include/concordia.h
@@ -186,6 +186,8 @@ typedef enum {
 typedef struct {
     size_t start_ip;
     uint32_t remaining;
+    bool until_end;             // Loop runs until the end of the data (OP_ARR_EOF)
+    size_t iter_cursor;         // Position at the start of the current iteration
 } cnd_loop_frame;
 
 // Forward declaration for the IO callback
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 50a044c..5e851e0 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -331,6 +331,7 @@ static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
     if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return false;
     ctx->loop_stack[ctx->loop_depth].start_ip = start_ip;
     ctx->loop_stack[ctx->loop_depth].remaining = count;
+    ctx->loop_stack[ctx->loop_depth].until_end = false;
     ctx->loop_depth++;
     return true;
 }
@@ -1161,17 +1162,20 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
 
-                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
-                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
-                frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
-                
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
                     skip_loop_body(ctx);
                     RELOAD_PC();
+                    break;
                 }
+
+                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
+                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
+                frame->start_ip = ctx->ip;
+                frame->remaining = 0;
+                frame->until_end = true;
+                frame->iter_cursor = ctx->cursor;
                 break;
             }
 
@@ -1207,9 +1211,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 bool loop_continue = false;
                 
-                if (frame->remaining == 0xFFFFFFFF) {
+                if (frame->until_end) {
                     // EOF Loop
-                    if (ctx->cursor < ctx->data_len) loop_continue = true;
+                    if (ctx->cursor < ctx->data_len) {
+                        // An element that consumes nothing can never reach the end
+                        if (ctx->cursor == frame->iter_cursor) return CND_ERR_VALIDATION;
+                        frame->iter_cursor = ctx->cursor;
+                        loop_continue = true;
+                    }
                 } else {
                     // Fixed/Prefixed Loop
                     if (frame->remaining > 0) frame->remaining--;
-- 
2.43.0


From d6b811bfa64ae964413acaec45fc1f719449554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 03/59] fix: implement OP_SWAP

The compiler emits OP_SWAP when it converts the left operand of a mixed
expression, but the VM ignored it.
---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5e851e0..ffdbc40 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1435,6 +1435,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t top = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = top;
+                break;
+            }
+
             case OP_DUP: {
                 if (ctx->expr_sp == 0) return CND_ERR_STACK_UNDERFLOW;
                 uint64_t val = ctx->expr_stack[ctx->expr_sp - 1];
-- 
2.43.0


From dde436d3e2bec76d6432289e9dfa7fe82356f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 04/59] fix: bit fields and padding past the end of the data
 are out of bounds

read_bits/write_bits silently dropped bits that do not fit, so truncated
messages decoded as success with zeros, encoding reported success with data
missing, and padding moved the cursor past the end of the buffer.
---
 src/vm/vm_exec.c     | 13 ++++++++++++-
 src/vm/vm_internal.h |  6 ++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ffdbc40..1617adb 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -991,7 +991,13 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: {
+                uint16_t k=FETCH_IL_U16(ctx);
+                uint8_t b=FETCH_IL_U8(ctx);
+                uint64_t v=0;
+                if (b == 0 || b > 64) return CND_ERR_INVALID_OP;
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
+                if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1023,6 +1029,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
+                if (b == 0 || b > 64) return CND_ERR_INVALID_OP;
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1038,6 +1046,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
+                if (!bits_available(ctx, 1)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1053,7 +1062,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
+                    for (; b > 64; b -= 64) write_bits(ctx, 0, 64);
                     write_bits(ctx, 0, b);
                 } else {
                     size_t total_bits = ctx->bit_offset + b;
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..7337d07 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -94,6 +94,12 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// True if `count` more bits fit between the current position and the end of the data
+static inline bool bits_available(const cnd_vm_ctx* ctx, uint8_t count) {
+    size_t need = ((size_t)ctx->bit_offset + count + 7) / 8;
+    return ctx->cursor <= ctx->data_len && need <= ctx->data_len - ctx->cursor;
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
-- 
2.43.0


From 2c0814a5aff77332f2b01f08f3ce70f95d70dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 05/59] fix: bound the enum check and do not check a missing
 optional field

OP_ENUM_CHECK read before the start of the buffer and could move past the end
of the program; range and enum checks after a missing optional field tested
the bytes of whatever field came before it.
---
 src/vm/vm_exec.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 1617adb..fe8e8d8 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -127,6 +127,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
               ctx->is_next_optional = false; \
+              value_missing = true; \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -211,6 +212,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
               ctx->is_next_optional = false; \
+              value_missing = true; \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -283,6 +285,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     { \
         ctype min = (ctype)(IL_READ); \
         ctype max = (ctype)(IL_READ); \
+        if (value_missing) break; \
         if (ctx->cursor < size) return CND_ERR_OOB; \
         ctype val = (ctype)(BUF_READ); \
         if (val < min || val > max) return CND_ERR_VALIDATION; \
@@ -295,6 +298,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
         ctype min, max; \
         memcpy(&min, &imin, sizeof(ctype)); \
         memcpy(&max, &imax, sizeof(ctype)); \
+        if (value_missing) break; \
         if (ctx->cursor < size) return CND_ERR_OOB; \
         int_type ival = (BUF_READ); \
         ctype val; \
@@ -699,6 +703,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
 
+    // The last field was optional and is not in the data: there is nothing to check
+    bool value_missing = false;
+
     while (pc < end) {
         uint8_t opcode = *pc++;
         // printf("Opcode: %02X at IP %zu\n", opcode, (size_t)(pc - ctx->program->bytecode - 1));
@@ -711,6 +718,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
         }
 
+        if (opcode != OP_RANGE_CHECK && opcode != OP_ENUM_CHECK) value_missing = false;
+
         switch (opcode) {
             case OP_NOOP: break;
             case OP_SET_ENDIAN_LE: ctx->endianness = CND_LE; break;
@@ -808,6 +817,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 bool found = false;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
+                    if ((size_t)(end - pc) < (size_t)count * (size)) return CND_ERR_OOB; \
+                    if (value_missing) { pc += (size_t)count * (size); found = true; break; } \
+                    if (ctx->cursor < (size)) return CND_ERR_OOB; \
                     ctype actual = (READ_EXPR); \
                     for (uint16_t i = 0; i < count; i++) { \
                         ctype val = 0; \
-- 
2.43.0


From 957f85283f5c1bc414aab8a430e2c5b4035f3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 06/59] fix: a computed field is aligned, and checked against
 the value encoding stores

OP_EMIT wrote over a partly filled bit-field byte, decoding compared the full
64-bit value with the stored low bytes (so e.g. a negative int8 was rejected),
and a NaN on one side was accepted.
---
 src/vm/vm_exec.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index fe8e8d8..5908775 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -549,8 +549,8 @@ static const bool ALIGN_TABLE[256] = {
     0, // 0x4A MARK_OPTIONAL
     1, // 0x4B ENUM_CHECK
     1, 1, 1, 1, // 0x4C - 0x4F
-    // 0x50 - 0xFF (Control Flow & Others) - No alignment
-    0 // ... rest 0
+    // 0x50 - 0xFF (Control Flow & Others) - No alignment, except
+    [OP_EMIT] = 1
 };
 
 // --- Public API ---
@@ -1477,6 +1477,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
                 if (stack_pop(ctx, &val) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                if (type == OP_IO_BOOL && val > 1) return CND_ERR_VALIDATION;
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     int size = 0;
@@ -1577,14 +1578,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         float f_bin; memcpy(&f_bin, &bin_val, 4);
                         
                         float diff = f_val - f_bin;
-                        if (diff < -0.00001f || diff > 0.00001f) return CND_ERR_VALIDATION;
+                        bool same = f_val == f_bin || (f_val != f_val && f_bin != f_bin);
+                        if (!same && !(diff >= -0.00001f && diff <= 0.00001f)) return CND_ERR_VALIDATION;
                     } else if (type == OP_IO_F64) {
                         double d_val; memcpy(&d_val, &val, 8);
                         double d_bin; memcpy(&d_bin, &bin_val, 8);
                         
                         double diff = d_val - d_bin;
-                        if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
+                        bool same = d_val == d_bin || (d_val != d_val && d_bin != d_bin);
+                        if (!same && !(diff >= -0.0000001 && diff <= 0.0000001)) return CND_ERR_VALIDATION;
                     } else {
+                        // Encoding stored the low bytes of the value
+                        if (size < 8) val &= (1ULL << (size * 8)) - 1;
                         if (bin_val != val) return CND_ERR_VALIDATION;
                     }
                     
-- 
2.43.0


From 361dee3ccb4409f9f81450aef4eecd2293662f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 07/59] fix: refuse images whose key names are not terminated
 inside the image

cnd_get_key_name and cnd_get_key_id walked past the end of such an image.
---
 src/vm/vm_exec.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5908775..d8c0d9b 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -572,10 +572,19 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     if (image[5] != 1) return CND_ERR_INVALID_OP; // Version check
 
     uint16_t str_count = image[6] | (image[7] << 8);
-    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | (image[11] << 24);
-    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | (image[15] << 24);
-
-    if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
+    uint32_t str_offset = cnd_il_peek_u32(image + 8);
+    uint32_t bc_offset = cnd_il_peek_u32(image + 12);
+
+    if (str_offset < 16 || bc_offset < 16 || str_offset > len || bc_offset > len) return CND_ERR_OOB;
+
+    // Every name has to be terminated before the bytecode (or the image) ends
+    size_t str_limit = str_offset <= bc_offset ? bc_offset : len;
+    size_t str_pos = str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        while (str_pos < str_limit && image[str_pos] != 0) str_pos++;
+        if (str_pos >= str_limit) return CND_ERR_OOB;
+        str_pos++; // Skip null terminator
+    }
     
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
-- 
2.43.0


From 104c07d97e62291b2911b9f8546a77eb05ab645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 08/59] fix: no undefined shifts, conversions or pointer
 arithmetic in the VM

Shifts by 64 or more, double to integer conversion out of range, shifts into
the sign bit when assembling words, polynomial tables checked only after
moving the program pointer, memcpy from NULL.
---
 src/vm/vm_exec.c     | 30 +++++++++++++++++++-----------
 src/vm/vm_internal.h |  8 ++++----
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index d8c0d9b..4e62e21 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -422,7 +422,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (ctype)len; \
             WRITE_EXPR; \
-            memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
+            if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
             if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
@@ -448,7 +448,7 @@ static int64_t sign_extend(uint64_t val, uint8_t bits) {
 static uint32_t reflect(uint32_t val, int bits) {
     uint32_t res = 0;
     for (int i = 0; i < bits; i++) {
-        if (val & (1 << i)) res |= (1 << (bits - 1 - i));
+        if (val & (1U << i)) res |= (1U << (bits - 1 - i));
     }
     return res;
 }
@@ -514,7 +514,7 @@ static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_
                 else crc = (crc << 1) & 0xFFFF;
             }
         } else { // 32
-            crc ^= (uint32_t)(octet << 24);
+            crc ^= (uint32_t)octet << 24;
             for (int j = 0; j < 8; j++) {
                 if (crc & 0x80000000) crc = (crc << 1) ^ poly;
                 else crc <<= 1;
@@ -665,6 +665,12 @@ static inline cnd_error_t stack_pop(cnd_vm_ctx* ctx, uint64_t* val) {
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
     if (stack_push(ctx, a OP b) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
 
+// Helper for shifts: all bits are gone after 64 places
+#define SHIFT_OP(OP) \
+    uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    if (stack_push(ctx, b < 64 ? a OP b : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+
 // Helper for unary operations
 #define UNARY_OP(OP) \
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
@@ -706,7 +712,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #undef FETCH_IL_U16
     #define FETCH_IL_U8(c) ((pc < end) ? *pc++ : 0)
     #define FETCH_IL_U16(c) ((pc + 2 <= end) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
-    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | (pc[-1] << 24))) : 0)
+    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
     #define FETCH_IL_U64(c) ((pc + 8 <= end) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
     
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
@@ -944,8 +950,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_POLY;
                 ctx->trans_poly_count = count;
                 ctx->trans_poly_data = pc;
+                if ((size_t)(end - pc) < (size_t)count * 8) return CND_ERR_OOB;
                 pc += (count * 8);
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
@@ -954,8 +960,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_SPLINE;
                 ctx->trans_spline_count = count;
                 ctx->trans_spline_data = pc;
+                if ((size_t)(end - pc) < (size_t)count * 2 * 8) return CND_ERR_OOB;
                 pc += (count * 2 * 8); // 2 doubles per point
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
@@ -1117,7 +1123,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;
                     
-                    memcpy(ctx->data_buffer + ctx->cursor, str, len);
+                    if (len > 0) memcpy(ctx->data_buffer + ctx->cursor, str, len);
                     ctx->cursor += len;
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
@@ -1367,6 +1373,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 if (disc_val >= min_val && disc_val <= max_val) {
                     uint64_t index = disc_val - min_val;
+                    if (index >= ctx->program->bytecode_len) return CND_ERR_OOB;
                     // Offset is at table_start + 8 + 8 + 4 + index * 4
                     // We are currently at table_start + 20 (ctx->ip)
                     size_t offset_loc = ctx->ip + (size_t)(index * 4);
@@ -1628,8 +1635,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_NEG: {
                 uint64_t a;
                 if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
-                // Cast to signed to avoid C4146 (unary minus on unsigned)
-                if (stack_push(ctx, (uint64_t)(-(int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                // Subtract to avoid C4146 (unary minus on unsigned)
+                if (stack_push(ctx, 0 - a) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
 
@@ -1699,6 +1706,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
+                if (!(f >= -9223372036854775808.0 && f < 9223372036854775808.0)) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
@@ -1717,8 +1725,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            case OP_SHL:     { SHIFT_OP(<<); break; }
+            case OP_SHR:     { SHIFT_OP(>>); break; }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 7337d07..b5916fc 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -24,7 +24,7 @@ static inline uint32_t read_il_u32(cnd_vm_ctx* ctx) {
     uint32_t val = ctx->program->bytecode[ctx->ip] | 
                    (ctx->program->bytecode[ctx->ip + 1] << 8) | 
                    (ctx->program->bytecode[ctx->ip + 2] << 16) | 
-                   (ctx->program->bytecode[ctx->ip + 3] << 24);
+                   ((uint32_t)ctx->program->bytecode[ctx->ip + 3] << 24);
     ctx->ip += 4;
     return val;
 }
@@ -47,7 +47,7 @@ static inline uint64_t read_il_u64(cnd_vm_ctx* ctx) {
 static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     if (idx + 4 > ctx->program->bytecode_len) return 0;
     const uint8_t* b = ctx->program->bytecode + idx;
-    return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+    return b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
 }
 
 // --- Data Access (Read) ---
@@ -66,9 +66,9 @@ static inline uint16_t read_u16(const uint8_t* buf, cnd_endian_t endian) {
 
 static inline uint32_t read_u32(const uint8_t* buf, cnd_endian_t endian) {
     if (endian == CND_LE) {
-        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24);
+        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | ((uint32_t)buf[3] << 24);
     } else {
-        return (buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
+        return ((uint32_t)buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
     }
 }
 
-- 
2.43.0


From f6c115bd661b49fa23d556342653a7cfc52bac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 09/59] fix: transforms store the raw value whose transform was
 supplied

Inverting scale, poly and spline truncated (0.29 with scale 0.01 stored 28),
a raw value the field cannot hold was stored wrapped, poly inversion stopped
at a stationary start or within 0.001, spline inversion returned 0 outside of
the points, float fields ignored poly and spline, integer overflow and out of
range conversions were undefined.
---
 src/vm/vm_exec.c | 124 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 86 insertions(+), 38 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 4e62e21..17489d4 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -33,7 +33,7 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
 
 static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
     double x = 0;
-    for(int iter=0; iter<20; iter++) {
+    for(int iter=0; iter<100; iter++) {
         double y = 0;
         double dy = 0;
         if (ctx->trans_poly_count > 0) {
@@ -49,9 +49,11 @@ static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
             }
         }
         double diff = y - target_y;
-        if (diff > -0.001 && diff < 0.001) break;
-        if (dy == 0) break;
-        x = x - diff / dy;
+        if (diff == 0) break;
+        if (dy == 0) { x = x + 1; continue; } // Leave a stationary point
+        double next = x - diff / dy;
+        if (next == x) break;
+        x = next;
     }
     return x;
 }
@@ -66,7 +68,8 @@ static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
             memcpy(&tmp, ctx->trans_spline_data + (i * 2 + 1) * 8, 8); memcpy(&y0, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2) * 8, 8); memcpy(&x1, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2 + 1) * 8, 8); memcpy(&y1, &tmp, 8);
-            if ((x >= x0 && x <= x1) || (i == ctx->trans_spline_count - 2)) {
+            // Outside of the points the first or the last segment is continued
+            if (x <= x1 || (i == ctx->trans_spline_count - 2)) {
                 if (x1 == x0) y = y0;
                 else y = y0 + (x - x0) * (y1 - y0) / (x1 - x0);
                 break;
@@ -86,7 +89,9 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
             memcpy(&tmp, ctx->trans_spline_data + (i * 2 + 1) * 8, 8); memcpy(&y0, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2) * 8, 8); memcpy(&x1, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2 + 1) * 8, 8); memcpy(&y1, &tmp, 8);
-            if ((target_y >= y0 && target_y <= y1) || (target_y <= y0 && target_y >= y1)) {
+            bool before = i == 0 && (y0 <= y1 ? target_y <= y0 : target_y >= y0);
+            if ((target_y >= y0 && target_y <= y1) || (target_y <= y0 && target_y >= y1) ||
+                before || (i == ctx->trans_spline_count - 2)) {
                 if (y1 == y0) x = x0;
                 else x = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
                 break;
@@ -96,26 +101,75 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+// Integer transforms wrap around like the unsigned arithmetic of the ALU
+static inline int64_t vm_math_mul_i64(int64_t a, int64_t b) { return (int64_t)((uint64_t)a * (uint64_t)b); }
+
+static inline int64_t vm_math_div_i64(int64_t a, int64_t b) {
+    if (b == 0) return a;
+    if (b == -1) return (int64_t)(0 - (uint64_t)a);
+    return a / b;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)raw + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)raw - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_math_mul_i64(raw, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_math_div_i64(raw, ctx->trans_i_val);
         default: return raw;
     }
 }
 
 static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)eng - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)eng + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_math_div_i64(eng, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_math_mul_i64(eng, ctx->trans_i_val);
         default: return eng;
     }
 }
 
+// Nearest integer of the given size and signedness to the raw value an inverse
+// transform computed. False if the type cannot hold it.
+static inline bool vm_math_round_raw(double v, size_t size, bool is_signed, uint64_t* out) {
+    double limit = 1.0; // First value above the type's range
+    for (size_t i = 0; i < size * 8 - (is_signed ? 1 : 0); i++) limit *= 2.0;
+    if (v > -4503599627370496.0 && v < 4503599627370496.0) { // Above 2^52 every double is an integer
+        double t = (double)(int64_t)v;
+        if (v - t >= 0.5) t += 1.0;
+        else if (v - t <= -0.5) t -= 1.0;
+        v = t;
+    }
+    if (!(v < limit && v >= (is_signed ? -limit : 0.0))) return false;
+    *out = v < 0 ? (uint64_t)(int64_t)v : (uint64_t)v;
+    return true;
+}
+
+static inline bool vm_math_raw_fits(int64_t v, size_t size, bool is_signed) {
+    if (size >= 8) return true;
+    if (is_signed) return v >= -((int64_t)1 << (size * 8 - 1)) && v < ((int64_t)1 << (size * 8 - 1));
+    return v >= 0 && v < ((int64_t)1 << (size * 8));
+}
+
+static inline double vm_math_float_to_eng(cnd_vm_ctx* ctx, double raw) {
+    switch(ctx->trans_type) {
+        case CND_TRANS_POLY: return vm_math_poly_eval(ctx, raw);
+        case CND_TRANS_SPLINE: return vm_math_spline_eval(ctx, raw);
+        default: return raw * ctx->trans_f_factor + ctx->trans_f_offset;
+    }
+}
+
+static inline double vm_math_float_to_raw(cnd_vm_ctx* ctx, double eng) {
+    switch(ctx->trans_type) {
+        case CND_TRANS_POLY: return vm_math_poly_solve(ctx, eng);
+        case CND_TRANS_SPLINE: return vm_math_spline_solve(ctx, eng);
+        default: return (eng - ctx->trans_f_offset) / ctx->trans_f_factor;
+    }
+}
+
+#define IS_SIGNED(ctype) ((ctype)-1 < (ctype)1)
+
 // --- Helpers / Macros to reduce repeated IO case code ---
 // HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR)
 //   - size: number of bytes this IO consumes
@@ -141,7 +195,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  uint64_t raw64 = 0; \
+                  if (!vm_math_round_raw((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor, sizeof(ctype), IS_SIGNED(ctype), &raw64)) return CND_ERR_VALIDATION; \
+                  ctype val = (ctype)raw64; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -154,7 +210,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  uint64_t raw64 = 0; \
+                  if (!vm_math_round_raw(vm_math_poly_solve(ctx, eng_val), sizeof(ctype), IS_SIGNED(ctype), &raw64)) return CND_ERR_VALIDATION; \
+                  ctype val = (ctype)raw64; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -167,7 +225,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  uint64_t raw64 = 0; \
+                  if (!vm_math_round_raw(vm_math_spline_solve(ctx, eng_val), sizeof(ctype), IS_SIGNED(ctype), &raw64)) return CND_ERR_VALIDATION; \
+                  ctype val = (ctype)raw64; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -180,7 +240,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_int_to_raw(ctx, eng_val); \
+                  int64_t raw64 = vm_math_int_to_raw(ctx, eng_val); \
+                  if (!vm_math_raw_fits(raw64, sizeof(ctype), IS_SIGNED(ctype))) return CND_ERR_VALIDATION; \
+                  ctype val = (ctype)raw64; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -221,16 +283,16 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           return CND_ERR_OOB; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
-          if (ctx->trans_type == CND_TRANS_SCALE_F64) { \
+          if (ctx->trans_type == CND_TRANS_SCALE_F64 || ctx->trans_type == CND_TRANS_POLY || ctx->trans_type == CND_TRANS_SPLINE) { \
               double eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  ctype val = (ctype)vm_math_float_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  eng_val = (double)val * ctx->trans_f_factor + ctx->trans_f_offset; \
+                  eng_val = vm_math_float_to_eng(ctx, (double)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -239,27 +301,13 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
+                  int64_t raw64 = vm_math_int_to_raw(ctx, eng_val); \
                   ctype val = (ctype)raw64; \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  if (!(val >= -9223372036854775808.0 && val < 9223372036854775808.0)) return CND_ERR_ARITHMETIC; \
+                  eng_val = vm_math_int_to_eng(ctx, (int64_t)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
-- 
2.43.0


From 9d47780e1fe39a0bee212d8f6321bbcb863bf434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 10/59] fix: an optional mark covers its own field only, and
 only when decoding

Encoding an optional field that does not fit reported success without it, the
mark leaked to later fields through bit fields, constants, structs and arrays,
a transform leaked from a missing field, and missing optional strings failed.
---
 src/vm/vm_exec.c | 58 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 17489d4..46d3745 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -179,8 +179,9 @@ static inline double vm_math_float_to_raw(cnd_vm_ctx* ctx, double eng) {
 #define HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
+          if (ctx->is_next_optional && ctx->mode == CND_MODE_DECODE) { \
               ctx->is_next_optional = false; \
+              ctx->trans_type = CND_TRANS_NONE; \
               value_missing = true; \
               ctype val = 0; \
               SYNC_IP(); \
@@ -272,8 +273,9 @@ static inline double vm_math_float_to_raw(cnd_vm_ctx* ctx, double eng) {
 #define HANDLE_FLOAT(size, ctype, int_t, READ_INT_EXPR, WRITE_INT_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
+          if (ctx->is_next_optional && ctx->mode == CND_MODE_DECODE) { \
               ctx->is_next_optional = false; \
+              ctx->trans_type = CND_TRANS_NONE; \
               value_missing = true; \
               ctype val = 0; \
               SYNC_IP(); \
@@ -451,6 +453,9 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
         break; \
     }
 
+// What the host sees for a missing optional string: a zero length, no characters
+static const char empty_string[8] = {0};
+
 #define HANDLE_STRING_PRE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { \
         uint16_t key = FETCH_IL_U16(ctx); \
@@ -473,7 +478,13 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
+            if (ctx->cursor + (size) > ctx->data_len) { \
+                if (!ctx->is_next_optional) return CND_ERR_OOB; \
+                ctx->is_next_optional = false; \
+                SYNC_IP(); \
+                if (ctx->io_callback(ctx, key, opcode, (void*)(empty_string + (size))) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                break; \
+            } \
             ctype len_val = (READ_EXPR); \
             if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
@@ -783,6 +794,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
 
         if (opcode != OP_RANGE_CHECK && opcode != OP_ENUM_CHECK) value_missing = false;
 
+        // An optional mark belongs to the next value only, never to one after it
+        bool optional = ctx->is_next_optional && ctx->mode == CND_MODE_DECODE;
+        switch (opcode) {
+            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: case OP_ALIGN_PAD: case OP_ALIGN_FILL:
+            case OP_ENTER_STRUCT: case OP_EXIT_STRUCT: case OP_CONST_CHECK: case OP_CONST_WRITE:
+            case OP_CRC_16: case OP_CRC_32: case OP_EMIT: case OP_RAW_BYTES: case OP_ARR_FIXED: case OP_ARR_END:
+            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_DYNAMIC: case OP_ARR_EOF:
+                ctx->is_next_optional = false;
+                break;
+            default: break;
+        }
+
         switch (opcode) {
             case OP_NOOP: break;
             case OP_SET_ENDIAN_LE: ctx->endianness = CND_LE; break;
@@ -1036,7 +1059,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BOOL: {
                 uint16_t key = FETCH_IL_U16(ctx);
                 if (ctx->cursor + 1 > ctx->data_len) {
-                    if (ctx->is_next_optional) {
+                    if (ctx->is_next_optional && ctx->mode == CND_MODE_DECODE) {
                         ctx->is_next_optional = false;
                         uint8_t val = 0;
                         SYNC_IP();
@@ -1071,7 +1094,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t b=FETCH_IL_U8(ctx);
                 uint64_t v=0;
                 if (b == 0 || b > 64) return CND_ERR_INVALID_OP;
-                if (!bits_available(ctx, b)) return CND_ERR_OOB;
+                if (!bits_available(ctx, b)) {
+                    if (!optional) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
+                }
                 if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
@@ -1105,7 +1133,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
                 if (b == 0 || b > 64) return CND_ERR_INVALID_OP;
-                if (!bits_available(ctx, b)) return CND_ERR_OOB;
+                if (!bits_available(ctx, b)) {
+                    if (!optional) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
+                }
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1121,7 +1154,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
-                if (!bits_available(ctx, 1)) return CND_ERR_OOB;
+                if (!bits_available(ctx, 1)) {
+                    if (!optional) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
+                }
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1176,6 +1214,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
                 } else {
+                    if (ctx->cursor >= ctx->data_len && ctx->is_next_optional) {
+                        ctx->is_next_optional = false;
+                        SYNC_IP();
+                        if (ctx->io_callback(ctx, key, opcode, (void*)empty_string) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
+                    }
                     size_t start = ctx->cursor;
                     size_t len = 0;
                     
-- 
2.43.0


From b6a0767e2137e98680b1971fcac2eede7f6563cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 11/59] fix: the verifier knows every instruction and steps
 over jump tables

It rejected what the compiler emits for enums, transforms and switches, and
walked programs out of step because most lengths were wrong; a jump to the end
of the program is valid.
---
 src/vm/vm_verify.c | 215 ++++++++++-----------------------------------
 1 file changed, 47 insertions(+), 168 deletions(-)

diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..b516a9d 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,5 +1,9 @@
 #include "concordia.h"
 #include "vm_internal.h"
+#include "il_layout.h"
+
+// Switches nested deeper than this are not accepted
+#define MAX_PENDING_TABLES 64
 
 cnd_error_t cnd_verify_program(const cnd_program* program)
 {
@@ -11,167 +15,47 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
     uint32_t len = (uint32_t)program->bytecode_len;
     const uint8_t* bc = program->bytecode;
 
+    // Start and end of the jump tables that are still ahead
+    size_t tables[MAX_PENDING_TABLES][2];
+    size_t table_count = 0;
+
     while (ip < len) {
         uint8_t opcode = bc[ip];
         
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
-
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
-
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
-                break;
-
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
-                break;
-
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
-                break;
-                
-            case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
-                break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
-                break;
+        // Jump tables lie between the instructions: they are data, not code
+        size_t table_end = 0;
+        for (size_t i = 0; i < table_count; ) {
+            if (tables[i][0] == ip && tables[i][1] > table_end) table_end = tables[i][1];
+            if (tables[i][0] <= ip) {
+                tables[i][0] = tables[table_count - 1][0];
+                tables[i][1] = tables[table_count - 1][1];
+                table_count--;
+            } else {
+                i++;
+            }
+        }
+        if (table_end) {
+            ip = (uint32_t)table_end;
+            continue;
+        }
 
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
+        // Get instruction length
+        size_t instr_len = cnd_il_instr_len(bc, len, ip);
+        if (instr_len == 0) return CND_ERR_INVALID_OP;
+        if (instr_len > len - ip) return CND_ERR_OOB;
 
-            case OP_JUMP:
-            case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
-                break;
+        if (opcode == OP_SWITCH || opcode == OP_SWITCH_TABLE) {
+            if (table_count >= MAX_PENDING_TABLES) return CND_ERR_OOB;
+            size_t* table = tables[table_count++];
+            if (!cnd_il_switch_table(bc, len, ip, &table[0], &table[1])) return CND_ERR_OOB;
+        }
 
+        switch (opcode) {
             case OP_SWITCH: {
                 if (ip + 7 > len) return CND_ERR_OOB;
                 // 1 (op) + 2 (key) + 4 (table_offset)
                 const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
+                uint32_t table_rel = cnd_il_peek_u32(off_ptr);
                 
                 size_t table_start = (ip + 7) + table_rel;
                 
@@ -190,18 +74,18 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 // Check offsets
                 // Default offset
                 const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
+                int32_t def_off = (int32_t)cnd_il_peek_u32(def_ptr);
                 
                 // Target relative to code_start_ip (ip + 7)
                 int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
+                if (target < 0 || target > len) return CND_ERR_OOB;
                 
                 // Case offsets
                 for (uint16_t i = 0; i < count; i++) {
                     const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
+                    int32_t off = (int32_t)cnd_il_peek_u32(case_ptr);
                     target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
+                    if (target < 0 || target > len) return CND_ERR_OOB;
                 }
                 
                 instr_len = 7;
@@ -212,7 +96,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 if (ip + 7 > len) return CND_ERR_OOB;
                 // 1 (op) + 2 (key) + 4 (table_offset)
                 const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
+                uint32_t table_rel = cnd_il_peek_u32(off_ptr);
                 
                 size_t table_start = (ip + 7) + table_rel;
                 
@@ -240,16 +124,16 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 
                 // Check default offset
                 const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
+                int32_t def_off = (int32_t)cnd_il_peek_u32(def_ptr);
                 int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
+                if (target < 0 || target > len) return CND_ERR_OOB;
                 
                 // Check table offsets
                 for (uint64_t i = 0; i < count; i++) {
                     const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
+                    int32_t off = (int32_t)cnd_il_peek_u32(entry_ptr);
                     target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
+                    if (target < 0 || target > len) return CND_ERR_OOB;
                 }
                 
                 instr_len = 7;
@@ -257,21 +141,16 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
             }
 
             default:
-                return CND_ERR_INVALID_OP;
-        }
-
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
+                break;
         }
 
         // Additional checks for JMP
         if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
             const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
+            int32_t offset = (int32_t)cnd_il_peek_u32(ptr);
             
             int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
+            if (target < 0 || target > len) {
                 return CND_ERR_OOB;
             }
         }
-- 
2.43.0


From de14a76436d689f195b13736df3f69cad6711f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 12/59] fix: the table driven CRC-32 starts from the reflected
 initial value

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 46d3745..5cb9e3d 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -550,7 +550,7 @@ static const uint32_t crc32_table[256] = {
 static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
-        uint32_t crc = init;
+        uint32_t crc = reflect(init, 32); // The register is kept reflected
         for (size_t i = 0; i < len; i++) {
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
-- 
2.43.0


From 647b5dffcc85b96b83d44615e3c2cd7b99a95c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 13/59] fix: remap and keep the key of every instruction, and
 only of instructions

---
 src/compiler/cnd_internal.h |   4 +
 src/compiler/cnd_utils.c    | 246 +++++++---------------------------
 src/compiler/cndc.c         | 256 ++++--------------------------------
 src/vm/il_layout.h          |  16 +++
 4 files changed, 98 insertions(+), 424 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..07306fc 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -8,6 +8,7 @@
 #include <ctype.h>
 #include "concordia.h"
 #include "compiler.h"
+#include "../vm/il_layout.h"
 
 #ifdef _WIN32
 #define strdup _strdup
@@ -141,6 +142,9 @@ void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
+// Replace every key ID in `code` by map(ctx, key)
+void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t key), void* ctx);
+
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..f226701 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -27,207 +27,63 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
-    
-    switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
-            return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
-        case OP_ENTER_STRUCT:
-        case OP_META_NAME:
-        case OP_META_VERSION:
-        case OP_IO_U8:
-        case OP_IO_U16:
-        case OP_IO_U32:
-        case OP_IO_U64:
-        case OP_IO_I8:
-        case OP_IO_I16:
-        case OP_IO_I32:
-        case OP_IO_I64:
-        case OP_IO_F32:
-        case OP_IO_F64:
-        case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_IO_BIT_U:
-        case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
-        case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
-        case OP_STR_PRE_U8:
-        case OP_STR_PRE_U16:
-        case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8:
-        case OP_ARR_PRE_U16:
-        case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
-        case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
-        case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
-        case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
-        default:
-            return -1; // Unknown/variable - can't process
+// Calls `map` on every key ID in `code` (in place), and stores what it returns.
+// Jump tables are data: they are stepped over.
+void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t key), void* ctx) {
+    uint8_t* is_table = calloc(len ? len : 1, 1);
+    size_t i = 0;
+    while (i < len) {
+        if (is_table[i]) { i++; continue; }
+
+        size_t size = cnd_il_instr_len(code, len, i);
+        if (size == 0 || size > len - i) break;
+
+        int keys = cnd_il_has_key(code[i]) ? (code[i] == OP_ARR_DYNAMIC ? 2 : 1) : 0;
+        for (int k = 0; k < keys; k++) {
+            uint8_t* at = code + i + 1 + 2 * k;
+            uint16_t key = map(ctx, cnd_il_peek_u16(at));
+            at[0] = key & 0xFF;
+            at[1] = (key >> 8) & 0xFF;
+        }
+
+        if (code[i] == OP_SWITCH || code[i] == OP_SWITCH_TABLE) {
+            size_t start, end;
+            if (cnd_il_switch_table(code, len, i, &start, &end)) memset(is_table + start, 1, end - start);
+        }
+        i += size;
     }
+    free(is_table);
+}
+
+typedef struct {
+    const char* prefix;
+    size_t prefix_len;
+    StringTable* strtab;
+} PrefixMap;
+
+static uint16_t add_key_prefix(void* ctx, uint16_t key) {
+    PrefixMap* m = ctx;
+    const char* old_name = (key < m->strtab->count) ? m->strtab->strings[key] : "";
+    size_t old_len = strlen(old_name);
+    size_t new_len = m->prefix_len + 1 + old_len;
+
+    char* new_name = malloc(new_len + 1);
+    memcpy(new_name, m->prefix, m->prefix_len);
+    new_name[m->prefix_len] = '.';
+    memcpy(new_name + m->prefix_len + 1, old_name, old_len + 1);
+
+    uint16_t new_key = strtab_add(m->strtab, new_name, (int)new_len);
+    free(new_name);
+    return new_key;
 }
 
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab) {
-    size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
-        
-        if (instr_size < 0 || i + instr_size > len) {
-            // Unknown opcode or would overflow - just copy rest verbatim
-            buf_append(b, src + i, len - i);
-            break;
-        }
-        
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
-        } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
-            }
-        }
-        
-        i += instr_size;
-    }
+    PrefixMap m = { prefix, (size_t)prefix_len, strtab };
+    size_t at = b->size;
+    buf_append(b, src, len);
+    bc_map_keys(b->data + at, len, add_key_prefix, &m);
 }
 
 // --- Buffer Implementation ---
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..f231568 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -3,255 +3,53 @@
 #include <string.h>
 #include "cnd_internal.h"
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
-    }
+typedef struct {
+    StringTable* old_tab;
+    uint8_t* used;
+    uint16_t* ids;
+} KeyUse;
+
+static uint16_t mark_key(void* ctx, uint16_t key) {
+    KeyUse* use = ctx;
+    if (key < use->old_tab->count) use->used[key] = 1;
+    return key;
+}
+
+static uint16_t renumber_key(void* ctx, uint16_t key) {
+    KeyUse* use = ctx;
+    return key < use->old_tab->count ? use->ids[key] : key;
 }
 
+// Drop the strings that no instruction refers to
 static void optimize_strings(Parser* p) {
     if (p->strtab.count == 0) return;
 
     // 1. Mark used strings
-    uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
-    uint8_t* bc = p->global_bc.data;
-    size_t len = p->global_bc.size;
-
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
-        }
-
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    KeyUse use;
+    use.old_tab = &p->strtab;
+    use.used = calloc(p->strtab.count, 1);
+    use.ids = calloc(p->strtab.count, sizeof(uint16_t));
+    bc_map_keys(p->global_bc.data, p->global_bc.size, mark_key, &use);
 
     // 2. Build new string table and map
-    uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
     StringTable new_tab;
     strtab_init(&new_tab);
 
     for (size_t i = 0; i < p->strtab.count; i++) {
-        if (used[i]) {
-            uint16_t new_id = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
-            map[i] = new_id;
-        } else {
-            map[i] = 0; // Should not be used
+        if (use.used[i]) {
+            use.ids[i] = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
         }
     }
 
     // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
-
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    bc_map_keys(p->global_bc.data, p->global_bc.size, renumber_key, &use);
 
     // Replace string table
-    for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
-    free(p->strtab.strings);
+    strtab_free(&p->strtab);
     p->strtab = new_tab;
 
-    free(used);
-    free(map);
+    free(use.used);
+    free(use.ids);
 }
 
 // Implementation of cnd_compile_file using the new modular structure
diff --git a/src/vm/il_layout.h b/src/vm/il_layout.h
index f583b6a..09f96b4 100644
--- a/src/vm/il_layout.h
+++ b/src/vm/il_layout.h
@@ -106,6 +106,22 @@ static inline size_t cnd_il_instr_len(const uint8_t* bc, size_t len, size_t ip)
     }
 }
 
+// Does the instruction name a key (a u16 right after the opcode)?
+static inline bool cnd_il_has_key(uint8_t op) {
+    switch (op) {
+        case OP_META_NAME: case OP_ENTER_STRUCT:
+        case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL:
+        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF: case OP_ARR_DYNAMIC: case OP_RAW_BYTES:
+        case OP_CONST_CHECK: case OP_SWITCH: case OP_SWITCH_TABLE:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            return true;
+        default:
+            return op >= OP_IO_U8 && op <= OP_IO_BOOL;
+    }
+}
+
 // For the complete OP_SWITCH / OP_SWITCH_TABLE instruction at `ip`: where its
 // jump table starts and ends. Returns false if the table is not inside the
 // program.
-- 
2.43.0


From b2f830fe8b774efd4fdfb075fbe9f196f9c50e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 14/59] fix: a bool bit field has no width operand, bit widths
 must fit the type

---
 src/compiler/cnd_parser.c | 42 ++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..3df1e5d 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -727,6 +727,20 @@ void parse_switch(Parser* p) {
     if(jump_fixups) free(jump_fixups);
 }
 
+// Number of bits of a type that can be a bit field, 0 for all other types
+static uint32_t get_type_bits(Token t) {
+    if (match_keyword(t, "bool")) return 1;
+    if (match_keyword(t, "uint8") || match_keyword(t, "byte") || match_keyword(t, "u8") ||
+        match_keyword(t, "int8") || match_keyword(t, "i8")) return 8;
+    if (match_keyword(t, "uint16") || match_keyword(t, "u16") ||
+        match_keyword(t, "int16") || match_keyword(t, "i16")) return 16;
+    if (match_keyword(t, "uint32") || match_keyword(t, "u32") ||
+        match_keyword(t, "int32") || match_keyword(t, "i32")) return 32;
+    if (match_keyword(t, "uint64") || match_keyword(t, "u64") ||
+        match_keyword(t, "int64") || match_keyword(t, "i64")) return 64;
+    return 0;
+}
+
 void parse_field(Parser* p, const char* doc) {
     (void)doc;
     if (p->had_error) return;
@@ -1004,8 +1018,17 @@ void parse_field(Parser* p, const char* doc) {
 
     uint8_t bit_width = 0;
     if (p->current.type == TOK_COLON) {
-        advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        bit_width = (uint8_t)parse_number_u32(p->previous.start, p->previous.length);
+        advance(p);
+        Token width_tok = p->current;
+        consume(p, TOK_NUMBER, "Expect bit width");
+        uint32_t width = width_tok.type == TOK_NUMBER ? parse_number_u32(width_tok.start, width_tok.length) : 0;
+        uint32_t max_width = get_type_bits(type_tok);
+        if (max_width == 0) max_width = 64; // Types without bit fields are refused below
+        if (width == 0 || width > max_width || *width_tok.start == '-') {
+            parser_error(p, "Bit width does not fit the field type");
+            return;
+        }
+        bit_width = (uint8_t)width;
     }
 
     int is_array_field = 0; 
@@ -1205,17 +1228,7 @@ void parse_field(Parser* p, const char* doc) {
         } else {
             uint8_t op = OP_NOOP;
             
-            if (p->in_bit_mode && bit_width == 0) {
-                 if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "byte") || match_keyword(type_tok, "u8") ||
-                     match_keyword(type_tok, "int8") || match_keyword(type_tok, "i8")) bit_width = 8;
-                 else if (match_keyword(type_tok, "uint16") || match_keyword(type_tok, "u16") ||
-                          match_keyword(type_tok, "int16") || match_keyword(type_tok, "i16")) bit_width = 16;
-                 else if (match_keyword(type_tok, "uint32") || match_keyword(type_tok, "u32") ||
-                          match_keyword(type_tok, "int32") || match_keyword(type_tok, "i32")) bit_width = 32;
-                 else if (match_keyword(type_tok, "uint64") || match_keyword(type_tok, "u64") ||
-                          match_keyword(type_tok, "int64") || match_keyword(type_tok, "i64")) bit_width = 64;
-                 else if (match_keyword(type_tok, "bool")) bit_width = 1;
-            }
+            if (p->in_bit_mode && bit_width == 0) bit_width = (uint8_t)get_type_bits(type_tok);
 
             if (bit_width > 0) {
                  if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "byte") || match_keyword(type_tok, "u8") ||
@@ -1235,7 +1248,8 @@ void parse_field(Parser* p, const char* doc) {
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width);
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
-- 
2.43.0


From 36f7499bbe5d7976d8b90deba84646f77e6e707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 15/59] fix: a byte order decorator holds for its field only,
 whatever the surrounding order

---
 src/compiler/cnd_internal.h |  4 ++++
 src/compiler/cnd_parser.c   | 27 +++++++++++++++-------
 src/compiler/cnd_utils.c    | 46 +++++++++++++++++++++++++++++--------
 src/compiler/cndc.c         |  1 +
 4 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 07306fc..e645af4 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -145,6 +145,9 @@ uint16_t strtab_add(StringTable* t, const char* start, int len);
 // Replace every key ID in `code` by map(ctx, key)
 void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t key), void* ctx);
 
+// Resolve the byte order placeholders of struct bytecode
+void bc_set_outer_order(uint8_t* code, size_t len, uint8_t order_op);
+
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab);
@@ -249,6 +252,7 @@ typedef struct {
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
     int pending_be;        // Flag: Next struct is @big_endian
     int pending_le;        // Flag: Next struct is @little_endian
+    uint8_t outer_order;   // Instruction for the byte order in force (OP_NOOP in a struct: that of its surroundings)
     int in_bit_mode;       // Flag: Currently parsing inside @unaligned_bytes struct
     
     // Bit Tracking for Validation
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 3df1e5d..5507350 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -767,7 +767,7 @@ void parse_field(Parser* p, const char* doc) {
     int has_fixed_array_count = 0;
     uint64_t const_val = 0;
     int has_const = 0;
-    int is_big_endian_field = 0;
+    uint8_t field_order = p->outer_order;
     int is_standalone_op = 0;
     
     int has_range = 0;
@@ -810,9 +810,9 @@ void parse_field(Parser* p, const char* doc) {
         consume(p, TOK_IDENTIFIER, "Expect decorator name");
         
         if (match_keyword(dec_name_token, "big_endian") || match_keyword(dec_name_token, "be")) {
-            is_big_endian_field = 1;
+            field_order = OP_SET_ENDIAN_BE;
         } else if (match_keyword(dec_name_token, "little_endian") || match_keyword(dec_name_token, "le")) {
-             is_big_endian_field = 0;
+             field_order = OP_SET_ENDIAN_LE;
         } else if (match_keyword(dec_name_token, "fill")) {
             is_standalone_op = 1;
             uint8_t fill_val = 0;
@@ -1084,7 +1084,7 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
+    if (field_order != p->outer_order) { buf_push(p->target, field_order); }
 
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
@@ -1188,8 +1188,10 @@ void parse_field(Parser* p, const char* doc) {
             field_name[field_name_len] = '\0';
             
             // Append struct bytecode with field names prefixed
+            size_t body = buf_current_offset(p->target);
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                    field_name, field_name_len, &p->strtab);
+            bc_set_outer_order(p->target->data + body, p->target->size - body, field_order);
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1305,7 +1307,7 @@ void parse_field(Parser* p, const char* doc) {
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_LE); }
+    if (field_order != p->outer_order) { buf_push(p->target, p->outer_order); }
 }
 
 void parse_block(Parser* p) {
@@ -1454,10 +1456,13 @@ void parse_struct(Parser* p, const char* doc) {
     int was_in_bit_mode = p->in_bit_mode;
     int prev_bit_count = p->current_bit_count;
     int prev_bit_valid = p->is_bit_count_valid;
+    uint8_t prev_order = p->outer_order;
+    p->outer_order = OP_NOOP;
 
     if (p->pending_unaligned) {
         buf_push(p->target, OP_ENTER_BIT_MODE);
-        buf_push(p->target, OP_SET_ENDIAN_BE);
+        p->outer_order = OP_SET_ENDIAN_BE;
+        buf_push(p->target, p->outer_order);
         p->in_bit_mode = 1;
         p->pending_unaligned = 0;
         p->current_bit_count = 0;
@@ -1480,11 +1485,13 @@ void parse_struct(Parser* p, const char* doc) {
             parser_error(p, msg);
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
+        buf_push(p->target, OP_NOOP); // Byte order of the surroundings
         p->in_bit_mode = 0;
     }
     p->in_bit_mode = was_in_bit_mode;
     p->current_bit_count = prev_bit_count;
     p->is_bit_count_valid = prev_bit_valid;
+    p->outer_order = prev_order;
 
     p->target = prev;
 
@@ -1526,7 +1533,9 @@ void parse_packet(Parser* p, const char* doc) {
             parser_error(p, "Struct not found");
         } else {
             // Inline the struct's bytecode
+            size_t body = buf_current_offset(p->target);
             buf_append(p->target, sdef->bytecode.data, sdef->bytecode.size);
+            bc_set_outer_order(p->target->data + body, p->target->size - body, p->outer_order);
         }
     } else {
         strtab_init(&p->current_struct_fields);
@@ -1652,9 +1661,11 @@ void parse_top_level(Parser* p) {
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
             } else if (match_keyword(dec, "big_endian")) {
-                buf_push(p->target, OP_SET_ENDIAN_BE);
+                p->outer_order = OP_SET_ENDIAN_BE;
+                buf_push(p->target, p->outer_order);
             } else if (match_keyword(dec, "little_endian") || match_keyword(dec, "le")) {
-                buf_push(p->target, OP_SET_ENDIAN_LE);
+                p->outer_order = OP_SET_ENDIAN_LE;
+                buf_push(p->target, p->outer_order);
             } else if (match_keyword(dec, "unaligned_bytes")) {
                 p->pending_unaligned = 1;
             } else {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f226701..d4ee6c8 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -27,9 +27,9 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Calls `map` on every key ID in `code` (in place), and stores what it returns.
-// Jump tables are data: they are stepped over.
-void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t key), void* ctx) {
+// Calls `visit` on every instruction in `code`. Jump tables are data: they are
+// stepped over.
+static void bc_visit(uint8_t* code, size_t len, void (*visit)(void* ctx, uint8_t* instr), void* ctx) {
     uint8_t* is_table = calloc(len ? len : 1, 1);
     size_t i = 0;
     while (i < len) {
@@ -38,13 +38,7 @@ void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t
         size_t size = cnd_il_instr_len(code, len, i);
         if (size == 0 || size > len - i) break;
 
-        int keys = cnd_il_has_key(code[i]) ? (code[i] == OP_ARR_DYNAMIC ? 2 : 1) : 0;
-        for (int k = 0; k < keys; k++) {
-            uint8_t* at = code + i + 1 + 2 * k;
-            uint16_t key = map(ctx, cnd_il_peek_u16(at));
-            at[0] = key & 0xFF;
-            at[1] = (key >> 8) & 0xFF;
-        }
+        visit(ctx, code + i);
 
         if (code[i] == OP_SWITCH || code[i] == OP_SWITCH_TABLE) {
             size_t start, end;
@@ -55,6 +49,38 @@ void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t
     free(is_table);
 }
 
+typedef struct {
+    uint16_t (*map)(void* ctx, uint16_t key);
+    void* ctx;
+} KeyMap;
+
+static void map_instr_keys(void* ctx, uint8_t* instr) {
+    KeyMap* m = ctx;
+    int keys = cnd_il_has_key(instr[0]) ? (instr[0] == OP_ARR_DYNAMIC ? 2 : 1) : 0;
+    for (int k = 0; k < keys; k++) {
+        uint8_t* at = instr + 1 + 2 * k;
+        uint16_t key = m->map(m->ctx, cnd_il_peek_u16(at));
+        at[0] = key & 0xFF;
+        at[1] = (key >> 8) & 0xFF;
+    }
+}
+
+// Replaces every key ID in `code` (in place) by what `map` returns for it.
+void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t key), void* ctx) {
+    KeyMap m = { map, ctx };
+    bc_visit(code, len, map_instr_keys, &m);
+}
+
+static void set_instr_order(void* ctx, uint8_t* instr) {
+    if (instr[0] == OP_NOOP) instr[0] = *(uint8_t*)ctx;
+}
+
+// Struct bytecode has an OP_NOOP where the byte order of its surroundings comes
+// back into force: replaces it by the instruction that does that.
+void bc_set_outer_order(uint8_t* code, size_t len, uint8_t order_op) {
+    bc_visit(code, len, set_instr_order, &order_op);
+}
+
 typedef struct {
     const char* prefix;
     size_t prefix_len;
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index f231568..2c6344e 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -79,6 +79,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     reg_init(&p.registry);
     enum_reg_init(&p.enums);
     p.target = &p.global_bc;
+    p.outer_order = OP_SET_ENDIAN_LE;
     p.current_path = open_path;
     p.json_output = json_output;
     p.verbose = verbose;
-- 
2.43.0


From 8fa1b0a308cca687c6f59ef7556c2bc02fee8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 16/59] fix: unary operators, groups, a-1 and hex literals in
 expressions

---
 src/compiler/cnd_parser.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 5507350..1bb24aa 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -41,6 +41,8 @@ static ExprType parse_grouping(Parser* p);
 ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
+    int sign = t.length > 0 && t.start[0] == '-';
+    if (t.length > sign + 1 && t.start[sign] == '0' && (t.start[sign + 1] == 'x' || t.start[sign + 1] == 'X')) return 0;
     for (int i = 0; i < t.length; i++) {
         if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
     }
@@ -48,8 +50,7 @@ static int is_float_literal(Token t) {
 }
 
 static ExprType parse_unary(Parser* p) {
-    TokenType op = p->current.type;
-    advance(p);
+    TokenType op = p->previous.type;
     ExprType t = parse_precedence(p, PREC_UNARY);
     switch (op) {
         case TOK_BANG: buf_push(p->target, OP_LOG_NOT); return TYPE_INT;
@@ -123,13 +124,12 @@ static ExprType parse_binary(Parser* p, ExprType left) {
 }
 
 static ExprType parse_grouping(Parser* p) {
-    advance(p); // Consume (
     ExprType t = parse_expression(p);
     consume(p, TOK_RPAREN, "Expect ) after expression");
     return t;
 }
 
-static ParseRule rules[] = {
+static ParseRule rules[TOK_ERROR + 1] = {
     [TOK_LPAREN]    = {parse_grouping, NULL, PREC_NONE},
     [TOK_MINUS]     = {parse_unary, parse_binary, PREC_TERM},
     [TOK_PLUS]      = {NULL, parse_binary, PREC_TERM},
@@ -166,6 +166,15 @@ ExprType parse_expression(Parser* p) {
     return parse_precedence(p, PREC_OR);
 }
 
+// The lexer reads "a -1" as two operands: after an operand, '-' is an operator
+static void split_minus(Parser* p) {
+    if (p->current.type == TOK_NUMBER && *p->current.start == '-') {
+        p->lexer.current = p->current.start + 1;
+        p->current.type = TOK_MINUS;
+        p->current.length = 1;
+    }
+}
+
 static ExprType parse_precedence(Parser* p, Precedence prec) {
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
@@ -176,10 +185,12 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
 
     ExprType left = prefix_rule(p);
 
+    split_minus(p);
     while (prec <= get_rule(p->current.type)->precedence) {
         advance(p);
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
+        split_minus(p);
     }
     return left;
 }
-- 
2.43.0


From dfb90a0d1356bdc54f3d5c8f2813c7a9d8a9c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:19 +0000
Subject: [PATCH 17/59] fix: refuse numbers that do not fit what they are used
 for, and arrays without a length

---
 src/compiler/cnd_parser.c | 141 +++++++++++++++++++++++++-------------
 1 file changed, 93 insertions(+), 48 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 1bb24aa..532f389 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -290,7 +290,46 @@ int match_keyword(Token t, const char* kw) {
 
 
 
+// Is the token an integer literal that a value of type `type_op` can hold?
+static int int_literal_fits(Token t, uint8_t type_op) {
+    if (t.type != TOK_NUMBER) return 0;
+    const char* s = t.start;
+    const char* end = t.start + t.length;
+    int neg = (s < end && *s == '-');
+    if (neg) s++;
+    int hex = (end - s > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'));
+    if (hex) s += 2;
+
+    uint64_t val = 0;
+    for (; s < end; s++) {
+        if (!(hex ? is_hex_c(*s) : is_digit_c(*s))) return 0;
+        uint64_t digit = (uint64_t)hex_char_to_int(*s);
+        uint64_t base = hex ? 16 : 10;
+        if (val > (UINT64_MAX - digit) / base) return 0;
+        val = val * base + digit;
+    }
+
+    int is_signed = type_op >= OP_IO_I8 && type_op <= OP_IO_I64;
+    uint64_t max = UINT64_MAX >> (64 - 8 * cnd_il_type_size(type_op));
+    if (is_signed) max >>= 1;
+    if (neg) return is_signed ? val <= max + 1 : val == 0;
+    return val <= max;
+}
+
+static void check_int_literal(Parser* p, Token t, uint8_t type_op) {
+    if (t.type == TOK_NUMBER && !int_literal_fits(t, type_op)) {
+        parser_error(p, "Number is not an integer in the allowed range");
+    }
+}
+
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
+    if (type_op == OP_IO_BOOL) { parser_error(p, "Cannot apply range check to bool"); return; }
+    if (cnd_il_type_is_int(type_op)) {
+        check_int_literal(p, min_tok, type_op);
+        check_int_literal(p, max_tok, type_op);
+        if (p->had_error) return;
+    }
+
     // Validate range
     if (type_op == OP_IO_U8 || type_op == OP_IO_U16 || type_op == OP_IO_U32) {
         uint32_t min = parse_number_u32(min_tok.start, min_tok.length);
@@ -553,6 +592,7 @@ void parse_switch(Parser* p) {
             
             uint64_t val = 0;
             if (p->current.type == TOK_NUMBER) {
+                if (!int_literal_fits(p->current, OP_IO_I64)) check_int_literal(p, p->current, OP_IO_U64);
                 val = (uint64_t)parse_number_i64(p->current.start, p->current.length);
                 advance(p);
             } else if (p->current.type == TOK_IDENTIFIER) {
@@ -582,6 +622,8 @@ void parse_switch(Parser* p) {
                 } else {
                     parser_error(p, "Expect . after Enum name (Enum.Value)");
                 }
+            } else {
+                parser_error(p, "Expect case value");
             }
             
             consume(p, TOK_COLON, "Expect : after case value");
@@ -622,6 +664,7 @@ void parse_switch(Parser* p) {
 
         } else if (p->current.type == TOK_DEFAULT) {
             advance(p); consume(p, TOK_COLON, "Expect :");
+            if (default_offset != -1) parser_error(p, "Duplicate default");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
             if (p->current.type == TOK_LBRACE) {
@@ -777,6 +820,7 @@ void parse_field(Parser* p, const char* doc) {
     uint32_t array_fixed_count = 0;
     int has_fixed_array_count = 0;
     uint64_t const_val = 0;
+    Token const_tok = {0};
     int has_const = 0;
     uint8_t field_order = p->outer_order;
     int is_standalone_op = 0;
@@ -831,10 +875,11 @@ void parse_field(Parser* p, const char* doc) {
                 advance(p);
                 Token num = p->current;
                 consume(p, TOK_NUMBER, "Expect fill bit value (0 or 1)");
-                fill_val = (uint8_t)parse_number_u32(num.start, num.length);
-                if (fill_val > 1) {
+                uint32_t fill_bit = parse_number_u32(num.start, num.length);
+                if (!int_literal_fits(num, OP_IO_U32) || fill_bit > 1) {
                     parser_error(p, "Fill bit must be 0 or 1");
                 }
+                fill_val = (uint8_t)fill_bit;
                 consume(p, TOK_RPAREN, "Expect )");
             }
             buf_push(p->target, OP_ALIGN_FILL);
@@ -867,16 +912,19 @@ void parse_field(Parser* p, const char* doc) {
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
                     advance(p);
+                    check_int_literal(p, num, OP_IO_U32);
                     array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
                 } else {
                     parser_error(p, "Expect number or variable name for count");
                 }
             } else if (match_keyword(dec_name_token, "const") || match_keyword(dec_name_token, "match")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect const/match value");
+                const_tok = num;
                 const_val = (uint64_t)parse_number_i64(num.start, num.length); has_const = 1;
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
+                check_int_literal(p, num, OP_IO_U8);
                 uint32_t pad_bits = parse_number_u32(num.start, num.length); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
                     p->current_bit_count += pad_bits;
@@ -905,15 +953,19 @@ void parse_field(Parser* p, const char* doc) {
                 if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
+                check_int_literal(p, num, OP_IO_I64);
                 trans_type = CND_TRANS_MUL_I64; trans_int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
+                check_int_literal(p, num, OP_IO_I64);
                 trans_type = CND_TRANS_DIV_I64; trans_int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
+                check_int_literal(p, num, OP_IO_I64);
                 trans_type = CND_TRANS_ADD_I64; trans_int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
+                check_int_literal(p, num, OP_IO_I64);
                 trans_type = CND_TRANS_SUB_I64; trans_int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "poly")) {
                 trans_type = CND_TRANS_POLY;
@@ -1054,6 +1106,7 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
+            check_int_literal(p, num, OP_IO_U32);
             array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
@@ -1086,7 +1139,11 @@ void parse_field(Parser* p, const char* doc) {
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
         if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
-        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); check_int_literal(p, max_tok, OP_IO_U16); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+    }
+
+    if (is_array_field && arr_prefix_op == OP_NOOP && !has_eof && !has_count_ref && !has_fixed_array_count) {
+        parser_error(p, "Array must specify its length: a size, 'prefix', @count or @eof");
     }
 
     if (is_array_field && match_keyword(type_tok, "string")) {
@@ -1115,53 +1172,30 @@ void parse_field(Parser* p, const char* doc) {
 
     if (has_const) {
         uint8_t type_op = OP_IO_U16;
-        int is_signed = 0;
-        int width = 0; // 1, 2, 4, 8
         int found = 0;
 
-        #define CHECK_TYPE(t1, t2, t3, op, w, s) \
+        #define CHECK_TYPE(t1, t2, t3, op) \
             if (!found && (match_keyword(type_tok, t1) || (t2 && match_keyword(type_tok, t2)) || (t3 && match_keyword(type_tok, t3)))) { \
-                type_op = op; width = w; is_signed = s; found = 1; \
+                type_op = op; found = 1; \
             }
 
-        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8, 1, 0)
-        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8, 1, 1)
-        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16, 2, 0)
-        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16, 2, 1)
-        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32, 4, 0)
-        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32, 4, 1)
-        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64, 8, 0)
-        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64, 8, 1)
+        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8)
+        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8)
+        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16)
+        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16)
+        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32)
+        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32)
+        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64)
+        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64)
 
         if (!found) {
              parser_error(p, "Const not supported for this type");
         }
         #undef CHECK_TYPE
-
-        // Validation
-        if (is_signed) {
-            int64_t val_i64 = (int64_t)const_val;
-            int64_t min = 0, max = 0;
-            if (width == 1) { min = -128; max = 127; }
-            else if (width == 2) { min = -32768; max = 32767; }
-            else if (width == 4) { min = -2147483648LL; max = 2147483647LL; }
-            else { min = INT64_MIN; max = INT64_MAX; }
-            
-            if (val_i64 < min || val_i64 > max) {
-                parser_error(p, "Const value out of range for signed type");
-            }
-        } else {
-            uint64_t val_u64 = const_val;
-            uint64_t max = 0;
-            if (width == 1) max = 255;
-            else if (width == 2) max = 65535;
-            else if (width == 4) max = 4294967295ULL;
-            else max = UINT64_MAX;
-            
-            if (val_u64 > max) {
-                parser_error(p, "Const value out of range for unsigned type");
-            }
+        else if (!int_literal_fits(const_tok, type_op)) {
+            parser_error(p, "Const value out of range for the field type");
         }
+        if (bit_width > 0 || p->in_bit_mode) { parser_error(p, "Const not supported for bit fields"); }
         
         buf_push(p->target, OP_CONST_CHECK); 
         buf_push_u16(p->target, key_id);
@@ -1192,16 +1226,10 @@ void parse_field(Parser* p, const char* doc) {
 
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
-            // Get the field name for prefixing nested fields
-            char field_name[256];
-            int field_name_len = name_tok.length < 255 ? name_tok.length : 255;
-            memcpy(field_name, name_tok.start, field_name_len);
-            field_name[field_name_len] = '\0';
-            
             // Append struct bytecode with field names prefixed
             size_t body = buf_current_offset(p->target);
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
-                                   field_name, field_name_len, &p->strtab);
+                                   name_tok.start, name_tok.length, &p->strtab);
             bc_set_outer_order(p->target->data + body, p->target->size - body, field_order);
             
             buf_push(p->target, OP_EXIT_STRUCT);
@@ -1343,6 +1371,20 @@ void parse_block(Parser* p) {
     sb_free(&doc_sb);
 }
 
+// `val` is the value after an explicit one, or after another such value
+static int enum_value_fits(int64_t val, uint8_t type_op) {
+    switch (type_op) {
+        case OP_IO_U8:  return val >= 0 && val <= UINT8_MAX;
+        case OP_IO_U16: return val >= 0 && val <= UINT16_MAX;
+        case OP_IO_U32: return val >= 0 && val <= UINT32_MAX;
+        case OP_IO_I8:  return val >= INT8_MIN && val <= INT8_MAX;
+        case OP_IO_I16: return val >= INT16_MIN && val <= INT16_MAX;
+        case OP_IO_I32: return val >= INT32_MIN && val <= INT32_MAX;
+        case OP_IO_I64: return val != INT64_MIN;
+        default: return 1;
+    }
+}
+
 void parse_enum(Parser* p, const char* doc) {
     Token name = p->current; consume(p, TOK_IDENTIFIER, "Expect enum name");
     
@@ -1407,7 +1449,10 @@ void parse_enum(Parser* p, const char* doc) {
             advance(p);
             Token num = p->current;
             consume(p, TOK_NUMBER, "Expect enum value");
+            if (!int_literal_fits(num, def->underlying_type)) parser_error(p, "Enum value out of range for the underlying type");
             val = parse_number_i64(num.start, num.length);
+        } else if (!enum_value_fits(val, def->underlying_type)) {
+            parser_error(p, "Enum value out of range for the underlying type");
         }
         
         // Check for duplicate value
@@ -1430,7 +1475,7 @@ void parse_enum(Parser* p, const char* doc) {
         sb_reset(&val_doc_sb); // Reset for next
         def->count++;
         
-        next_val = val + 1;
+        next_val = (int64_t)((uint64_t)val + 1);
         
         if (p->current.type == TOK_COMMA) advance(p);
     }
@@ -1666,7 +1711,7 @@ void parse_top_level(Parser* p) {
             Token dec = p->current; consume(p, TOK_IDENTIFIER, "Expect decorator name");
             
             if (match_keyword(dec, "version")) {
-                consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number");
+                consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number"); check_int_literal(p, ver, OP_IO_U8);
                 uint32_t v = parse_number_u32(ver.start, ver.length); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
-- 
2.43.0


From 742c0bec7b15fef1d642136168ce643954c0e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:36 +0000
Subject: [PATCH 18/59] fix: transform every array element, convert computed
 fields, refuse decorators that have no effect

---
 src/compiler/cnd_parser.c | 178 ++++++++++++++++++++++++--------------
 1 file changed, 113 insertions(+), 65 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 532f389..f299c62 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -195,8 +195,6 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
     return left;
 }
 
-static char* append_doc(char* current, Token t);
-
 void parser_error(Parser* p, const char* msg) {
     p->had_error = 1;
     p->error_count++;
@@ -548,6 +546,8 @@ void parse_if(Parser* p) {
         }
     }
     
+    p->is_bit_count_valid = 0; // Depends on the branch taken
+
     // Patch jump_end
     size_t end_loc = buf_current_offset(p->target);
     int32_t end_offset = (int32_t)(end_loc - (jump_end_loc + 1 + 4));
@@ -690,6 +690,8 @@ void parse_switch(Parser* p) {
     }
     consume(p, TOK_RBRACE, "Expect }");
     
+    p->is_bit_count_valid = 0; // Depends on the case taken
+
     // Analyze cases for Jump Table optimization
     int use_jump_table = 0;
     uint64_t min_val = UINT64_MAX;
@@ -795,6 +797,50 @@ static uint32_t get_type_bits(Token t) {
     return 0;
 }
 
+typedef struct {
+    cnd_trans_t type;
+    double scale;
+    double offset;
+    int64_t int_val;
+    double poly_coeffs[16];
+    uint8_t poly_count;
+    double spline_points[32]; // x0, y0, x1, y1...
+    uint8_t spline_count; // Number of points (pairs)
+} FieldTransform;
+
+static void push_double(Buffer* b, double val) {
+    uint64_t bits;
+    memcpy(&bits, &val, 8);
+    buf_push_u64(b, bits);
+}
+
+// Applies to the next value read or written, so it is emitted right before it
+static void emit_transform(Buffer* b, const FieldTransform* t) {
+    switch (t->type) {
+        case CND_TRANS_SCALE_F64:
+            buf_push(b, OP_SCALE_LIN);
+            push_double(b, t->scale);
+            push_double(b, t->offset);
+            break;
+        case CND_TRANS_MUL_I64: buf_push(b, OP_TRANS_MUL); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_DIV_I64: buf_push(b, OP_TRANS_DIV); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_ADD_I64: buf_push(b, OP_TRANS_ADD); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_SUB_I64: buf_push(b, OP_TRANS_SUB); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_POLY:
+            buf_push(b, OP_TRANS_POLY);
+            buf_push(b, t->poly_count);
+            for (int i = 0; i < t->poly_count; i++) push_double(b, t->poly_coeffs[i]);
+            break;
+        case CND_TRANS_SPLINE:
+            buf_push(b, OP_TRANS_SPLINE);
+            buf_push(b, t->spline_count);
+            for (int i = 0; i < t->spline_count * 2; i++) push_double(b, t->spline_points[i]);
+            break;
+        default:
+            break;
+    }
+}
+
 void parse_field(Parser* p, const char* doc) {
     (void)doc;
     if (p->had_error) return;
@@ -829,16 +875,8 @@ void parse_field(Parser* p, const char* doc) {
     Token range_min_tok = {0};
     Token range_max_tok = {0};
     
-    // Transform state
-    cnd_trans_t trans_type = CND_TRANS_NONE;
-    double trans_scale = 1.0;
-    double trans_offset = 0.0;
-    int64_t trans_int_val = 0;
-    double poly_coeffs[16];
-    uint8_t poly_count = 0;
-    
-    double spline_points[32]; // x0, y0, x1, y1...
-    uint8_t spline_count = 0; // Number of points (pairs)
+    FieldTransform trans = {0};
+    trans.scale = 1.0;
 
     // CRC State
     int has_crc = 0;
@@ -847,8 +885,10 @@ void parse_field(Parser* p, const char* doc) {
     uint32_t crc_init = 0;
     uint32_t crc_xor = 0;
     uint8_t crc_flags = 0;
+    int has_crc_poly = 0, has_crc_init = 0, has_crc_xor = 0;
 
     int has_expr = 0;
+    ExprType expr_type = TYPE_UNKNOWN;
     int has_eof = 0;
     int has_count_ref = 0;
     uint16_t count_ref_id = 0;
@@ -886,8 +926,9 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, fill_val);
             
             // Reset bit count on fill (aligns to byte)
-            if (p->in_bit_mode && p->is_bit_count_valid) {
+            if (p->in_bit_mode) {
                 p->current_bit_count = 0;
+                p->is_bit_count_valid = 1;
             }
         } else if (match_keyword(dec_name_token, "crc_refin")) {
             crc_flags |= 1;
@@ -937,44 +978,46 @@ void parse_field(Parser* p, const char* doc) {
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
                 crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
-                if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
-                else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
+                if (crc_width != 16 && crc_width != 32) { parser_error(p, "CRC width must be 16 or 32"); }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); check_int_literal(p, num, OP_IO_U32);
+                crc_poly = parse_number_u32(num.start, num.length); has_crc_poly = 1;
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); check_int_literal(p, num, OP_IO_U32);
+                crc_init = parse_number_u32(num.start, num.length); has_crc_init = 1;
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); check_int_literal(p, num, OP_IO_U32);
+                crc_xor = parse_number_u32(num.start, num.length); has_crc_xor = 1;
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
-                trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
+                trans.type = CND_TRANS_SCALE_F64; trans.scale = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "offset")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect offset value");
-                if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
+                if (trans.type != CND_TRANS_SCALE_F64) { trans.type = CND_TRANS_SCALE_F64; trans.scale = 1.0; } trans.offset = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
                 check_int_literal(p, num, OP_IO_I64);
-                trans_type = CND_TRANS_MUL_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans.type = CND_TRANS_MUL_I64; trans.int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
                 check_int_literal(p, num, OP_IO_I64);
-                trans_type = CND_TRANS_DIV_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans.type = CND_TRANS_DIV_I64; trans.int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
                 check_int_literal(p, num, OP_IO_I64);
-                trans_type = CND_TRANS_ADD_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans.type = CND_TRANS_ADD_I64; trans.int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
                 check_int_literal(p, num, OP_IO_I64);
-                trans_type = CND_TRANS_SUB_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans.type = CND_TRANS_SUB_I64; trans.int_val = parse_number_i64(num.start, num.length);
             } else if (match_keyword(dec_name_token, "poly")) {
-                trans_type = CND_TRANS_POLY;
+                trans.type = CND_TRANS_POLY;
                 while (true) {
                     Token num = p->current;
                     if (num.type == TOK_NUMBER) {
                         advance(p);
-                        if (poly_count < 16) {
-                            poly_coeffs[poly_count++] = parse_number_double(num.start, num.length);
+                        if (trans.poly_count < 16) {
+                            trans.poly_coeffs[trans.poly_count++] = parse_number_double(num.start, num.length);
                         } else {
                             parser_error(p, "Too many polynomial coefficients (max 16)");
                         }
@@ -988,18 +1031,18 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "spline")) {
-                trans_type = CND_TRANS_SPLINE;
+                trans.type = CND_TRANS_SPLINE;
                 while (true) {
                     Token num = p->current;
                     if (num.type == TOK_NUMBER) {
                         advance(p);
-                        if (spline_count < 16) { // 16 pairs = 32 doubles
-                            spline_points[spline_count * 2] = parse_number_double(num.start, num.length);
+                        if (trans.spline_count < 16) { // 16 pairs = 32 doubles
+                            trans.spline_points[trans.spline_count * 2] = parse_number_double(num.start, num.length);
                             consume(p, TOK_COMMA, "Expect comma between x and y");
                             Token y_tok = p->current;
                             consume(p, TOK_NUMBER, "Expect y value");
-                            spline_points[spline_count * 2 + 1] = parse_number_double(y_tok.start, y_tok.length);
-                            spline_count++;
+                            trans.spline_points[trans.spline_count * 2 + 1] = parse_number_double(y_tok.start, y_tok.length);
+                            trans.spline_count++;
                         } else {
                             parser_error(p, "Too many spline points (max 16)");
                         }
@@ -1013,7 +1056,8 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "expr")) {
-                parse_expression(p);
+                if (has_expr) { parser_error(p, "Only one @expr per field"); }
+                expr_type = parse_expression(p);
                 has_expr = 1;
             } else { 
                 parser_error(p, "Unknown decorator");
@@ -1028,35 +1072,14 @@ void parse_field(Parser* p, const char* doc) {
         return;
     }
     
-    // Emit CRC
+    // The parameters that were not given, in whatever order the others were
     if (has_crc) {
-        // Do nothing here, wait until type is parsed
-    }
-    
-    // Emit Transform Op
-    if (trans_type == CND_TRANS_SCALE_F64) {
-        buf_push(p->target, OP_SCALE_LIN);
-        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
-        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
-    } else if (trans_type == CND_TRANS_MUL_I64) {
-        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_DIV_I64) {
-        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_ADD_I64) {
-        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_SUB_I64) {
-        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_POLY) {
-        buf_push(p->target, OP_TRANS_POLY);
-        buf_push(p->target, poly_count);
-        for (int i = 0; i < poly_count; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
-        }
-    } else if (trans_type == CND_TRANS_SPLINE) {
-        buf_push(p->target, OP_TRANS_SPLINE);
-        buf_push(p->target, spline_count);
-        for (int i = 0; i < spline_count * 2; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
+        if (!has_crc_poly) crc_poly = crc_width == 16 ? 0x1021 : 0x04C11DB7;
+        if (!has_crc_init) crc_init = crc_width == 16 ? 0xFFFF : 0xFFFFFFFF;
+        if (!has_crc_xor) crc_xor = crc_width == 16 ? 0 : 0xFFFFFFFF;
+        if (crc_width == 32) crc_flags |= 3;
+        if (crc_width == 16 && (crc_poly > 0xFFFF || crc_init > 0xFFFF || crc_xor > 0xFFFF)) {
+            parser_error(p, "CRC16 parameters are 16 bits wide");
         }
     }
 
@@ -1152,6 +1175,14 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    if ((has_const || has_crc || has_expr) && trans.type != CND_TRANS_NONE) {
+        parser_error(p, "Cannot apply scale/transform to a const, CRC or computed field");
+    }
+    if (has_expr && (is_array_field || has_const || has_crc)) {
+        parser_error(p, "A computed field is a single value");
+    }
+    if (has_crc && has_const) { parser_error(p, "A CRC field cannot be const"); }
+
     if (field_order != p->outer_order) { buf_push(p->target, field_order); }
 
     if (arr_prefix_op != OP_NOOP) {
@@ -1210,6 +1241,9 @@ void parse_field(Parser* p, const char* doc) {
     } else {
         StructDef* sdef = reg_find(&p->registry, type_tok.start, type_tok.length);
         EnumDef* edef = enum_reg_find(&p->enums, type_tok.start, type_tok.length);
+        if (has_expr && (sdef || edef || match_keyword(type_tok, "string"))) {
+            parser_error(p, "Cannot compute a struct, enum or string field");
+        }
         
         if (sdef) {
             if (p->current_struct_name && 
@@ -1219,7 +1253,7 @@ void parse_field(Parser* p, const char* doc) {
                 return;
             }
             
-            if (trans_type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/transform to struct field"); }
+            if (trans.type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/transform to struct field"); }
             if (has_range) { parser_error(p, "Cannot apply range check to struct field"); }
             if (has_crc) { parser_error(p, "Cannot apply CRC to struct field"); }
             if (bit_width > 0) { parser_error(p, "Bitfields not supported for struct fields"); }
@@ -1234,7 +1268,7 @@ void parse_field(Parser* p, const char* doc) {
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
-            if (trans_type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/transform to enum field"); }
+            if (trans.type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/transform to enum field"); }
             if (has_crc) { parser_error(p, "Cannot apply CRC to enum field"); }
             if (bit_width > 0) { parser_error(p, "Bitfields not supported for enum fields"); }
             
@@ -1255,7 +1289,7 @@ void parse_field(Parser* p, const char* doc) {
             if (has_range) { emit_range_check(p, edef->underlying_type, range_min_tok, range_max_tok); }
         }
         else if (match_keyword(type_tok, "string")) {
-            if (trans_type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/offset/transform to string"); }
+            if (trans.type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/offset/transform to string"); }
             if (has_range) { parser_error(p, "Cannot apply range check to string"); }
             if (has_crc) { parser_error(p, "Cannot apply CRC to string"); }
             if (bit_width > 0) { parser_error(p, "Bitfields only supported for integer types"); }
@@ -1272,6 +1306,10 @@ void parse_field(Parser* p, const char* doc) {
             if (p->in_bit_mode && bit_width == 0) bit_width = (uint8_t)get_type_bits(type_tok);
 
             if (bit_width > 0) {
+                 if (trans.type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/transform to a bit field"); }
+                 if (has_range) { parser_error(p, "Cannot apply range check to a bit field"); }
+                 if (has_crc || has_expr) { parser_error(p, "A CRC or computed field cannot be a bit field"); }
+
                  if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "byte") || match_keyword(type_tok, "u8") ||
                      match_keyword(type_tok, "uint16") || match_keyword(type_tok, "u16") ||
                      match_keyword(type_tok, "uint32") || match_keyword(type_tok, "u32") ||
@@ -1293,7 +1331,9 @@ void parse_field(Parser* p, const char* doc) {
                  if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width);
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
-                     p->current_bit_count += bit_width;
+                     if (!is_array_field) p->current_bit_count += bit_width;
+                     else if (has_fixed_array_count && !has_count_ref && !has_eof) p->current_bit_count += (int)((bit_width * (uint64_t)array_fixed_count) % 8);
+                     else p->is_bit_count_valid = 0;
                  }
             } else {
                 if (p->in_bit_mode) {
@@ -1315,6 +1355,7 @@ void parse_field(Parser* p, const char* doc) {
                 else { parser_error(p, "Unknown type"); return; }
                 
                 if (has_crc) {
+                     if (has_range) { parser_error(p, "Cannot apply range check to a CRC field"); }
                      if (crc_width == 16) {
                          if (op != OP_IO_U16) parser_error(p, "CRC16 requires uint16 type");
                          buf_push(p->target, OP_CRC_16);
@@ -1331,10 +1372,17 @@ void parse_field(Parser* p, const char* doc) {
                          buf_push(p->target, crc_flags);
                      }
                 } else if (has_expr) {
+                    // The value has the type of the expression: make it one of the field
+                    int is_float_field = (op == OP_IO_F32 || op == OP_IO_F64);
+                    if (expr_type == TYPE_INT && is_float_field) buf_push(p->target, OP_ITOF);
+                    if (expr_type == TYPE_FLOAT && !is_float_field) buf_push(p->target, OP_FTOI);
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
+                    if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 } else {
+                    if (trans.type != CND_TRANS_NONE && op == OP_IO_BOOL) { parser_error(p, "Cannot apply scale/transform to bool"); }
+                    emit_transform(p->target, &trans);
                     buf_push(p->target, op); buf_push_u16(p->target, key_id);
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 }
-- 
2.43.0


From 48ac451fbd956def80989495ac526ce583662a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:33 +0000
Subject: [PATCH 19/59] fix: unreadable source files and too deep nesting are
 errors, not crashes

---
 src/compiler/cnd_internal.h |  5 +++++
 src/compiler/cnd_parser.c   | 26 +++++++++++++++++++-------
 src/compiler/cnd_utils.c    | 21 +++++++++++++++++++++
 src/compiler/cndc.c         | 11 +++++------
 4 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index e645af4..75748f2 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -217,6 +217,8 @@ EnumDef* enum_reg_add(EnumRegistry* r, const char* name, int len, int line, cons
 EnumDef* enum_reg_find(EnumRegistry* r, const char* name, int len);
 
 // --- Parser ---
+#define CND_MAX_NESTING 256
+
 typedef struct {
     int line;
     int column;
@@ -246,6 +248,7 @@ typedef struct {
     int silent;      // Flag to suppress all output (for LSP)
     int verbose;     // Flag for verbose debug output
     int packet_count; // Track number of packets defined
+    int nesting;      // Depth of nested expressions, blocks and else-ifs being parsed
     int import_depth; // Track recursion depth of imports
     
     // Decorator State
@@ -271,6 +274,8 @@ typedef struct {
 // Caller owns the returned string.
 char* cnd_canonicalize_path(const char* path);
 
+char* read_source_file(const char* path);
+
 void parser_error(Parser* p, const char* msg);
 void advance(Parser* p);
 void consume(Parser* p, TokenType type, const char* msg);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index f299c62..c2414eb 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -176,10 +176,16 @@ static void split_minus(Parser* p) {
 }
 
 static ExprType parse_precedence(Parser* p, Precedence prec) {
+    if (p->nesting >= CND_MAX_NESTING) {
+        parser_error(p, "Expression nested too deeply");
+        return TYPE_UNKNOWN;
+    }
+    p->nesting++;
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
         parser_error(p, "Expect expression");
+        p->nesting--;
         return TYPE_UNKNOWN;
     }
 
@@ -192,6 +198,7 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
         left = infix_rule(p, left);
         split_minus(p);
     }
+    p->nesting--;
     return left;
 }
 
@@ -517,6 +524,9 @@ ExprType parse_primary(Parser* p) {
 }
 
 void parse_if(Parser* p) {
+    if (p->nesting >= CND_MAX_NESTING) { parser_error(p, "Blocks nested too deeply"); return; }
+    p->nesting++;
+
     consume(p, TOK_LPAREN, "Expect ( after if");
     parse_expression(p);
     consume(p, TOK_RPAREN, "Expect ) after if condition");
@@ -552,6 +562,7 @@ void parse_if(Parser* p) {
     size_t end_loc = buf_current_offset(p->target);
     int32_t end_offset = (int32_t)(end_loc - (jump_end_loc + 1 + 4));
     buf_write_u32_at(p->target, jump_end_loc + 1, (uint32_t)end_offset);
+    p->nesting--;
 }
 
 typedef struct {
@@ -560,6 +571,9 @@ typedef struct {
 } SwitchCase;
 
 void parse_switch(Parser* p) {
+    if (p->nesting >= CND_MAX_NESTING) { parser_error(p, "Blocks nested too deeply"); return; }
+    p->nesting++;
+
     consume(p, TOK_LPAREN, "Expect ( after switch");
     Token field_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect discriminator field name");
@@ -781,6 +795,7 @@ void parse_switch(Parser* p) {
     
     if(cases) free(cases);
     if(jump_fixups) free(jump_fixups);
+    p->nesting--;
 }
 
 // Number of bits of a type that can be a bit field, 0 for all other types
@@ -1703,8 +1718,8 @@ void parse_import(Parser* p) {
     strtab_add(&p->imports, full_path, (int)strlen(full_path));
     
     // Read file
-    FILE* f = fopen(full_path, "rb");
-    if (!f) {
+    char* source = read_source_file(full_path);
+    if (!source) {
         char msg[512];
         snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
         parser_error(p, msg);
@@ -1712,10 +1727,6 @@ void parse_import(Parser* p) {
         return;
     }
     
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = (char*)malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
-    
     // Save state
     Lexer old_lexer = p->lexer;
     Token old_cur = p->current;
@@ -1728,7 +1739,8 @@ void parse_import(Parser* p) {
     
     advance(p);
     p->import_depth++;
-    parse_top_level(p);
+    if (p->import_depth > CND_MAX_NESTING) parser_error(p, "Imports nested too deeply");
+    else parse_top_level(p);
     p->import_depth--;
     
     // Restore state
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index d4ee6c8..ac82028 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -27,6 +27,27 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
+// Returns the whole file as a string, or NULL. The caller owns it.
+char* read_source_file(const char* path) {
+    FILE* f = fopen(path, "rb");
+    if (!f) return NULL;
+    size_t size = 0, cap = 4096;
+    char* source = malloc(cap);
+    size_t n;
+    while ((n = fread(source + size, 1, cap - size - 1, f)) > 0) {
+        size += n;
+        if (size + 1 == cap) {
+            cap *= 2;
+            source = realloc(source, cap);
+        }
+    }
+    int failed = ferror(f); // e.g. a directory
+    fclose(f);
+    if (failed) { free(source); return NULL; }
+    source[size] = '\0';
+    return source;
+}
+
 // Calls `visit` on every instruction in `code`. Jump tables are data: they are
 // stepped over.
 static void bc_visit(uint8_t* code, size_t len, void (*visit)(void* ctx, uint8_t* instr), void* ctx) {
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 2c6344e..80ffa00 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -58,17 +58,14 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     char* canonical_in_path = cnd_canonicalize_path(in_path);
     const char* open_path = canonical_in_path ? canonical_in_path : in_path;
 
-    FILE* f = fopen(open_path, "rb");
-    if (!f) { 
+    char* source = read_source_file(open_path);
+    if (!source) { 
         if (json_output) printf("{\"error\": \"Error opening input file: %s\"}\n", open_path);
         else printf("Error opening input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
     }
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
-
+    
     Parser p;
     memset(&p, 0, sizeof(Parser)); // Zero init
     p.verbose = verbose;
@@ -90,6 +87,8 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     advance(&p);
     parse_top_level(&p);
     
+    if (p.strtab.count > UINT16_MAX) parser_error(&p, "Too many names");
+
     int ret = 0;
 
     if (p.had_error) {
-- 
2.43.0


From 6ff8744bf4bf5964b147305230f03a04b510fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 20/59] fix: negate number literals without signed overflow

---
 src/compiler/cnd_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index ac82028..63aabf2 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -388,7 +388,7 @@ int64_t parse_number_i64(const char* start, int length) {
         }
     }
     
-    return neg ? -(int64_t)res : (int64_t)res;
+    return (int64_t)(neg ? 0 - res : res);
 }
 
 double parse_number_double(const char* start, int length) {
-- 
2.43.0


From cc6860d7b90fe9ef92977f190e9c372a2cab2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:32 +0000
Subject: [PATCH 21/59] fix: refuse CRC widths, bit widths and expression
 literals that are not integers in range

---
 src/compiler/cnd_parser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index c2414eb..baf6782 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -327,6 +327,11 @@ static void check_int_literal(Parser* p, Token t, uint8_t type_op) {
     }
 }
 
+// A literal that may be a signed or an unsigned 64-bit value
+static void check_word_literal(Parser* p, Token t) {
+    if (!int_literal_fits(t, OP_IO_I64)) check_int_literal(p, t, OP_IO_U64);
+}
+
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
     if (type_op == OP_IO_BOOL) { parser_error(p, "Cannot apply range check to bool"); return; }
     if (cnd_il_type_is_int(type_op)) {
@@ -413,6 +418,7 @@ ExprType parse_primary(Parser* p) {
             buf_push_u64(p->target, bits);
             return TYPE_FLOAT;
         } else {
+            check_word_literal(p, p->previous);
             uint64_t val = (uint64_t)parse_number_i64(p->previous.start, p->previous.length);
             buf_push(p->target, OP_PUSH_IMM);
             buf_push_u64(p->target, val);
@@ -606,7 +612,7 @@ void parse_switch(Parser* p) {
             
             uint64_t val = 0;
             if (p->current.type == TOK_NUMBER) {
-                if (!int_literal_fits(p->current, OP_IO_I64)) check_int_literal(p, p->current, OP_IO_U64);
+                check_word_literal(p, p->current);
                 val = (uint64_t)parse_number_i64(p->current.start, p->current.length);
                 advance(p);
             } else if (p->current.type == TOK_IDENTIFIER) {
@@ -992,6 +998,7 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
+                check_int_literal(p, num, OP_IO_U8);
                 crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
                 if (crc_width != 16 && crc_width != 32) { parser_error(p, "CRC width must be 16 or 32"); }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
@@ -1125,7 +1132,7 @@ void parse_field(Parser* p, const char* doc) {
         uint32_t width = width_tok.type == TOK_NUMBER ? parse_number_u32(width_tok.start, width_tok.length) : 0;
         uint32_t max_width = get_type_bits(type_tok);
         if (max_width == 0) max_width = 64; // Types without bit fields are refused below
-        if (width == 0 || width > max_width || *width_tok.start == '-') {
+        if (!int_literal_fits(width_tok, OP_IO_U8) || width == 0 || width > max_width) {
             parser_error(p, "Bit width does not fit the field type");
             return;
         }
-- 
2.43.0


From 4471c70ffcb6e339b379405130d094b373fb58c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 22/59] fix: 0x without digits is not a number

---
 src/compiler/cnd_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/cnd_lexer.c b/src/compiler/cnd_lexer.c
index 0b15e2f..a23a8ca 100644
--- a/src/compiler/cnd_lexer.c
+++ b/src/compiler/cnd_lexer.c
@@ -155,10 +155,10 @@ Token lexer_next(Lexer* lexer) {
             
             int is_hex = 0;
             // Check for Hex prefix 0x or -0x
-            if (c == '0' && (*lexer->current == 'x' || *lexer->current == 'X')) {
+            if (c == '0' && (*lexer->current == 'x' || *lexer->current == 'X') && is_hex_c(*(lexer->current+1))) {
                 is_hex = 1;
                 lexer->current++; // consume x
-            } else if (c == '-' && *lexer->current == '0' && (*(lexer->current+1) == 'x' || *(lexer->current+1) == 'X')) {
+            } else if (c == '-' && *lexer->current == '0' && (*(lexer->current+1) == 'x' || *(lexer->current+1) == 'X') && is_hex_c(*(lexer->current+2))) {
                 is_hex = 1;
                 lexer->current += 2; // consume 0x
             }
-- 
2.43.0


From c6901bfa89a967ec87e38ff4bbcc26ced0bf0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:36 +0000
Subject: [PATCH 23/59] fix: number literals of 63 characters and more were
 read as 0.0

---
 src/compiler/cnd_utils.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 63aabf2..4867e6a 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -392,11 +392,12 @@ int64_t parse_number_i64(const char* start, int length) {
 }
 
 double parse_number_double(const char* start, int length) {
-    char buf[64];
-    if (length >= 63) return 0.0;
+    char* buf = malloc((size_t)length + 1);
     memcpy(buf, start, length);
     buf[length] = '\0';
-    return strtod(buf, NULL);
+    double val = strtod(buf, NULL);
+    free(buf);
+    return val;
 }
 
 // --- StringBuilder Implementation ---
-- 
2.43.0


From da3c282d8151c0d079d16ca69b3df406ddac9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:37 +0000
Subject: [PATCH 24/59] fix: @be before a declaration was ignored

---
 src/compiler/cnd_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index baf6782..448e873 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1783,7 +1783,7 @@ void parse_top_level(Parser* p) {
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-            } else if (match_keyword(dec, "big_endian")) {
+            } else if (match_keyword(dec, "big_endian") || match_keyword(dec, "be")) {
                 p->outer_order = OP_SET_ENDIAN_BE;
                 buf_push(p->target, p->outer_order);
             } else if (match_keyword(dec, "little_endian") || match_keyword(dec, "le")) {
-- 
2.43.0


From 7208991f2992ea2cd1fb683b436fdaacaaa22f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:22 +0000
Subject: [PATCH 25/59] fix: accept doc comments after decorators and in switch
 blocks

---
 src/compiler/cnd_parser.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 448e873..3a56fb6 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -576,6 +576,13 @@ typedef struct {
     int32_t offset;
 } SwitchCase;
 
+// A block or a single field
+static void parse_case_body(Parser* p) {
+    while (p->current.type == TOK_DOC_COMMENT) advance(p);
+    if (p->current.type == TOK_LBRACE) parse_block(p);
+    else parse_field(p, NULL);
+}
+
 void parse_switch(Parser* p) {
     if (p->nesting >= CND_MAX_NESTING) { parser_error(p, "Blocks nested too deeply"); return; }
     p->nesting++;
@@ -607,7 +614,9 @@ void parse_switch(Parser* p) {
     int32_t default_offset = -1; // -1 indicates no default
 
     while (p->current.type != TOK_RBRACE && p->current.type != TOK_EOF && !p->had_error) {
-        if (p->current.type == TOK_CASE) {
+        if (p->current.type == TOK_DOC_COMMENT) {
+            advance(p);
+        } else if (p->current.type == TOK_CASE) {
             advance(p); // consume case
             
             uint64_t val = 0;
@@ -665,11 +674,7 @@ void parse_switch(Parser* p) {
             case_count++;
             
             // Parse body
-            if (p->current.type == TOK_LBRACE) {
-                parse_block(p);
-            } else {
-                parse_field(p, NULL);
-            }
+            parse_case_body(p);
             
             // Emit Jump to end (break)
             size_t jump_loc = buf_current_offset(p->target);
@@ -687,11 +692,7 @@ void parse_switch(Parser* p) {
             if (default_offset != -1) parser_error(p, "Duplicate default");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
-            if (p->current.type == TOK_LBRACE) {
-                parse_block(p);
-            } else {
-                parse_field(p, NULL);
-            }
+            parse_case_body(p);
             
             // Emit Jump to end (break)
             size_t jump_loc = buf_current_offset(p->target);
@@ -1089,6 +1090,8 @@ void parse_field(Parser* p, const char* doc) {
         }
     } 
 
+    while (p->current.type == TOK_DOC_COMMENT) advance(p);
+
     if (is_standalone_op && (p->current.type == TOK_SEMICOLON || p->current.type == TOK_RBRACE)) {
         if (p->current.type == TOK_SEMICOLON) advance(p);
         return;
@@ -1800,6 +1803,8 @@ void parse_top_level(Parser* p) {
             }
         }
 
+        if (p->current.type == TOK_DOC_COMMENT) continue; // Doc comment after the decorators
+
         char* doc_str = doc_sb.length > 0 ? sb_build(&doc_sb) : NULL;
 
         if (p->current.type == TOK_STRUCT) {
-- 
2.43.0


From 703e4fe9aff52b47a17126f2c33030ba9258ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 26/59] fix: the formatter treats a block comment as one token

---
 src/compiler/cnd_fmt.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 89abf8a..30f3ca6 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -23,6 +23,7 @@ typedef enum {
     FMT_COMMA,     // ,
     FMT_AT,        // @
     FMT_COMMENT,   // // ...
+    FMT_BLOCK_COMMENT, // /* ... */
     FMT_NEWLINE,   // \n
     FMT_WHITESPACE // spaces/tabs
 } FmtTokenType;
@@ -83,6 +84,17 @@ static FmtToken fmt_next(FmtLexer* l) {
         return t;
     }
 
+    if (c == '/' && *l->current == '*') {
+        t.type = FMT_BLOCK_COMMENT;
+        l->current++;
+        while (*l->current != '\0' && !(*l->current == '*' && l->current[1] == '/')) {
+            l->current++;
+        }
+        if (*l->current != '\0') l->current += 2;
+        t.length = (int)(l->current - t.start);
+        return t;
+    }
+
     switch (c) {
         case '{': t.type = FMT_LBRACE; return t;
         case '}': t.type = FMT_RBRACE; return t;
@@ -208,7 +220,8 @@ char* cnd_format_source(const char* source) {
         prev = t;
     }
     
-    sb_append(&out, "\n");
+    // An unterminated block comment already contains the end of the last line
+    if (out.length == 0 || out.data[out.length - 1] != '\n') sb_append(&out, "\n");
     char* result = sb_build(&out);
     sb_free(&out);
     return result;
-- 
2.43.0


From 1a20fec2b61a328d24a000564df0a5e3a20a901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 27/59] fix: formatting a formatted schema changes nothing

---
 src/compiler/cnd_fmt.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 30f3ca6..086ec40 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -152,6 +152,7 @@ char* cnd_format_source(const char* source) {
 
     int indent = 0;
     int newline_pending = 0;
+    int line_end_due = 0; // the newline we asked for is the next one in the input
     int space_pending = 0;
     int on_new_line = 1;
 
@@ -171,7 +172,8 @@ char* cnd_format_source(const char* source) {
         }
 
         if (t.type == FMT_NEWLINE) {
-            if (newline_pending < 2) newline_pending++;
+            if (line_end_due) line_end_due = 0;
+            else if (newline_pending < 2) newline_pending++;
             continue;
         }
 
@@ -192,27 +194,29 @@ char* cnd_format_source(const char* source) {
             newline_pending = 0;
             space_pending = 0;
         }
+        line_end_due = 0;
+
+        if (t.type == FMT_LBRACE) space_pending = 1; // Space before {
 
         // Apply Indent or Space
         if (on_new_line) {
             sb_indent(&out, indent);
             on_new_line = 0;
+            space_pending = 0;
         } else if (space_pending) {
             sb_append(&out, " ");
             space_pending = 0;
         }
 
-        if (t.type == FMT_LBRACE) {
-            sb_append(&out, " "); // Space before {
-        }
-
         sb_append_n(&out, t.start, t.length);
 
         if (t.type == FMT_LBRACE) {
             indent++;
             newline_pending = 1;
+            line_end_due = 1;
         } else if (t.type == FMT_RBRACE || t.type == FMT_SEMICOLON || t.type == FMT_COMMENT) {
             newline_pending = 1;
+            line_end_due = 1;
         } else if (t.type == FMT_COMMA) {
             space_pending = 1;
         }
-- 
2.43.0


From 13720b0e7e5eac69a90062011109c8e858cf0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 28/59] fix: the formatter does not crash on unreadable input

---
 src/compiler/cnd_fmt.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 086ec40..95b8f05 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -232,21 +232,12 @@ char* cnd_format_source(const char* source) {
 }
 
 int cnd_format_file(const char* in_path, const char* out_path) {
-    FILE* f = fopen(in_path, "rb");
-    if (!f) {
+    char* source = read_source_file(in_path);
+    if (!source) {
         fprintf(stderr, "Failed to open input file: %s\n", in_path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char* source = (char*)malloc(size + 1);
-    fread(source, 1, size, f);
-    source[size] = '\0';
-    fclose(f);
-
     char* formatted = cnd_format_source(source);
     free(source);
 
-- 
2.43.0


From 6e57ad04f1972fa79cecb47e71946fe304db0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 29/59] fix: encode and decode byte arrays given as JSON

The binding accepted the raw bytes notification without transferring
anything, and never closed the array it had opened for it.
---
 src/cli/json_binding.c | 109 +++--------------------------------------
 1 file changed, 8 insertions(+), 101 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 96b178d..89698f3 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -26,31 +26,18 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
     // Determine if this array should be treated as a Hex String (byte array)
     bool is_hex_array = false;
     if (io->hex_mode && ctx->mode == CND_MODE_DECODE) {
-        if (type == OP_RAW_BYTES) {
-            is_hex_array = true;
-        } else {
-            // Peek IL for element type
-            const uint8_t* ip = ctx->program->bytecode + ctx->ip;
-            const uint8_t* end = ctx->program->bytecode + ctx->program->bytecode_len;
-            if (ip < end) {
-                // Skip current instruction args to find NEXT instruction
-                if (type == OP_ARR_FIXED) ip += 6; // Key(2) + Count(4)
-                else ip += 2; // Key(2) for ARR_PRE
-                
-                if (ip < end && *ip == OP_IO_U8) is_hex_array = true;
-            }
-        }
+        // Peek IL for element type (ctx->ip is past the array instruction)
+        if (ctx->ip < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_IO_U8) is_hex_array = true;
     }
 
     if (ctx->mode == CND_MODE_ENCODE) {
         cJSON* item = cJSON_GetObjectItem(parent, key_name);
-        if (!item || (!cJSON_IsArray(item) && !(type == OP_RAW_BYTES && cJSON_IsString(item)))) {
+        if (!item || !cJSON_IsArray(item)) {
             // If missing or wrong type, write 0 length
             if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = 0;
             else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = 0;
             else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = 0;
             else if (type == OP_ARR_FIXED) *(uint32_t*)ptr = 0;
-            // For RAW_BYTES encode, we need to handle data copy elsewhere or fail here
             return CND_ERR_OK; // Treat as empty/skip
         }
         
@@ -62,7 +49,7 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
         io->array_depth++;
 
         // Write length
-        if (type != OP_RAW_BYTES && type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
+        if (type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
             int len = cJSON_GetArraySize(item);
             if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)len;
             else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)len;
@@ -130,89 +117,7 @@ static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, vo
                 *(const char**)ptr = s;
                 break;
             }
-            case OP_RAW_BYTES: {
-                // Encode Hex String to Bytes
-                if (cJSON_IsString(item)) {
-                    const char* hex = item->valuestring;
-                    size_t len = strlen(hex);
-                    uint8_t* b = (uint8_t*)ptr;
-                    for(size_t i=0; i<len/2; i++) {
-                        sscanf(hex + i*2, "%2hhX", &b[i]);
-                    }
-                }
-                break;
-            }
         }
-    } else { // DECODE
-        // Special case: Hex Byte accumulation
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
-            return CND_ERR_OK;
-        }
-
-        cJSON* val = NULL;
-        switch (type) {
-            case OP_IO_U8:  val = cJSON_CreateNumber(*(uint8_t*)ptr); break;
-            case OP_IO_U16: val = cJSON_CreateNumber(*(uint16_t*)ptr); break;
-            case OP_IO_U32: val = cJSON_CreateNumber(*(uint32_t*)ptr); break;
-            case OP_IO_U64: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8:  val = cJSON_CreateNumber(*(int8_t*)ptr); break;
-            case OP_IO_I16: val = cJSON_CreateNumber(*(int16_t*)ptr); break;
-            case OP_IO_I32: val = cJSON_CreateNumber(*(int32_t*)ptr); break;
-            case OP_IO_I64: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: val = cJSON_CreateNumber(*(float*)ptr); break;
-            case OP_IO_F64: val = cJSON_CreateNumber(*(double*)ptr); break;
-            case OP_IO_BIT_U: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                // Simplified logic, assume little endian for temp
-                uint32_t len = 0; memcpy(&len, (uint8_t*)ptr-4, 4); 
-                // Proper:
-                uint8_t* p = (uint8_t*)ptr-4;
-                len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24; // Assume LE for now or fix with ctx
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: {
-                // Should ideally read count from IL.
-                // For now, ignore single RAW_BYTES in decode.
-                break;
-            }
-        }
-        
-        if (val) {
-            // Add to parent
-            cJSON* target = NULL;
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                target = io->array_stack[io->array_depth - 1];
-                io->array_index_stack[io->array_depth - 1]++;
-                cJSON_AddItemToArray(target, val);
-            } else {
-                // We need to find the key_name for adding to object.
-                // This helper logic is tricky because `key_name` is not passed here.
-                // Caller must handle adding.
-                // Wait, I removed `key_name` argument?
-                // I need to return `val` to caller.
-                return CND_ERR_OK; // Caller adds `val`.
-            }
-        }
-        // This helper is slightly broken because `val` needs to be added.
-        // Let's fix this by adding `val` inside the caller or passing needed context.
-        // But `json_io_callback` is monolithic.
-        // I will merge `handle_primitive` back into `json_io_callback` logic flow in `json_io_callback` for simplicity in this file.
-        // See below.
     }
     return CND_ERR_OK;
 }
@@ -267,8 +172,11 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
         return CND_ERR_OK;
     }
 
+    // The number of raw bytes is not known here: leave them to be transferred one by one
+    if (type == OP_RAW_BYTES) return CND_ERR_CALLBACK;
+
     // Handle Arrays
-    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_RAW_BYTES || type == OP_ARR_DYNAMIC) {
+    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_ARR_DYNAMIC) {
         return handle_array_start(io, ctx, type, key_name, current, ptr);
     }
     
@@ -360,7 +268,6 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
                 char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
                 val = cJSON_CreateString(s); free(s); break;
             }
-            case OP_RAW_BYTES: break;
         }
         #undef TO_JSON
         
-- 
2.43.0


From 69e12e6d206a19208f67af2b6f2868c75e67ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 30/59] fix: JSON arrays may be empty, missing or have the
 wrong length

An empty array was opened and never closed, a missing one of fixed length
was left out of the message, and too long ones were cut.
---
 src/cli/json_binding.c | 53 +++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 89698f3..7a5c7c5 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -22,6 +22,24 @@ static void append_hex_byte(IOCtx* io, uint8_t byte) {
     io->hex_str_buffer_len += 2;
 }
 
+// Number of elements passed with an array notification
+static uint32_t array_count(uint8_t type, const void* ptr) {
+    switch (type) {
+        case OP_ARR_PRE_U8:  return *(const uint8_t*)ptr;
+        case OP_ARR_PRE_U16: return *(const uint16_t*)ptr;
+        default:             return *(const uint32_t*)ptr;
+    }
+}
+
+// Largest number of elements a length prefix can hold
+static size_t array_limit(uint8_t type) {
+    switch (type) {
+        case OP_ARR_PRE_U8:  return UINT8_MAX;
+        case OP_ARR_PRE_U16: return UINT16_MAX;
+        default:             return UINT32_MAX;
+    }
+}
+
 static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
     // Determine if this array should be treated as a Hex String (byte array)
     bool is_hex_array = false;
@@ -32,30 +50,33 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
 
     if (ctx->mode == CND_MODE_ENCODE) {
         cJSON* item = cJSON_GetObjectItem(parent, key_name);
-        if (!item || !cJSON_IsArray(item)) {
-            // If missing or wrong type, write 0 length
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = 0;
-            else if (type == OP_ARR_FIXED) *(uint32_t*)ptr = 0;
-            return CND_ERR_OK; // Treat as empty/skip
+        if (item && !cJSON_IsArray(item)) return CND_ERR_CALLBACK;
+        size_t len = item ? (size_t)cJSON_GetArraySize(item) : 0;
+
+        // Write length; an array of given length takes no more elements (missing ones are implicit zeros)
+        if (type == OP_ARR_FIXED || type == OP_ARR_DYNAMIC) {
+            if (len > *(uint32_t*)ptr) return CND_ERR_CALLBACK;
+        } else {
+            if (len > array_limit(type)) return CND_ERR_CALLBACK;
+            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)len;
+            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)len;
+            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = (uint32_t)len;
         }
-        
+
+        // There is no OP_ARR_END for an empty array
+        if (array_count(type, ptr) == 0) return CND_ERR_OK;
+
         // Push stack
         if (io->array_depth >= 31) return CND_ERR_OOB;
         io->array_stack[io->array_depth] = item;
         io->array_index_stack[io->array_depth] = 0;
         io->array_start_depth[io->array_depth] = io->depth;
         io->array_depth++;
-
-        // Write length
-        if (type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
-            int len = cJSON_GetArraySize(item);
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)len;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)len;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = (uint32_t)len;
-        }
     } else { // DECODE
+        if (array_count(type, ptr) == 0) { // There will be no OP_ARR_END
+            cJSON_AddItemToObject(parent, key_name, is_hex_array ? cJSON_CreateString("") : cJSON_CreateArray());
+            return CND_ERR_OK;
+        }
         if (io->array_depth >= 31) return CND_ERR_OOB;
         
         cJSON* new_item;
-- 
2.43.0


From 55a29336f99885af6f23b24d1b84ca147dba3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 31/59] fix: byte arrays as hex strings

decode --hex looked for the element type behind the wrong instruction, and
encode did not accept what it wrote.
---
 src/cli/json_binding.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 7a5c7c5..895d9b8 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <ctype.h>
 #include "cli_helpers.h"
 #include <cJSON.h>
 #include "concordia.h"
@@ -40,16 +41,40 @@ static size_t array_limit(uint8_t type) {
     }
 }
 
+// Peek IL for element type (ctx->ip is past the array instruction)
+static bool next_is_byte(const cnd_vm_ctx* ctx) {
+    return ctx->ip < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_IO_U8;
+}
+
+static cJSON* hex_to_array(const char* hex) {
+    cJSON* arr = cJSON_CreateArray();
+    for (; arr && *hex; hex += 2) {
+        if (!isxdigit((unsigned char)hex[0]) || !isxdigit((unsigned char)hex[1])) {
+            cJSON_Delete(arr);
+            return NULL;
+        }
+        char digits[3] = { hex[0], hex[1], 0 };
+        cJSON_AddItemToArray(arr, cJSON_CreateNumber((double)strtoul(digits, NULL, 16)));
+    }
+    return arr;
+}
+
 static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
     // Determine if this array should be treated as a Hex String (byte array)
     bool is_hex_array = false;
     if (io->hex_mode && ctx->mode == CND_MODE_DECODE) {
-        // Peek IL for element type (ctx->ip is past the array instruction)
-        if (ctx->ip < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_IO_U8) is_hex_array = true;
+        is_hex_array = next_is_byte(ctx);
     }
 
     if (ctx->mode == CND_MODE_ENCODE) {
         cJSON* item = cJSON_GetObjectItem(parent, key_name);
+        // Bytes may be given as a hex string, as 'decode --hex' writes them
+        if (cJSON_IsString(item) && next_is_byte(ctx)) {
+            cJSON* bytes = hex_to_array(item->valuestring);
+            if (!bytes) return CND_ERR_CALLBACK;
+            cJSON_ReplaceItemViaPointer(parent, item, bytes);
+            item = bytes;
+        }
         if (item && !cJSON_IsArray(item)) return CND_ERR_CALLBACK;
         size_t len = item ? (size_t)cJSON_GetArraySize(item) : 0;
 
-- 
2.43.0


From 7c98301413226089f44c929e68cbb769457448bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 32/59] fix: length of strings with a prefix in big-endian
 order

---
 src/cli/json_binding.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 895d9b8..03dd5f9 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -59,6 +59,16 @@ static cJSON* hex_to_array(const char* hex) {
     return arr;
 }
 
+// Length of a prefixed string: its prefix, in the byte order in force, stands right before it
+static uint32_t string_length(const cnd_vm_ctx* ctx, uint8_t type, const uint8_t* str) {
+    int size = (type == OP_STR_PRE_U8) ? 1 : (type == OP_STR_PRE_U16) ? 2 : 4;
+    uint32_t len = 0;
+    for (int i = 0; i < size; i++) {
+        len = len << 8 | (ctx->endianness == CND_LE ? str[-1 - i] : str[i - size]);
+    }
+    return len;
+}
+
 static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
     // Determine if this array should be treated as a Hex String (byte array)
     bool is_hex_array = false;
@@ -298,20 +308,13 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             case OP_IO_BIT_I: TO_JSON((double)*(int64_t*)ptr); break;
             case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
             case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
+            case OP_STR_PRE_U8:
+            case OP_STR_PRE_U16:
             case OP_STR_PRE_U32: {
-                uint8_t* p = (uint8_t*)ptr-4;
-                uint32_t len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24;
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
+                uint32_t len = string_length(ctx, type, (const uint8_t*)ptr);
+                char* s = malloc((size_t)len + 1);
+                if (!s) return CND_ERR_CALLBACK;
+                memcpy(s, ptr, len); s[len]=0;
                 val = cJSON_CreateString(s); free(s); break;
             }
         }
-- 
2.43.0


From 9dc63206109cbc6b8383717e4de00e653dd85dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:53 +0000
Subject: [PATCH 33/59] fix: numbers in JSON keep their value or are refused

Values beyond 31 bits saturated, those out of the range of a field or of
another type were encoded as something else, and integers beyond 2^53 and
some doubles came back different.
---
 include/cli_helpers.h  |   2 +
 src/cli/cmd_encode.c   |   5 +-
 src/cli/json_binding.c | 220 +++++++++++++++++++++++++++++++----------
 3 files changed, 174 insertions(+), 53 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 0fd7b66..6541e40 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -47,6 +47,8 @@ typedef struct {
     size_t hex_str_buffer_len;
     size_t hex_str_buffer_capacity;
 } IOCtx;
+// Integers with more digits than a double holds, as strings; to be freed by the caller
+char* quote_long_integers(const char* json);
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr);
 
 
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index fa46d91..c186fe1 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -12,8 +12,11 @@ int cmd_encode(int argc, char** argv) {
     char* json_text = read_file_text(argv[3]);
     if (!json_text) { printf("Failed to read JSON\n"); return 1; }
     
-    cJSON* root = cJSON_Parse(json_text);
+    char* quoted = quote_long_integers(json_text);
     free(json_text);
+    if (!quoted) { printf("Failed to read JSON\n"); return 1; }
+    cJSON* root = cJSON_Parse(quoted);
+    free(quoted);
     if (!root) { printf("Failed to parse JSON\n"); return 1; }
     
     // Encode
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 03dd5f9..c373099 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -3,6 +3,8 @@
 #include <string.h>
 #include <stdint.h>
 #include <ctype.h>
+#include <inttypes.h>
+#include <math.h>
 #include "cli_helpers.h"
 #include <cJSON.h>
 #include "concordia.h"
@@ -136,46 +138,162 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
     return CND_ERR_OK;
 }
 
-static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
-    if (ctx->mode == CND_MODE_ENCODE) {
-        if (!item) {
-            // Allow implicit zero/empty if not found - write only the correct size
-            switch (type) {
-                case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)ptr = 0; break;
-                case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = 0; break;
-                case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: *(uint32_t*)ptr = 0; break;
-                case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: *(uint64_t*)ptr = 0; break;
-                default: break;
-            }
-            return CND_ERR_OK;
-        }
-        // Extract value
+// --- Numbers ---
+// Integers that a double cannot hold are given as strings of digits (see quote_long_integers).
+
+static bool get_integer(const cJSON* item, bool* negative, uint64_t* magnitude) {
+    if (cJSON_IsNumber(item)) {
+        double d = fabs(item->valuedouble);
+        if (!(d < 18446744073709551616.0) || d != floor(d)) return false;
+        *negative = item->valuedouble < 0;
+        *magnitude = (uint64_t)d;
+        return true;
+    }
+    if (!cJSON_IsString(item)) return false;
+    const char* s = item->valuestring;
+    *negative = (*s == '-');
+    if (*negative) s++;
+    if (!*s) return false;
+    for (*magnitude = 0; *s; s++) {
+        if (*s < '0' || *s > '9') return false;
+        uint64_t digit = (uint64_t)(*s - '0');
+        if (*magnitude > (UINT64_MAX - digit) / 10) return false;
+        *magnitude = *magnitude * 10 + digit;
+    }
+    return true;
+}
+
+static bool get_unsigned(const cJSON* item, int bits, uint64_t* out) {
+    bool negative;
+    if (!get_integer(item, &negative, out)) return false;
+    if (negative && *out != 0) return false;
+    return bits >= 64 || *out >> bits == 0;
+}
+
+static bool get_signed(const cJSON* item, int bits, int64_t* out) {
+    bool negative;
+    uint64_t magnitude;
+    uint64_t half = 1ULL << (bits - 1);
+    if (!get_integer(item, &negative, &magnitude)) return false;
+    if (negative ? magnitude > half : magnitude >= half) return false;
+    *out = (int64_t)(negative ? 0 - magnitude : magnitude);
+    return true;
+}
+
+static bool get_double(const cJSON* item, double* out) {
+    if (cJSON_IsNumber(item)) *out = item->valuedouble;
+    else if (cJSON_IsString(item)) {
+        const char* digits = item->valuestring + (*item->valuestring == '-');
+        if (!*digits || digits[strspn(digits, "0123456789")]) return false;
+        *out = strtod(item->valuestring, NULL);
+    }
+    else return false;
+    return isfinite(*out);
+}
+
+// Width of the bit field being transferred, the last operand of its instruction
+static int bit_width(const cnd_vm_ctx* ctx) {
+    return ctx->ip > 0 ? ctx->program->bytecode[ctx->ip - 1] : 64;
+}
+
+static cnd_error_t handle_primitive(cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
+    uint64_t u = 0;
+    int64_t i = 0;
+    double d = 0;
+    bool ok = false;
+    if (!item) {
+        // Allow implicit zero/empty if not found - write only the correct size
         switch (type) {
-            case OP_IO_U8:  *(uint8_t*)ptr  = (uint8_t)item->valueint; break;
-            case OP_IO_U16: *(uint16_t*)ptr = (uint16_t)item->valueint; break;
-            case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)item->valueint; break;
-            case OP_IO_U64: *(uint64_t*)ptr = (uint64_t)item->valuedouble; break;
-            case OP_IO_I8:  *(int8_t*)ptr   = (int8_t)item->valueint; break;
-            case OP_IO_I16: *(int16_t*)ptr  = (int16_t)item->valueint; break;
-            case OP_IO_I32: *(int32_t*)ptr  = (int32_t)item->valueint; break;
-            case OP_IO_I64: *(int64_t*)ptr  = (int64_t)item->valuedouble; break;
-            case OP_IO_F32: *(float*)ptr    = (float)item->valuedouble; break;
-            case OP_IO_F64: *(double*)ptr   = (double)item->valuedouble; break;
-            case OP_IO_BIT_U: *(uint64_t*)ptr = (uint64_t)item->valueint; break;
-            case OP_IO_BIT_I: *(int64_t*)ptr  = (int64_t)item->valueint; break;
-            case OP_IO_BOOL:
-            case OP_IO_BIT_BOOL: *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0; break;
-            case OP_STR_NULL: 
-            case OP_STR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_STR_PRE_U32: {
-                const char* s = cJSON_IsString(item) ? item->valuestring : "";
-                *(const char**)ptr = s;
-                break;
-            }
+            case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)ptr = 0; break;
+            case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = 0; break;
+            case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: *(uint32_t*)ptr = 0; break;
+            case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: *(uint64_t*)ptr = 0; break;
+            default: break;
         }
+        return CND_ERR_OK;
     }
-    return CND_ERR_OK;
+    // Extract value
+    switch (type) {
+        case OP_IO_U8:  if ((ok = get_unsigned(item, 8, &u)))  *(uint8_t*)ptr  = (uint8_t)u; break;
+        case OP_IO_U16: if ((ok = get_unsigned(item, 16, &u))) *(uint16_t*)ptr = (uint16_t)u; break;
+        case OP_IO_U32: if ((ok = get_unsigned(item, 32, &u))) *(uint32_t*)ptr = (uint32_t)u; break;
+        case OP_IO_U64: if ((ok = get_unsigned(item, 64, &u))) *(uint64_t*)ptr = u; break;
+        case OP_IO_I8:  if ((ok = get_signed(item, 8, &i)))  *(int8_t*)ptr  = (int8_t)i; break;
+        case OP_IO_I16: if ((ok = get_signed(item, 16, &i))) *(int16_t*)ptr = (int16_t)i; break;
+        case OP_IO_I32: if ((ok = get_signed(item, 32, &i))) *(int32_t*)ptr = (int32_t)i; break;
+        case OP_IO_I64: if ((ok = get_signed(item, 64, &i))) *(int64_t*)ptr = i; break;
+        case OP_IO_F32: if ((ok = get_double(item, &d) && isfinite((float)d))) *(float*)ptr = (float)d; break;
+        case OP_IO_F64: if ((ok = get_double(item, &d))) *(double*)ptr = d; break;
+        case OP_IO_BIT_U: if ((ok = get_unsigned(item, bit_width(ctx), &u))) *(uint64_t*)ptr = u; break;
+        case OP_IO_BIT_I: if ((ok = get_signed(item, bit_width(ctx), &i)))   *(int64_t*)ptr = i; break;
+        case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL:
+            if ((ok = cJSON_IsBool(item))) *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
+            else if ((ok = get_unsigned(item, 1, &u))) *(uint8_t*)ptr = (uint8_t)u;
+            break;
+        case OP_STR_NULL:
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32:
+            if ((ok = cJSON_IsString(item))) *(const char**)ptr = item->valuestring;
+            break;
+        default: break;
+    }
+    return ok ? CND_ERR_OK : CND_ERR_CALLBACK;
+}
+
+static cJSON* create_integer(bool negative, uint64_t magnitude) {
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%s%" PRIu64, negative ? "-" : "", magnitude);
+    return cJSON_CreateRaw(digits);
+}
+static cJSON* create_unsigned(uint64_t v) { return create_integer(false, v); }
+static cJSON* create_signed(int64_t v) { return create_integer(v < 0, v < 0 ? 0 - (uint64_t)v : (uint64_t)v); }
+
+// The shortest of the notations that read as the same number
+static cJSON* create_float(float v) {
+    char text[32];
+    if (!isfinite(v)) return cJSON_CreateNull();
+    for (int digits = 6; digits <= 9; digits++) {
+        snprintf(text, sizeof(text), "%.*g", digits, (double)v);
+        if ((float)strtod(text, NULL) == v) break;
+    }
+    return cJSON_CreateRaw(text);
+}
+static cJSON* create_double(double v) {
+    char text[32];
+    if (!isfinite(v)) return cJSON_CreateNull();
+    for (int digits = 15; digits <= 17; digits++) {
+        snprintf(text, sizeof(text), "%.*g", digits, v);
+        if (strtod(text, NULL) == v) break;
+    }
+    return cJSON_CreateRaw(text);
+}
+
+char* quote_long_integers(const char* json) {
+    size_t len = strlen(json), n = 0;
+    char* out = malloc(2 * len + 3);
+    if (!out) return NULL;
+    bool in_string = false;
+    for (size_t i = 0; i < len; ) {
+        size_t j = i;
+        if (!in_string && (json[i] == '-' || isdigit((unsigned char)json[i]))) {
+            while (json[j] && strchr("+-.0123456789eE", json[j])) j++;
+            size_t digits = strspn(json + i + (json[i] == '-'), "0123456789") + (json[i] == '-');
+            bool quote = (digits == j - i && digits > 15 && json[i + (json[i] == '-')] != '0');
+            if (quote) out[n++] = '"';
+            memcpy(out + n, json + i, j - i);
+            n += j - i;
+            if (quote) out[n++] = '"';
+            i = j;
+            continue;
+        }
+        if (json[i] == '"') in_string = !in_string;
+        if (in_string && json[i] == '\\' && i + 1 < len) out[n++] = json[i++];
+        out[n++] = json[i++];
+    }
+    out[n] = '\0';
+    return out;
 }
 
 // Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
@@ -292,20 +410,19 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
         }
         
         cJSON* val = NULL;
-        #define TO_JSON(expr) val = cJSON_CreateNumber(expr)
         switch (type) {
-            case OP_IO_U8: TO_JSON(*(uint8_t*)ptr); break;
-            case OP_IO_U16: TO_JSON(*(uint16_t*)ptr); break;
-            case OP_IO_U32: TO_JSON(*(uint32_t*)ptr); break;
-            case OP_IO_U64: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8: TO_JSON(*(int8_t*)ptr); break;
-            case OP_IO_I16: TO_JSON(*(int16_t*)ptr); break;
-            case OP_IO_I32: TO_JSON(*(int32_t*)ptr); break;
-            case OP_IO_I64: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: TO_JSON(*(float*)ptr); break;
-            case OP_IO_F64: TO_JSON(*(double*)ptr); break;
-            case OP_IO_BIT_U: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: TO_JSON((double)*(int64_t*)ptr); break;
+            case OP_IO_U8: val = create_unsigned(*(uint8_t*)ptr); break;
+            case OP_IO_U16: val = create_unsigned(*(uint16_t*)ptr); break;
+            case OP_IO_U32: val = create_unsigned(*(uint32_t*)ptr); break;
+            case OP_IO_U64: val = create_unsigned(*(uint64_t*)ptr); break;
+            case OP_IO_I8: val = create_signed(*(int8_t*)ptr); break;
+            case OP_IO_I16: val = create_signed(*(int16_t*)ptr); break;
+            case OP_IO_I32: val = create_signed(*(int32_t*)ptr); break;
+            case OP_IO_I64: val = create_signed(*(int64_t*)ptr); break;
+            case OP_IO_F32: val = create_float(*(float*)ptr); break;
+            case OP_IO_F64: val = create_double(*(double*)ptr); break;
+            case OP_IO_BIT_U: val = create_unsigned(*(uint64_t*)ptr); break;
+            case OP_IO_BIT_I: val = create_signed(*(int64_t*)ptr); break;
             case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
             case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
             case OP_STR_PRE_U8:
@@ -318,7 +435,6 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
                 val = cJSON_CreateString(s); free(s); break;
             }
         }
-        #undef TO_JSON
         
         if (val) {
             if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
@@ -330,7 +446,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
         }
     } else {
         // ENCODE Primitive
-        handle_primitive(io, ctx, type, ptr, item_to_process);
+        return handle_primitive(ctx, type, ptr, item_to_process);
     }
 
     return CND_ERR_OK;
-- 
2.43.0


From 237d7fccb9b68fdacdd7760b05652d3ffc82df47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 34/59] fix: expressions see the values of the JSON fields they
 name

Fields of nested structs were looked up in the wrong object, computed
fields were not seen when encoding, floating point values were truncated
and names differing in case were confused.
---
 include/cli_helpers.h  |  3 ++
 src/cli/cmd_decode.c   |  2 +
 src/cli/cmd_encode.c   |  2 +
 src/cli/json_binding.c | 94 ++++++++++++++++++++++++++++++++++++------
 4 files changed, 88 insertions(+), 13 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 6541e40..eabc520 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -31,6 +31,7 @@ void free_il(ILFile* il);
 typedef struct {
     ILFile* il;
     cJSON* stack[32]; // Stack for nested objects
+    const char* path[32]; // Key name of each of these objects
     int depth;
 
     // For robust array handling
@@ -39,6 +40,8 @@ typedef struct {
     int array_start_depth[32]; // Stack for io->depth when array started
     int array_depth; // Current depth in array stack
     
+    uint8_t* key_types; // Type last seen per key id (il->str_count entries)
+
     int hex_mode; // Flag to enable hex string output for byte arrays
 
     // State for hex string accumulation for current byte array
diff --git a/src/cli/cmd_decode.c b/src/cli/cmd_decode.c
index d6dff1d..9a2341f 100644
--- a/src/cli/cmd_decode.c
+++ b/src/cli/cmd_decode.c
@@ -22,6 +22,7 @@ int cmd_decode(int argc, char** argv) {
     static IOCtx io_ctx; // Made static to persist
     memset(&io_ctx, 0, sizeof(IOCtx)); // Initialize all fields to 0
     io_ctx.il = &il;
+    io_ctx.key_types = calloc(il.str_count ? il.str_count : 1, 1);
     io_ctx.stack[0] = root;
     io_ctx.depth = 0;
     io_ctx.array_depth = 0; // Initialize array depth
@@ -53,6 +54,7 @@ int cmd_decode(int argc, char** argv) {
     
     free(out_json);
     cJSON_Delete(root);
+    free(io_ctx.key_types);
     free(bin_data);
     free_il(&il);
     return 0;
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index c186fe1..8712c30 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -25,6 +25,7 @@ int cmd_encode(int argc, char** argv) {
     
     static IOCtx io_ctx; // Made static to persist
     io_ctx.il = &il;
+    io_ctx.key_types = calloc(il.str_count ? il.str_count : 1, 1);
     io_ctx.stack[0] = root;
     io_ctx.depth = 0;
     io_ctx.array_depth = 0; // Initialize array depth
@@ -49,6 +50,7 @@ int cmd_encode(int argc, char** argv) {
     
     // fprintf(stderr, "DEBUG: Cleaning up...\n");
     cJSON_Delete(root);
+    free(io_ctx.key_types);
     free_il(&il);
     // fprintf(stderr, "DEBUG: Done.\n");
     return 0;
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index c373099..60dc35a 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -79,7 +79,7 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
     }
 
     if (ctx->mode == CND_MODE_ENCODE) {
-        cJSON* item = cJSON_GetObjectItem(parent, key_name);
+        cJSON* item = cJSON_GetObjectItemCaseSensitive(parent, key_name);
         // Bytes may be given as a hex string, as 'decode --hex' writes them
         if (cJSON_IsString(item) && next_is_byte(ctx)) {
             cJSON* bytes = hex_to_array(item->valuestring);
@@ -149,7 +149,7 @@ static bool get_integer(const cJSON* item, bool* negative, uint64_t* magnitude)
         *magnitude = (uint64_t)d;
         return true;
     }
-    if (!cJSON_IsString(item)) return false;
+    if (!cJSON_IsString(item) && !cJSON_IsRaw(item)) return false;
     const char* s = item->valuestring;
     *negative = (*s == '-');
     if (*negative) s++;
@@ -302,6 +302,69 @@ static const char* get_json_key(const char* key_name) {
     return dot ? (dot + 1) : key_name;
 }
 
+// Helper: the value a (dot-separated) key refers to, within the current object
+static cJSON* find_field(IOCtx* io, const char* key_name_full) {
+    cJSON* item = io->stack[io->depth];
+    const char* path = io->depth > 0 ? io->path[io->depth] : "";
+    size_t path_len = strlen(path);
+    if (path_len > 0 && strncmp(key_name_full, path, path_len) == 0 && key_name_full[path_len] == '.') {
+        key_name_full += path_len + 1;
+    }
+    char name[256];
+    while (item) {
+        size_t len = strcspn(key_name_full, ".");
+        if (len >= sizeof(name)) return NULL;
+        memcpy(name, key_name_full, len);
+        name[len] = '\0';
+        item = cJSON_GetObjectItemCaseSensitive(item, name);
+        if (key_name_full[len] == '\0') break;
+        key_name_full += len + 1;
+    }
+    return item;
+}
+
+// Types of the fields met so far: expressions take the value of a floating point field as a double
+static void set_key_type(IOCtx* io, uint16_t key_id, uint8_t type) {
+    if (io->key_types && key_id < io->il->str_count) io->key_types[key_id] = type;
+}
+
+static bool get_context_value(IOCtx* io, uint16_t key_id, const cJSON* item, uint64_t* out) {
+    uint8_t type = (io->key_types && key_id < io->il->str_count) ? io->key_types[key_id] : 0;
+    bool negative;
+    double d;
+    if (cJSON_IsBool(item)) {
+        *out = cJSON_IsTrue(item) ? 1 : 0;
+    } else if (type == OP_IO_F32 || type == OP_IO_F64) {
+        if (cJSON_IsRaw(item)) d = strtod(item->valuestring, NULL);
+        else if (!get_double(item, &d)) return false;
+        if (type == OP_IO_F32) d = (double)(float)d;
+        memcpy(out, &d, sizeof(d));
+    } else {
+        if (!get_integer(item, &negative, out)) return false;
+        if (negative) *out = 0 - *out;
+    }
+    return true;
+}
+
+// The JSON value of a computed field
+static cJSON* create_stored(uint8_t type, uint64_t v) {
+    double d;
+    memcpy(&d, &v, sizeof(d));
+    switch (type) {
+        case OP_IO_U8:  return create_unsigned((uint8_t)v);
+        case OP_IO_U16: return create_unsigned((uint16_t)v);
+        case OP_IO_U32: return create_unsigned((uint32_t)v);
+        case OP_IO_I8:  return create_signed((int8_t)v);
+        case OP_IO_I16: return create_signed((int16_t)v);
+        case OP_IO_I32: return create_signed((int32_t)v);
+        case OP_IO_I64: return create_signed((int64_t)v);
+        case OP_IO_F32: return create_float((float)d);
+        case OP_IO_F64: return create_double(d);
+        case OP_IO_BOOL: return cJSON_CreateBool(v != 0);
+        default: return create_unsigned(v);
+    }
+}
+
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
     IOCtx* io = (IOCtx*)ctx->user_ptr;
     
@@ -329,15 +392,17 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             }
         } else {
             // In object
-            if (ctx->mode == CND_MODE_ENCODE) item = cJSON_GetObjectItem(current, key_name);
+            if (ctx->mode == CND_MODE_ENCODE) item = cJSON_GetObjectItemCaseSensitive(current, key_name);
             else {
                 item = cJSON_CreateObject();
                 cJSON_AddItemToObject(current, key_name, item);
             }
         }
         
-        if (!item && ctx->mode == CND_MODE_ENCODE) return CND_ERR_CALLBACK;
+        if (!cJSON_IsObject(item)) return CND_ERR_CALLBACK;
+        if (io->depth >= 31) return CND_ERR_CALLBACK;
         io->stack[++io->depth] = item;
+        io->path[io->depth] = key_name_full;
         return CND_ERR_OK;
     }
     
@@ -372,25 +437,28 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
 
     // Handle Control Flow
     if (type == OP_CTX_QUERY || type == OP_LOAD_CTX) {
-        cJSON* item = cJSON_GetObjectItem(current, key_name);
-        if (!item) {
-            printf("JSON_BINDING: Query failed for key '%s'\n", key_name);
+        cJSON* item = find_field(io, key_name_full);
+        if (!item || !get_context_value(io, key_id, item, (uint64_t*)ptr)) {
+            printf("JSON_BINDING: Query failed for key '%s'\n", key_name_full);
             return CND_ERR_CALLBACK;
         }
-        if (cJSON_IsBool(item)) *(uint64_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
-        else *(uint64_t*)ptr = (uint64_t)item->valuedouble;
         return CND_ERR_OK;
     }
 
     if (type == OP_STORE_CTX) {
-        if (ctx->mode == CND_MODE_DECODE) {
-            uint64_t val = *(uint64_t*)ptr;
-            cJSON_AddNumberToObject(current, key_name, (double)val);
+        // The field's type is that of the OP_EMIT that follows
+        uint8_t field_type = OP_IO_U64;
+        if (ctx->ip + 1 < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_EMIT) {
+            field_type = ctx->program->bytecode[ctx->ip + 1];
         }
+        set_key_type(io, key_id, field_type);
+        cJSON_DeleteItemFromObjectCaseSensitive(current, key_name);
+        cJSON_AddItemToObject(current, key_name, create_stored(field_type, *(uint64_t*)ptr));
         return CND_ERR_OK;
     }
 
     // Handle Primitives
+    set_key_type(io, key_id, type);
     cJSON* item_to_process = NULL;
     if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
         if (ctx->mode == CND_MODE_ENCODE) {
@@ -398,7 +466,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             io->array_index_stack[io->array_depth - 1]++;
         }
     } else {
-        if (ctx->mode == CND_MODE_ENCODE) item_to_process = cJSON_GetObjectItem(current, key_name);
+        if (ctx->mode == CND_MODE_ENCODE) item_to_process = cJSON_GetObjectItemCaseSensitive(current, key_name);
     }
 
     // Special handling for Primitive Add (Decode) inside json_io_callback to keep it simple with `val` addition
-- 
2.43.0


From e778e5829cc1d771c73d262af54643812f4f976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:56 +0000
Subject: [PATCH 35/59] fix: long messages, unusable input and failing writes
 in the command line tool

---
 src/cli/cli_helpers.c | 75 ++++++++++++++++++++++---------------------
 src/cli/cmd_decode.c  |  2 +-
 src/cli/cmd_encode.c  | 28 +++++++++++++---
 3 files changed, 62 insertions(+), 43 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..1ec5ea7 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -2,54 +2,56 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <limits.h>
 #include "cli_helpers.h"
 
 // =================================================================================================
 // File IO Helpers
 // =================================================================================================
 
-uint8_t* read_file_bytes(const char* path, size_t* out_len) {
+// Contents of a file, followed by a zero byte
+static uint8_t* read_file(const char* path, size_t* out_len) {
     FILE* f = fopen(path, "rb");
     if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* buf = malloc(size);
-    if (buf) fread(buf, 1, size, f);
+    long size = -1;
+    if (fseek(f, 0, SEEK_END) == 0) size = ftell(f);
+    uint8_t* buf = NULL;
+    if (size >= 0 && size < LONG_MAX && fseek(f, 0, SEEK_SET) == 0) buf = malloc((size_t)size + 1);
+    if (buf) {
+        size_t len = fread(buf, 1, (size_t)size, f);
+        buf[len] = '\0';
+        if (len != (size_t)size) {
+            free(buf);
+            buf = NULL;
+        }
+    }
     fclose(f);
-    if (out_len) *out_len = size;
+    if (buf && out_len) *out_len = (size_t)size;
     return buf;
 }
 
+uint8_t* read_file_bytes(const char* path, size_t* out_len) {
+    return read_file(path, out_len);
+}
+
 char* read_file_text(const char* path) {
-    FILE* f = fopen(path, "rb");
-    if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char* buf = malloc(size + 1);
-    if (buf) {
-        fread(buf, 1, size, f);
-        buf[size] = '\0';
-    }
-    fclose(f);
-    return buf;
+    return (char*)read_file(path, NULL);
 }
 
 int write_file_bytes(const char* path, const uint8_t* data, size_t len) {
     FILE* f = fopen(path, "wb");
     if (!f) return 0;
-    fwrite(data, 1, len, f);
-    fclose(f);
-    return 1;
+    int ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 int write_file_text(const char* path, const char* text) {
     FILE* f = fopen(path, "w");
     if (!f) return 0;
-    fputs(text, f);
-    fclose(f);
-    return 1;
+    int ok = fputs(text, f) >= 0;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 // =================================================================================================
@@ -60,26 +62,25 @@ int load_il(const char* path, ILFile* il) {
     il->raw_data = read_file_bytes(path, &il->raw_len);
     if (!il->raw_data) return 0;
     
-    if (il->raw_len < 16 || memcmp(il->raw_data, "CNDIL", 5) != 0) {
-        printf("Invalid IL file magic\n");
+    // The image is checked as the library checks it
+    cnd_program program;
+    if (cnd_program_load_il(&program, il->raw_data, il->raw_len) != CND_ERR_OK) {
+        printf("Invalid IL file\n");
+        free(il->raw_data);
         return 0;
     }
     
-    il->str_count = *(uint16_t*)(il->raw_data + 6);
-    uint32_t str_offset = *(uint32_t*)(il->raw_data + 8);
-    uint32_t bc_offset = *(uint32_t*)(il->raw_data + 12);
-    
-    if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
-
-    il->string_table = malloc(il->str_count * sizeof(char*));
-    const char* ptr = (const char*)(il->raw_data + str_offset);
+    il->str_count = program.string_count;
+    il->string_table = malloc((il->str_count + (size_t)1) * sizeof(char*));
+    if (!il->string_table) { free(il->raw_data); return 0; }
+    const char* ptr = program.string_table;
     for (int i = 0; i < il->str_count; i++) {
         il->string_table[i] = ptr;
         ptr += strlen(ptr) + 1;
     }
     
-    il->bytecode = il->raw_data + bc_offset;
-    il->bytecode_len = il->raw_len - bc_offset;
+    il->bytecode = program.bytecode;
+    il->bytecode_len = program.bytecode_len;
     
     return 1;
 }
diff --git a/src/cli/cmd_decode.c b/src/cli/cmd_decode.c
index 9a2341f..ee9172f 100644
--- a/src/cli/cmd_decode.c
+++ b/src/cli/cmd_decode.c
@@ -49,7 +49,7 @@ int cmd_decode(int argc, char** argv) {
         return 1;
     }
     
-    write_file_text(argv[4], out_json);
+    if (!write_file_text(argv[4], out_json)) { printf("Failed to write %s\n", argv[4]); return 1; }
     printf("Decoded to %s\n", argv[4]);
     
     free(out_json);
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index 8712c30..491c625 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -1,5 +1,8 @@
 #include "cli_helpers.h"
 
+// Messages longer than this are refused
+#define MAX_MESSAGE ((size_t)64 * 1024 * 1024)
+
 int cmd_encode(int argc, char** argv) {
     if (argc < 5) {
         printf("Usage: cnd encode <schema.il> <input.json> <output.bin>\n");
@@ -15,13 +18,16 @@ int cmd_encode(int argc, char** argv) {
     char* quoted = quote_long_integers(json_text);
     free(json_text);
     if (!quoted) { printf("Failed to read JSON\n"); return 1; }
-    cJSON* root = cJSON_Parse(quoted);
+    cJSON* root = cJSON_ParseWithOpts(quoted, NULL, 1);
     free(quoted);
     if (!root) { printf("Failed to parse JSON\n"); return 1; }
     
+    if (!cJSON_IsObject(root)) { printf("JSON is not an object\n"); return 1; }
+    
     // Encode
-    uint8_t buffer[1024]; 
-    memset(buffer, 0, sizeof(buffer));
+    size_t buffer_len = 1024;
+    uint8_t* buffer = calloc(buffer_len, 1);
+    if (!buffer) { printf("Out of memory\n"); return 1; }
     
     static IOCtx io_ctx; // Made static to persist
     io_ctx.il = &il;
@@ -33,9 +39,20 @@ int cmd_encode(int argc, char** argv) {
     cnd_vm_ctx vm;
     cnd_program program;
     cnd_program_load(&program, il.bytecode, il.bytecode_len);
-    cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, sizeof(buffer), json_io_callback, &io_ctx);
+    cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, buffer_len, json_io_callback, &io_ctx);
     
     cnd_error_t err = cnd_execute(&vm);
+    // The message may be longer: start again with more room
+    while (err == CND_ERR_OOB && buffer_len < MAX_MESSAGE) {
+        free(buffer);
+        buffer_len *= 4;
+        buffer = calloc(buffer_len, 1);
+        if (!buffer) { printf("Out of memory\n"); return 1; }
+        io_ctx.depth = 0;
+        io_ctx.array_depth = 0;
+        cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, buffer_len, json_io_callback, &io_ctx);
+        err = cnd_execute(&vm);
+    }
     //fprintf(stderr, "DEBUG: cnd_execute returned %d\n", err);
     if (err != CND_ERR_OK) {
         fprintf(stderr, "VM Error: %d\n", err);
@@ -45,12 +62,13 @@ int cmd_encode(int argc, char** argv) {
     // fprintf(stderr, "DEBUG: Writing file...\n");
     size_t final_len = vm.cursor;
     if (vm.bit_offset > 0) final_len++;
-    write_file_bytes(argv[4], buffer, final_len);
+    if (!write_file_bytes(argv[4], buffer, final_len)) { printf("Failed to write %s\n", argv[4]); return 1; }
     // fprintf(stderr, "Encoded %zu bytes to %s\n", final_len, argv[4]);
     
     // fprintf(stderr, "DEBUG: Cleaning up...\n");
     cJSON_Delete(root);
     free(io_ctx.key_types);
+    free(buffer);
     free_il(&il);
     // fprintf(stderr, "DEBUG: Done.\n");
     return 0;
-- 
2.43.0


From ad52311f76d30d8920e8f2b0958953cbb49f44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:22 +0000
Subject: [PATCH 36/59] fix: arrays up to the end of the message in the command
 line tool

Decoding repeated the member for every element, and encoding wrote its
first value until the buffer was full.
---
 include/cli_helpers.h  |   6 +++
 src/cli/cmd_encode.c   |  13 +++++-
 src/cli/json_binding.c | 103 ++++++++++++++++++++++++++++++-----------
 3 files changed, 92 insertions(+), 30 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index eabc520..753b14d 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -38,10 +38,16 @@ typedef struct {
     cJSON* array_stack[32]; // Stack for current array cJSON object
     int array_index_stack[32]; // Stack for current index within that array
     int array_start_depth[32]; // Stack for io->depth when array started
+    int array_loop_depth[32]; // Stack for ctx->loop_depth of the array's loop
+    bool array_until_end[32]; // Stack for arrays up to the end of the message
     int array_depth; // Current depth in array stack
     
     uint8_t* key_types; // Type last seen per key id (il->str_count entries)
 
+    // Encoding an array up to the end of the message: set when its elements are used up
+    bool at_end;
+    size_t message_end;
+
     int hex_mode; // Flag to enable hex string output for byte arrays
 
     // State for hex string accumulation for current byte array
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index 491c625..a3a46d3 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -42,8 +42,9 @@ int cmd_encode(int argc, char** argv) {
     cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, buffer_len, json_io_callback, &io_ctx);
     
     cnd_error_t err = cnd_execute(&vm);
-    // The message may be longer: start again with more room
-    while (err == CND_ERR_OOB && buffer_len < MAX_MESSAGE) {
+    // The message may be longer: start again with more room (an array up to the
+    // end of the message stops where there is none)
+    while ((err == CND_ERR_OOB || (err == CND_ERR_OK && vm.cursor == buffer_len)) && buffer_len < MAX_MESSAGE) {
         free(buffer);
         buffer_len *= 4;
         buffer = calloc(buffer_len, 1);
@@ -53,6 +54,14 @@ int cmd_encode(int argc, char** argv) {
         cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, buffer_len, json_io_callback, &io_ctx);
         err = cnd_execute(&vm);
     }
+    // Such an array makes the message end with its last element
+    if (err == CND_ERR_CALLBACK && io_ctx.at_end) {
+        memset(buffer, 0, buffer_len);
+        io_ctx.depth = 0;
+        io_ctx.array_depth = 0;
+        cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, io_ctx.message_end, json_io_callback, &io_ctx);
+        err = cnd_execute(&vm);
+    }
     //fprintf(stderr, "DEBUG: cnd_execute returned %d\n", err);
     if (err != CND_ERR_OK) {
         fprintf(stderr, "VM Error: %d\n", err);
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 60dc35a..56dbe89 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -71,6 +71,35 @@ static uint32_t string_length(const cnd_vm_ctx* ctx, uint8_t type, const uint8_t
     return len;
 }
 
+static cnd_error_t push_array(IOCtx* io, cJSON* item, int loop_depth, bool until_end) {
+    if (io->array_depth >= 31) return CND_ERR_OOB;
+    io->array_stack[io->array_depth] = item;
+    io->array_index_stack[io->array_depth] = 0;
+    io->array_start_depth[io->array_depth] = io->depth;
+    io->array_loop_depth[io->array_depth] = loop_depth;
+    io->array_until_end[io->array_depth] = until_end;
+    io->array_depth++;
+    return CND_ERR_OK;
+}
+
+// Add an array (or a hex string in its place) to the decoded object
+static cnd_error_t open_array(IOCtx* io, const char* key_name, cJSON* parent, bool is_hex_array, int loop_depth, bool until_end) {
+    cJSON* new_item;
+    if (is_hex_array) {
+        new_item = cJSON_CreateString(""); // Placeholder
+        io->in_hex_byte_array = true;
+        io->hex_str_buffer_len = 0;
+        if (io->hex_str_buffer) free(io->hex_str_buffer);
+        io->hex_str_buffer = NULL;
+        io->hex_str_buffer_capacity = 0;
+    } else {
+        new_item = cJSON_CreateArray();
+    }
+    
+    cJSON_AddItemToObject(parent, key_name, new_item);
+    return push_array(io, new_item, loop_depth, until_end);
+}
+
 static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
     // Determine if this array should be treated as a Hex String (byte array)
     bool is_hex_array = false;
@@ -84,7 +113,7 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
         if (cJSON_IsString(item) && next_is_byte(ctx)) {
             cJSON* bytes = hex_to_array(item->valuestring);
             if (!bytes) return CND_ERR_CALLBACK;
-            cJSON_ReplaceItemViaPointer(parent, item, bytes);
+            cJSON_ReplaceItemInObjectCaseSensitive(parent, key_name, bytes);
             item = bytes;
         }
         if (item && !cJSON_IsArray(item)) return CND_ERR_CALLBACK;
@@ -103,39 +132,30 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
         // There is no OP_ARR_END for an empty array
         if (array_count(type, ptr) == 0) return CND_ERR_OK;
 
-        // Push stack
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        io->array_stack[io->array_depth] = item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
+        return push_array(io, item, ctx->loop_depth + 1, false);
     } else { // DECODE
         if (array_count(type, ptr) == 0) { // There will be no OP_ARR_END
             cJSON_AddItemToObject(parent, key_name, is_hex_array ? cJSON_CreateString("") : cJSON_CreateArray());
             return CND_ERR_OK;
         }
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        
-        cJSON* new_item;
-        if (is_hex_array) {
-            new_item = cJSON_CreateString(""); // Placeholder
-            io->in_hex_byte_array = true;
-            io->hex_str_buffer_len = 0;
-            if (io->hex_str_buffer) free(io->hex_str_buffer);
-            io->hex_str_buffer = NULL;
-            io->hex_str_buffer_capacity = 0;
-        } else {
-            new_item = cJSON_CreateArray();
-        }
-        
-        cJSON_AddItemToObject(parent, key_name, new_item);
-        
-        io->array_stack[io->array_depth] = new_item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
+        return open_array(io, key_name, parent, is_hex_array, ctx->loop_depth + 1, false);
     }
-    return CND_ERR_OK;
+}
+
+// The VM does not announce an array up to the end of the message: it is met with its first element
+static cnd_error_t handle_eof_array(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent) {
+    if (ctx->mode == CND_MODE_DECODE) {
+        return open_array(io, key_name, parent, io->hex_mode && type == OP_IO_U8, ctx->loop_depth, true);
+    }
+    cJSON* item = cJSON_GetObjectItemCaseSensitive(parent, key_name);
+    if (cJSON_IsString(item) && type == OP_IO_U8) {
+        cJSON* bytes = hex_to_array(item->valuestring);
+        if (!bytes) return CND_ERR_CALLBACK;
+        cJSON_ReplaceItemInObjectCaseSensitive(parent, key_name, bytes);
+        item = bytes;
+    }
+    if (item && !cJSON_IsArray(item)) return CND_ERR_CALLBACK;
+    return push_array(io, item, ctx->loop_depth, true);
 }
 
 // --- Numbers ---
@@ -365,6 +385,17 @@ static cJSON* create_stored(uint8_t type, uint64_t v) {
     }
 }
 
+// Helper: does this notification start an array element, if it comes at the level of the array?
+static bool is_element(uint8_t type) {
+    switch (type) {
+        case OP_EXIT_STRUCT: case OP_ARR_END: case OP_CTX_QUERY: case OP_LOAD_CTX: case OP_STORE_CTX: case OP_RAW_BYTES:
+        case OP_ARR_FIXED: case OP_ARR_DYNAMIC: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+            return false;
+        default:
+            return true;
+    }
+}
+
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
     IOCtx* io = (IOCtx*)ctx->user_ptr;
     
@@ -378,6 +409,22 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
     // Get Current Context
     cJSON* current = io->stack[io->depth];
     
+    // Handle Arrays up to the end of the message
+    if (is_element(type) && ctx->loop_depth > 0 && ctx->loop_stack[ctx->loop_depth - 1].until_end) {
+        if (io->array_depth == 0 || io->array_loop_depth[io->array_depth - 1] < ctx->loop_depth) {
+            cnd_error_t err = handle_eof_array(io, ctx, type, key_name, current);
+            if (err != CND_ERR_OK) return err;
+        }
+        int top = io->array_depth - 1;
+        if (ctx->mode == CND_MODE_ENCODE && io->array_until_end[top] && io->depth == io->array_start_depth[top] &&
+            io->array_index_stack[top] >= cJSON_GetArraySize(io->array_stack[top])) {
+            // There are no more elements: this is where the message has to end
+            io->at_end = true;
+            io->message_end = ctx->cursor + (ctx->bit_offset > 0 ? 1 : 0);
+            return CND_ERR_CALLBACK;
+        }
+    }
+
     // Handle Structs
     if (type == OP_ENTER_STRUCT) {
         cJSON* item = NULL;
-- 
2.43.0


From 2d3d48a540d87c9cb98873b2beef6728e5cc9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 37/59] fix: a bit field of no width in a JSON value

---
 src/cli/json_binding.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 56dbe89..4101558 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -213,7 +213,8 @@ static bool get_double(const cJSON* item, double* out) {
 
 // Width of the bit field being transferred, the last operand of its instruction
 static int bit_width(const cnd_vm_ctx* ctx) {
-    return ctx->ip > 0 ? ctx->program->bytecode[ctx->ip - 1] : 64;
+    int bits = ctx->ip > 0 ? ctx->program->bytecode[ctx->ip - 1] : 64;
+    return bits >= 1 && bits <= 64 ? bits : 64;
 }
 
 static cnd_error_t handle_primitive(cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
-- 
2.43.0


From b8c7205d7e4716ebfe7a41666fd15b136f8c7654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 38/59] fix: refuse a terminated string without its terminator

When decoding, the byte after the maximum length was skipped whatever it
was, and the host was given characters without an end.
---
 src/vm/vm_exec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5cb9e3d..07ebc2a 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1238,6 +1238,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     }
 
                     if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
+                    // The host gets no length: the terminator has to be there
+                    if (ctx->data_buffer[ctx->cursor] != 0x00) return CND_ERR_VALIDATION;
                     
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
-- 
2.43.0


From 0347f62d6e36006dbe4ffe102ee0c1257adac818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:34 +0000
Subject: [PATCH 39/59] fix: strings with zero characters in JSON

---
 include/cli_helpers.h  |  2 ++
 src/cli/cli_helpers.c  |  8 ++++++-
 src/cli/cmd_encode.c   |  1 +
 src/cli/json_binding.c | 48 ++++++++++++++++++++++++++++++++++++++----
 4 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 753b14d..57f0ce2 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -56,6 +56,8 @@ typedef struct {
     size_t hex_str_buffer_len;
     size_t hex_str_buffer_capacity;
 } IOCtx;
+// Does a string of the document contain \u0000, which neither cJSON nor the VM can hand over?
+bool has_zero_character(const char* json);
 // Integers with more digits than a double holds, as strings; to be freed by the caller
 char* quote_long_integers(const char* json);
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr);
diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 1ec5ea7..0feb2af 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -35,7 +35,13 @@ uint8_t* read_file_bytes(const char* path, size_t* out_len) {
 }
 
 char* read_file_text(const char* path) {
-    return (char*)read_file(path, NULL);
+    size_t len = 0;
+    char* text = (char*)read_file(path, &len);
+    if (text && memchr(text, '\0', len)) { // not a text
+        free(text);
+        return NULL;
+    }
+    return text;
 }
 
 int write_file_bytes(const char* path, const uint8_t* data, size_t len) {
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index a3a46d3..0d25694 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -15,6 +15,7 @@ int cmd_encode(int argc, char** argv) {
     char* json_text = read_file_text(argv[3]);
     if (!json_text) { printf("Failed to read JSON\n"); return 1; }
     
+    if (has_zero_character(json_text)) { printf("Strings with \\u0000 cannot be encoded\n"); return 1; }
     char* quoted = quote_long_integers(json_text);
     free(json_text);
     if (!quoted) { printf("Failed to read JSON\n"); return 1; }
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 4101558..b07c218 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -291,6 +291,47 @@ static cJSON* create_double(double v) {
     return cJSON_CreateRaw(text);
 }
 
+// A string of the message; cJSON ends its strings at the first zero byte
+static cJSON* create_string(const char* str, size_t len) {
+    char* s = malloc(len + 1);
+    if (!s) return NULL;
+    memcpy(s, str, len);
+    s[len] = '\0';
+    cJSON* plain = cJSON_CreateString(s);
+    if (strlen(s) == len) {
+        free(s);
+        return plain;
+    }
+    cJSON_Delete(plain);
+    char* text = malloc(6 * len + 3);
+    if (!text) { free(s); return NULL; }
+    size_t n = 0;
+    text[n++] = '"';
+    for (size_t i = 0; i <= len; i += strlen(s + i) + 1) {
+        cJSON* part = cJSON_CreateString(s + i);
+        char* quoted = cJSON_PrintUnformatted(part);
+        cJSON_Delete(part);
+        if (!quoted) { free(s); free(text); return NULL; }
+        if (i > 0) { memcpy(text + n, "\\u0000", 6); n += 6; }
+        memcpy(text + n, quoted + 1, strlen(quoted) - 2);
+        n += strlen(quoted) - 2;
+        cJSON_free(quoted);
+    }
+    text[n++] = '"';
+    text[n] = '\0';
+    cJSON* raw = cJSON_CreateRaw(text);
+    free(s);
+    free(text);
+    return raw;
+}
+
+bool has_zero_character(const char* json) {
+    for (const char* s = strchr(json, '\\'); s && s[1]; s = strchr(s + 2, '\\')) {
+        if (strncmp(s, "\\u0000", 6) == 0) return true;
+    }
+    return false;
+}
+
 char* quote_long_integers(const char* json) {
     size_t len = strlen(json), n = 0;
     char* out = malloc(2 * len + 3);
@@ -545,10 +586,9 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             case OP_STR_PRE_U16:
             case OP_STR_PRE_U32: {
                 uint32_t len = string_length(ctx, type, (const uint8_t*)ptr);
-                char* s = malloc((size_t)len + 1);
-                if (!s) return CND_ERR_CALLBACK;
-                memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
+                val = create_string((const char*)ptr, len);
+                if (!val) return CND_ERR_CALLBACK;
+                break;
             }
         }
         
-- 
2.43.0


From 3401de83103eb2dd7754a846a421e752719ff502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:46 +0000
Subject: [PATCH 40/59] fix: expressions see computed values that are not
 finite

---
 src/cli/json_binding.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index b07c218..c7807b5 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -271,10 +271,10 @@ static cJSON* create_integer(bool negative, uint64_t magnitude) {
 static cJSON* create_unsigned(uint64_t v) { return create_integer(false, v); }
 static cJSON* create_signed(int64_t v) { return create_integer(v < 0, v < 0 ? 0 - (uint64_t)v : (uint64_t)v); }
 
-// The shortest of the notations that read as the same number
+// The shortest of the notations that read as the same number (NaN and infinity have none: cJSON writes null)
 static cJSON* create_float(float v) {
     char text[32];
-    if (!isfinite(v)) return cJSON_CreateNull();
+    if (!isfinite(v)) return cJSON_CreateNumber(v);
     for (int digits = 6; digits <= 9; digits++) {
         snprintf(text, sizeof(text), "%.*g", digits, (double)v);
         if ((float)strtod(text, NULL) == v) break;
@@ -283,7 +283,7 @@ static cJSON* create_float(float v) {
 }
 static cJSON* create_double(double v) {
     char text[32];
-    if (!isfinite(v)) return cJSON_CreateNull();
+    if (!isfinite(v)) return cJSON_CreateNumber(v);
     for (int digits = 15; digits <= 17; digits++) {
         snprintf(text, sizeof(text), "%.*g", digits, v);
         if (strtod(text, NULL) == v) break;
@@ -398,6 +398,7 @@ static bool get_context_value(IOCtx* io, uint16_t key_id, const cJSON* item, uin
         *out = cJSON_IsTrue(item) ? 1 : 0;
     } else if (type == OP_IO_F32 || type == OP_IO_F64) {
         if (cJSON_IsRaw(item)) d = strtod(item->valuestring, NULL);
+        else if (cJSON_IsNumber(item)) d = item->valuedouble;
         else if (!get_double(item, &d)) return false;
         if (type == OP_IO_F32) d = (double)(float)d;
         memcpy(out, &d, sizeof(d));
-- 
2.43.0


From 227f1566f90aa69f7c37c12a0da3773515166bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:04 +0000
Subject: [PATCH 41/59] fix: the language server answers every request, and
 only requests

---
 src/cli/cmd_lsp.c | 118 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 82 insertions(+), 36 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index a9d1454..7770ecf 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -67,32 +67,51 @@ static void send_json(cJSON* json) {
     free(str);
 }
 
-static cJSON* read_json(void) {
+// The next message in *json (NULL if it is no JSON); returns 0 at the end of the input
+static int read_json(cJSON** json) {
     // Read header: "Content-Length: <N>\r\n\r\n"
     size_t content_len = 0;
+    int has_len = 0;
+    *json = NULL;
     while (1) {
         char line[1024];
         // fgets reads until newline. In binary mode, \r\n is preserved.
-        if (!fgets(line, sizeof(line), stdin)) return NULL;
+        if (!fgets(line, sizeof(line), stdin)) return 0;
         
-        if (strncmp(line, "Content-Length: ", 16) == 0) {
-            content_len = atoi(line + 16);
+        if (strncmp(line, "Content-Length:", 15) == 0) {
+            char* end;
+            content_len = (size_t)strtoull(line + 15, &end, 10);
+            has_len = end != line + 15 && !strchr(line + 15, '-');
         } else if (strcmp(line, "\r\n") == 0 || strcmp(line, "\n") == 0) { 
             // Handle both \r\n and \n just in case, though spec says \r\n
             break; // End of headers
         }
     }
     
-    if (content_len == 0) return NULL;
-    
-    char* buf = malloc(content_len + 1);
-    if (!buf) return NULL;
-    size_t read_len = fread(buf, 1, content_len, stdin);
-    buf[read_len] = 0;
-    
-    cJSON* json = cJSON_Parse(buf);
-    free(buf);
-    return json;
+    if (!has_len) return 1;
+    
+    // The content, in pieces: the length given may be wrong
+    char* buf = NULL;
+    size_t read_len = 0, cap = 0;
+    while (read_len < content_len) {
+        size_t want = content_len - read_len;
+        if (want > 65536) want = 65536;
+        if (read_len + want >= cap) {
+            cap = (read_len + want) * 2;
+            char* more = realloc(buf, cap);
+            if (!more) break;
+            buf = more;
+        }
+        size_t n = fread(buf + read_len, 1, want, stdin);
+        if (n == 0) break;
+        read_len += n;
+    }
+    if (buf) {
+        buf[read_len] = 0;
+        *json = cJSON_Parse(buf);
+        free(buf);
+    }
+    return 1;
 }
 
 static void send_response(cJSON* id, cJSON* result) {
@@ -104,6 +123,23 @@ static void send_response(cJSON* id, cJSON* result) {
     cJSON_Delete(res);
 }
 
+// Error codes of JSON-RPC
+#define RPC_PARSE_ERROR (-32700)
+#define RPC_INVALID_REQUEST (-32600)
+#define RPC_METHOD_NOT_FOUND (-32601)
+#define RPC_INVALID_PARAMS (-32602)
+
+static void send_error(cJSON* id, int code, const char* message) {
+    cJSON* res = cJSON_CreateObject();
+    cJSON_AddStringToObject(res, "jsonrpc", "2.0");
+    cJSON_AddItemToObject(res, "id", id ? cJSON_Duplicate(id, 1) : cJSON_CreateNull());
+    cJSON* error = cJSON_AddObjectToObject(res, "error");
+    cJSON_AddNumberToObject(error, "code", code);
+    cJSON_AddStringToObject(error, "message", message);
+    send_json(res);
+    cJSON_Delete(res);
+}
+
 // --- Document Store ---
 typedef struct {
     char* uri;
@@ -1135,38 +1171,48 @@ int cmd_lsp(int argc, char** argv) {
 #endif
 
     // Standard LSP loop
-    while (1) {
-        cJSON* req = read_json();
-        if (!req) break;
+    cJSON* req;
+    while (read_json(&req)) {
+        cJSON* id = cJSON_GetObjectItemCaseSensitive(req, "id");
+        cJSON* method_item = cJSON_GetObjectItemCaseSensitive(req, "method");
+        cJSON* params = cJSON_GetObjectItemCaseSensitive(req, "params");
+        const char* method = cJSON_GetStringValue(method_item);
         
-        cJSON* id = cJSON_GetObjectItem(req, "id");
-        cJSON* method = cJSON_GetObjectItem(req, "method");
-        cJSON* params = cJSON_GetObjectItem(req, "params");
-        
-        if (method && method->valuestring) {
-            if (strcmp(method->valuestring, "initialize") == 0) {
+        if (!req) {
+            send_error(NULL, RPC_PARSE_ERROR, "Message is not JSON");
+        } else if (!method) {
+            // Not a request (nor a response to one of ours, as there are none)
+            if (method_item || !id) send_error(id, RPC_INVALID_REQUEST, "Message without a method");
+        } else if (strcmp(method, "exit") == 0) {
+            cJSON_Delete(req);
+            return 0;
+        } else if (id) {
+            // Requests: each gets exactly one response
+            if (strcmp(method, "initialize") == 0) {
                 handle_initialize(id);
-            } else if (strcmp(method->valuestring, "textDocument/definition") == 0) {
+            } else if (strcmp(method, "textDocument/definition") == 0) {
                 handle_definition(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/hover") == 0) {
+            } else if (strcmp(method, "textDocument/hover") == 0) {
                 handle_hover(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/completion") == 0) {
+            } else if (strcmp(method, "textDocument/completion") == 0) {
                 handle_completion(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/formatting") == 0) {
+            } else if (strcmp(method, "textDocument/formatting") == 0) {
                 handle_formatting(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/documentSymbol") == 0) {
+            } else if (strcmp(method, "textDocument/documentSymbol") == 0) {
                 handle_document_symbol(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/didOpen") == 0) {
+            } else if (strcmp(method, "shutdown") == 0) {
+                send_response(id, cJSON_CreateNull());
+            } else {
+                send_error(id, RPC_METHOD_NOT_FOUND, "Unknown request");
+            }
+        } else {
+            // Notifications: no response
+            if (strcmp(method, "textDocument/didOpen") == 0) {
                 handle_didOpen(params);
-            } else if (strcmp(method->valuestring, "textDocument/didChange") == 0) {
+            } else if (strcmp(method, "textDocument/didChange") == 0) {
                 handle_didChange(params);
-            } else if (strcmp(method->valuestring, "textDocument/didSave") == 0) {
+            } else if (strcmp(method, "textDocument/didSave") == 0) {
                 handle_didSave(params);
-            } else if (strcmp(method->valuestring, "shutdown") == 0) {
-                send_response(id, cJSON_CreateNull());
-            } else if (strcmp(method->valuestring, "exit") == 0) {
-                cJSON_Delete(req);
-                return 0;
             }
         }
         
-- 
2.43.0


From bad9631309e8f79fd8cdfd1d0e864ad092bf010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 42/59] fix: the language server checks the parameters of
 messages

---
 src/cli/cmd_lsp.c | 153 +++++++++++++++++++++++++---------------------
 1 file changed, 84 insertions(+), 69 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 7770ecf..cac32ae 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -140,6 +140,25 @@ static void send_error(cJSON* id, int code, const char* message) {
     cJSON_Delete(res);
 }
 
+// --- Parameters ---
+
+// The URI of the document a message is about, or NULL
+static const char* param_uri(const cJSON* params) {
+    const cJSON* doc = cJSON_GetObjectItemCaseSensitive(params, "textDocument");
+    return cJSON_GetStringValue(cJSON_GetObjectItemCaseSensitive(doc, "uri"));
+}
+
+// The position a request is about; returns 0 if there is none
+static int param_position(const cJSON* params, int* line, int* character) {
+    const cJSON* pos = cJSON_GetObjectItemCaseSensitive(params, "position");
+    const cJSON* l = cJSON_GetObjectItemCaseSensitive(pos, "line");
+    const cJSON* c = cJSON_GetObjectItemCaseSensitive(pos, "character");
+    if (!cJSON_IsNumber(l) || !cJSON_IsNumber(c) || l->valueint < 0 || c->valueint < 0) return 0;
+    *line = l->valueint;
+    *character = c->valueint;
+    return 1;
+}
+
 // --- Document Store ---
 typedef struct {
     char* uri;
@@ -400,14 +419,8 @@ static void url_decode(const char* src, char* dst) {
     while (*src) {
         if ((*src == '%') &&
             ((a = src[1]) && (b = src[2])) &&
-            (isxdigit(a) && isxdigit(b))) {
-            if (a >= 'a') a -= 'a'-'A';
-            if (a >= 'A') a -= ('A' - 10);
-            else a -= '0';
-            if (b >= 'a') b -= 'a'-'A';
-            if (b >= 'A') b -= ('A' - 10);
-            else b -= '0';
-            *dst++ = 16*a+b;
+            (is_hex_c(a) && is_hex_c(b))) {
+            *dst++ = (char)(16 * hex_char_to_int(a) + hex_char_to_int(b));
             src+=3;
         } else {
             *dst++ = *src++;
@@ -428,7 +441,7 @@ static char* file_uri_to_path(const char* uri) {
     
     // Handle Windows "/C:/..." -> "C:/..."
     // Also handle lower case drive letter normalization if needed?
-    if (decoded[0] == '/' && isalpha(decoded[1]) && decoded[2] == ':') {
+    if (decoded[0] == '/' && isalpha((unsigned char)decoded[1]) && decoded[2] == ':') {
         char* fixed = strdup(decoded + 1);
         free(decoded);
         return fixed;
@@ -525,14 +538,15 @@ static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op
 }
 
 static void handle_completion(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = param_uri(params);
+    int line, character;
+    if (!uri || !param_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_get(uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
@@ -805,10 +819,13 @@ static void handle_completion(cJSON* id, cJSON* params) {
 }
 
 static void handle_formatting(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* uri = param_uri(params);
+    if (!uri) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
     char* source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -841,10 +858,13 @@ static void handle_formatting(cJSON* id, cJSON* params) {
 }
 
 static void handle_document_symbol(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* uri = param_uri(params);
+    if (!uri) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
     char* source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -873,7 +893,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
         cJSON_AddNumberToObject(sym, "kind", 23); // Struct
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -891,7 +911,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
         cJSON_AddNumberToObject(sym, "kind", 10); // Enum
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -974,42 +994,35 @@ static void publish_diagnostics(const char* uri, const char* source) {
 }
 
 static void handle_didOpen(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    cJSON* text = cJSON_GetObjectItem(doc, "text");
-    if (uri && text && uri->valuestring && text->valuestring) {
-        doc_update(uri->valuestring, text->valuestring);
-        publish_diagnostics(uri->valuestring, text->valuestring);
+    const char* uri = param_uri(params);
+    const cJSON* doc = cJSON_GetObjectItemCaseSensitive(params, "textDocument");
+    const char* text = cJSON_GetStringValue(cJSON_GetObjectItemCaseSensitive(doc, "text"));
+    if (uri && text) {
+        doc_update(uri, text);
+        publish_diagnostics(uri, text);
     }
 }
 
 static void handle_didChange(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    cJSON* changes = cJSON_GetObjectItem(params, "contentChanges");
-    if (uri && changes && cJSON_GetArraySize(changes) > 0) {
-        // Full sync: last change has full text
-        cJSON* lastChange = cJSON_GetArrayItem(changes, cJSON_GetArraySize(changes) - 1);
-        cJSON* text = cJSON_GetObjectItem(lastChange, "text");
-        if (text && text->valuestring) {
-            doc_update(uri->valuestring, text->valuestring);
-            publish_diagnostics(uri->valuestring, text->valuestring);
-        }
+    const char* uri = param_uri(params);
+    const cJSON* changes = cJSON_GetObjectItemCaseSensitive(params, "contentChanges");
+    // Full sync: last change has full text
+    const cJSON* last = cJSON_IsArray(changes) ? cJSON_GetArrayItem(changes, cJSON_GetArraySize(changes) - 1) : NULL;
+    const char* text = cJSON_GetStringValue(cJSON_GetObjectItemCaseSensitive(last, "text"));
+    if (uri && text) {
+        doc_update(uri, text);
+        publish_diagnostics(uri, text);
     }
 }
 
 static void handle_didSave(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
+    const char* uri = param_uri(params);
+    if (uri) {
         // We need source content. If it's a save, we can read from disk.
-        char* path = file_uri_to_path(uri->valuestring);
+        char* path = file_uri_to_path(uri);
         char* source = read_file_text(path);
         if (source) {
-            publish_diagnostics(uri->valuestring, source);
+            publish_diagnostics(uri, source);
             free(source);
         }
         free(path);
@@ -1037,16 +1050,17 @@ static void handle_initialize(cJSON* id) {
 }
 
 static void handle_definition(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = param_uri(params);
+    int line, character;
+    if (!uri || !param_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
     
     // Read file content
-    char* source = doc_get(uri_item->valuestring);
+    char* source = doc_get(uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
@@ -1068,19 +1082,19 @@ static void handle_definition(cJSON* id, cJSON* params) {
             // VS Code expects file:///...
             // If def_file is "import_a.cnd" (relative), and we opened "import_b.cnd" at "/abs/path/to/import_b.cnd",
             // the resolve_path in parser made it absolute. So res.def_file should be absolute.
-            char uri[1024];
+            char def_uri[1024];
             // Windows path handling
             if (res.def_file[1] == ':') {
-                snprintf(uri, sizeof(uri), "file:///%s", res.def_file);
+                snprintf(def_uri, sizeof(def_uri), "file:///%s", res.def_file);
             } else {
-                snprintf(uri, sizeof(uri), "file://%s", res.def_file);
+                snprintf(def_uri, sizeof(def_uri), "file://%s", res.def_file);
             }
             // Normalize backslashes to slashes for URI
-            for(int i=0; uri[i]; i++) if(uri[i] == '\\') uri[i] = '/';
+            for(int i=0; def_uri[i]; i++) if(def_uri[i] == '\\') def_uri[i] = '/';
             
-            cJSON_AddStringToObject(loc, "uri", uri);
+            cJSON_AddStringToObject(loc, "uri", def_uri);
         } else {
-            cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+            cJSON_AddStringToObject(loc, "uri", uri);
         }
 
         cJSON* range = cJSON_CreateObject();
@@ -1109,14 +1123,15 @@ static void handle_definition(cJSON* id, cJSON* params) {
 
 static void handle_hover(cJSON* id, cJSON* params) {
     // Similar to definition, but returns markdown
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = param_uri(params);
+    int line, character;
+    if (!uri || !param_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_get(uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
-- 
2.43.0


From a713959df4b5586d045fa7f9d5909506944dc1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:55 +0000
Subject: [PATCH 43/59] fix: the language server works on the text being edited

---
 src/cli/cmd_lsp.c | 54 ++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index cac32ae..06c3b57 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -195,44 +195,23 @@ static char* doc_get(const char* uri) {
     return NULL;
 }
 
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wunused-function"
-#endif
-
 static void doc_remove(const char* uri) {
-    (void)uri;
-    /*
     for (size_t i = 0; i < doc_count; i++) {
         if (strcmp(docs[i].uri, uri) == 0) {
             free(docs[i].uri);
             free(docs[i].content);
-            if (i < doc_count - 1) {
-                docs[i] = docs[doc_count - 1];
-            }
-            doc_count--;
+            docs[i] = docs[--doc_count];
             return;
         }
     }
-    */
 }
 
-static void handle_didClose(cJSON* params) {
-    (void)params; // Unused
-    /*
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
-        doc_remove(uri->valuestring);
-    }
-    */
+// The text of a document: as it is being edited, or else as it is on disk
+static char* doc_text(const char* uri, const char* path) {
+    char* text = doc_get(uri);
+    return text ? text : read_file_text(path);
 }
 
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
 // --- Analysis Logic ---
 
 static const char* get_type_name(uint8_t type) {
@@ -546,8 +525,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = doc_get(uri);
-    if (!source) source = read_file_text(path);
+    char* source = doc_text(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -826,7 +804,7 @@ static void handle_formatting(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = read_file_text(path);
+    char* source = doc_text(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -865,7 +843,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = read_file_text(path);
+    char* source = doc_text(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -1018,9 +996,8 @@ static void handle_didChange(cJSON* params) {
 static void handle_didSave(cJSON* params) {
     const char* uri = param_uri(params);
     if (uri) {
-        // We need source content. If it's a save, we can read from disk.
         char* path = file_uri_to_path(uri);
-        char* source = read_file_text(path);
+        char* source = doc_text(uri, path);
         if (source) {
             publish_diagnostics(uri, source);
             free(source);
@@ -1029,6 +1006,11 @@ static void handle_didSave(cJSON* params) {
     }
 }
 
+static void handle_didClose(cJSON* params) {
+    const char* uri = param_uri(params);
+    if (uri) doc_remove(uri);
+}
+
 static void handle_initialize(cJSON* id) {
     cJSON* res = cJSON_CreateObject();
     cJSON* cap = cJSON_CreateObject();
@@ -1060,8 +1042,7 @@ static void handle_definition(cJSON* id, cJSON* params) {
     char* path = file_uri_to_path(uri);
     
     // Read file content
-    char* source = doc_get(uri);
-    if (!source) source = read_file_text(path);
+    char* source = doc_text(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -1131,8 +1112,7 @@ static void handle_hover(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = doc_get(uri);
-    if (!source) source = read_file_text(path);
+    char* source = doc_text(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -1228,6 +1208,8 @@ int cmd_lsp(int argc, char** argv) {
                 handle_didChange(params);
             } else if (strcmp(method, "textDocument/didSave") == 0) {
                 handle_didSave(params);
+            } else if (strcmp(method, "textDocument/didClose") == 0) {
+                handle_didClose(params);
             }
         }
         
-- 
2.43.0


From 6110acbc5c05522612b81dbbdd74af04f47f44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 44/59] fix: the language server parses documents as the
 compiler does

---
 src/cli/cmd_lsp.c | 135 ++++++++++++++++++----------------------------
 1 file changed, 53 insertions(+), 82 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 06c3b57..35c234f 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -214,6 +214,49 @@ static char* doc_text(const char* uri, const char* path) {
 
 // --- Analysis Logic ---
 
+// Parse a document the way cnd_compile_file does, but silently. `path` is where it is (or is to be
+// saved): imports are relative to it.
+static void parse_document(Parser* p, const char* source, const char* path) {
+    memset(p, 0, sizeof(Parser));
+    p->silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
+
+    buf_init(&p->global_bc);
+    p->target = &p->global_bc;
+    p->outer_order = OP_SET_ENDIAN_LE;
+    strtab_init(&p->strtab);
+    strtab_init(&p->imports);
+    reg_init(&p->registry);
+    enum_reg_init(&p->enums);
+
+    // The document counts as imported: it must not be read again
+    char* canonical = cnd_canonicalize_path(path);
+    const char* doc_path = canonical ? canonical : path;
+    strtab_add(&p->imports, doc_path, (int)strlen(doc_path));
+    free(canonical);
+    p->current_path = p->imports.strings[0];
+
+    lexer_init(&p->lexer, source);
+    advance(p);
+    parse_top_level(p);
+
+    if (p->strtab.count > UINT16_MAX) parser_error(p, "Too many names");
+}
+
+// Number of errors that parsing kept
+static size_t kept_errors(const Parser* p) {
+    return (size_t)p->error_count < p->error_cap ? (size_t)p->error_count : p->error_cap;
+}
+
+static void free_parser(Parser* p) {
+    buf_free(&p->global_bc);
+    strtab_free(&p->strtab);
+    strtab_free(&p->imports);
+    reg_free(&p->registry);
+    enum_reg_free(&p->enums);
+    for (size_t i = 0; i < kept_errors(p); i++) free(p->errors[i].message);
+    free(p->errors);
+}
+
 static const char* get_type_name(uint8_t type) {
     switch (type) {
         case OP_IO_U8: return "u8";
@@ -256,24 +299,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
 
     // 1. Setup Parser to build registry
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; 
-    p.silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
-    
-    // Initialize buffers
-    Buffer bc;
-    buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab);
-    strtab_init(&p.imports);
-    reg_init(&p.registry);
-    enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = file_path; // For import resolution (might fail for relative imports if not handled) 
-    
-    advance(&p);
-    parse_top_level(&p);
+    parse_document(&p, source, file_path);
     
     // Registry is now populated. 
     
@@ -378,16 +404,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
     
     // Cleanup
 cleanup:
-    buf_free(&bc);
-    buf_free(&p.global_bc);
-    strtab_free(&p.strtab);
-    strtab_free(&p.imports);
-    reg_free(&p.registry);
-    enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    free_parser(&p);
 }
 
 // --- Handlers ---
@@ -535,18 +552,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     
     // 1. Parse to build registry
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab); strtab_init(&p.imports);
-    reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    parse_document(&p, source, path);
     
     // 2. Scan to find context
     Lexer scanner;
@@ -786,13 +792,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     // Cleanup
     if (active_decorator) free(active_decorator);
     if (active_struct) free(active_struct);
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    free_parser(&p);
     free(source); free(path);
 }
 
@@ -852,15 +852,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Parse
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    parse_document(&p, source, path);
     
     cJSON* symbols = cJSON_CreateArray();
     
@@ -902,29 +894,15 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     send_response(id, symbols);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    free_parser(&p);
     free(source); free(path);
 }
 
 static void publish_diagnostics(const char* uri, const char* source) {
     // Parse to collect errors
-    Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
     char* path = file_uri_to_path(uri);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    Parser p;
+    parse_document(&p, source, path);
     
     // Send diagnostics
     cJSON* notification = cJSON_CreateObject();
@@ -936,8 +914,7 @@ static void publish_diagnostics(const char* uri, const char* source) {
     
     cJSON* diagnostics = cJSON_CreateArray();
     
-    for (size_t i = 0; i < (size_t)p.error_count; i++) {
-        if (i >= (size_t)p.error_cap || !p.errors) break;
+    for (size_t i = 0; i < kept_errors(&p); i++) {
         CompilerError* err = &p.errors[i];
         
         cJSON* diag = cJSON_CreateObject();
@@ -953,10 +930,7 @@ static void publish_diagnostics(const char* uri, const char* source) {
         cJSON_AddStringToObject(diag, "source", "concordia");
         
         cJSON_AddItemToArray(diagnostics, diag);
-        
-        free(err->message);
     }
-    if (p.errors) free(p.errors);
     
     cJSON_AddItemToObject(params, "diagnostics", diagnostics);
     cJSON_AddItemToObject(notification, "params", params);
@@ -964,10 +938,7 @@ static void publish_diagnostics(const char* uri, const char* source) {
     send_json(notification);
     cJSON_Delete(notification);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    // p.errors already freed in loop above
+    free_parser(&p);
     free(path);
 }
 
-- 
2.43.0


From 3190c0374c2fb28f1742c46466a017842cdf50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 45/59] fix: hover texts of any length in the language server

---
 src/cli/cmd_lsp.c | 66 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 35c234f..69d5b40 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -386,18 +386,23 @@ static void analyze_source(const char* source, const char* file_path, int line,
                 }
 
                 // Generate type details
-                Buffer tb; buf_init(&tb);
-                char tmp[256];
-                snprintf(tmp, sizeof(tmp), "Type: `%s`\n\nMembers:\n", get_type_name(edef->underlying_type));
-                buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
+                StringBuilder details;
+                sb_init(&details);
+                sb_append(&details, "Type: `");
+                sb_append(&details, get_type_name(edef->underlying_type));
+                sb_append(&details, "`\n\nMembers:\n");
                 
                 for(size_t i=0; i<edef->count; i++) {
-                    snprintf(tmp, sizeof(tmp), "- `%s` = `%" PRId64 "`\n", edef->values[i].name, edef->values[i].value);
-                    buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
+                    char value[32];
+                    snprintf(value, sizeof(value), "%" PRId64, edef->values[i].value);
+                    sb_append(&details, "- `");
+                    sb_append(&details, edef->values[i].name);
+                    sb_append(&details, "` = `");
+                    sb_append(&details, value);
+                    sb_append(&details, "`\n");
                 }
-                buf_push(&tb, 0);
-                res->type_details = strdup((char*)tb.data);
-                buf_free(&tb);
+                res->type_details = sb_build(&details);
+                sb_free(&details);
             }
         }
     }
@@ -407,6 +412,13 @@ cleanup:
     free_parser(&p);
 }
 
+static void free_analysis(AnalysisResult* res) {
+    free(res->symbol_name);
+    free(res->def_file);
+    free(res->doc_comment);
+    free(res->type_details);
+}
+
 // --- Handlers ---
 
 // Helper for URI decoding
@@ -1062,13 +1074,11 @@ static void handle_definition(cJSON* id, cJSON* params) {
         cJSON_AddItemToObject(loc, "range", range);
         
         send_response(id, loc);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
     } else {
         send_response(id, cJSON_CreateNull());
     }
     
+    free_analysis(&res);
     free(source);
     free(path);
 }
@@ -1099,32 +1109,42 @@ static void handle_hover(cJSON* id, cJSON* params) {
         cJSON* contents = cJSON_CreateObject();
         cJSON_AddStringToObject(contents, "kind", "markdown");
         
-        char msg[4096]; // Increased buffer size
         const char* file_display = res.def_file ? res.def_file : "current file";
-        
-        int offset = 0;
-        offset += snprintf(msg + offset, sizeof(msg) - offset, "**%s**\n\nDefined in %s on line %d.", res.symbol_name, file_display, res.def_line + 1);
+        char line_text[32];
+        snprintf(line_text, sizeof(line_text), "%d", res.def_line + 1);
+
+        StringBuilder msg;
+        sb_init(&msg);
+        sb_append(&msg, "**");
+        sb_append(&msg, res.symbol_name);
+        sb_append(&msg, "**\n\nDefined in ");
+        sb_append(&msg, file_display);
+        sb_append(&msg, " on line ");
+        sb_append(&msg, line_text);
+        sb_append(&msg, ".");
         
         if (res.doc_comment) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.doc_comment);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.doc_comment);
         }
 
         if (res.type_details) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.type_details);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.type_details);
         }
         
-        cJSON_AddStringToObject(contents, "value", msg);
+        char* text = sb_build(&msg);
+        cJSON_AddStringToObject(contents, "value", text ? text : "");
+        free(text);
+        sb_free(&msg);
         
         cJSON_AddItemToObject(h, "contents", contents);
         send_response(id, h);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
-        if (res.type_details) free(res.type_details);
     } else {
         send_response(id, cJSON_CreateNull());
     }
     
+    free_analysis(&res);
     free(source);
     free(path);
 }
-- 
2.43.0


From 6becf06eba387c2b0501674358d2cc25e8767461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:57 +0000
Subject: [PATCH 46/59] fix: completion in the language server knows all
 instructions

---
 src/cli/cmd_lsp.c           | 180 ++++++++----------------------------
 src/compiler/cnd_internal.h |   3 +
 src/compiler/cnd_utils.c    |   2 +-
 3 files changed, 44 insertions(+), 141 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 69d5b40..00fd864 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -257,6 +257,20 @@ static void free_parser(Parser* p) {
     free(p->errors);
 }
 
+// Offset of a position in `source`: positions count UTF-16 code units, and end with the line
+static size_t position_offset(const char* source, int line, int character) {
+    const char* at = source;
+    while (line > 0 && *at) {
+        if (*at++ == '\n') line--;
+    }
+    while (character > 0 && *at && *at != '\n') {
+        unsigned char lead = (unsigned char)*at++;
+        character -= lead >= 0xF0 ? 2 : 1;
+        while (((unsigned char)*at & 0xC0) == 0x80) at++;
+    }
+    return (size_t)(at - source);
+}
+
 static const char* get_type_name(uint8_t type) {
     switch (type) {
         case OP_IO_U8: return "u8";
@@ -307,6 +321,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
     Lexer scanner;
     lexer_init(&scanner, source);
     
+    size_t cursor = position_offset(source, line, character);
     Token target_token = {TOK_EOF, NULL, 0, 0};
     int target_is_decorator = 0;
     Token prev_token = {TOK_EOF, NULL, 0, 0};
@@ -317,24 +332,11 @@ static void analyze_source(const char* source, const char* file_path, int line,
         
         // Check intersection
         // LSP lines are 0-based. Token lines are 1-based (usually).
-        // Let's assume lexer uses 1-based.
         int tok_line = t.line - 1; 
         
-        // Calculate column
-        // We need start of line pointer. 
-        // Lexer doesn't store it in Token easily without backtracking.
-        // But we can assume basic matching:
-        // If line matches...
         if (tok_line == line) {
-            // Check column. 
-            // t.start is pointer into source.
-            // We need to calculate offset from line start.
-            const char* line_start = t.start;
-            while (line_start > source && *(line_start-1) != '\n') line_start--;
-            int col_start = (int)(t.start - line_start);
-            int col_end = col_start + t.length;
-            
-            if (character >= col_start && character <= col_end) {
+            size_t tok_start = (size_t)(t.start - source);
+            if (cursor >= tok_start && cursor <= tok_start + (size_t)t.length) {
                 target_token = t;
                 if (prev_token.type == TOK_AT) target_is_decorator = 1;
                 break;
@@ -459,90 +461,25 @@ static char* file_uri_to_path(const char* uri) {
 }
 
 // --- Bytecode Helpers for Completion ---
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr >= end) return 0;
-    return *(*ptr)++;
-}
-
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
-    uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
-    *ptr += 2;
-    return v;
-}
-
-static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op) {
-    switch (op) {
-        case OP_META_VERSION: *ptr += 1; break;
-        case OP_META_NAME: *ptr += 2; break;
-        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
-        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
-        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
-        case OP_ENTER_STRUCT: *ptr += 2; break;
-        case OP_STR_NULL: *ptr += 4; break;
-        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: *ptr += 2; break;
-        case OP_IO_BIT_U: case OP_IO_BIT_I: *ptr += 3; break;
-        case OP_IO_BIT_BOOL: *ptr += 2; break;
-        case OP_ARR_FIXED: *ptr += 6; break;
-        case OP_RAW_BYTES: *ptr += 6; break;
-        case OP_CONST_WRITE: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8) *ptr += 1;
-            else if (type == OP_IO_U16) *ptr += 2;
-            else if (type == OP_IO_U32) *ptr += 4;
-            else if (type == OP_IO_U64) *ptr += 8;
-            break;
-        }
-        case OP_CONST_CHECK: {
-            *ptr += 2; // key
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) *ptr += 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) *ptr += 8;
-            break;
-        }
-        case OP_RANGE_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 2;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 4;
-            else if (type == OP_IO_U32 || type == OP_IO_I32 || type == OP_IO_F32) *ptr += 8;
-            else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) *ptr += 16;
-            break;
-        }
-        case OP_SCALE_LIN: *ptr += 16; break;
-        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: *ptr += 8; break;
-        case OP_TRANS_POLY: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 8;
-            break;
-        }
-        case OP_TRANS_SPLINE: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 16;
-            break;
-        }
-        case OP_CRC_16: *ptr += 7; break;
-        case OP_CRC_32: *ptr += 13; break;
-        case OP_ENUM_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            uint16_t count = read_u16(ptr, end);
-            int sz = 0;
-            if (type == OP_IO_U8 || type == OP_IO_I8) sz = 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) sz = 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) sz = 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) sz = 8;
-            *ptr += count * sz;
-            break;
-        }
-        case OP_SWITCH: *ptr += 6; break;
-        case OP_JUMP: case OP_JUMP_IF_NOT: *ptr += 4; break;
-        case OP_LOAD_CTX: case OP_STORE_CTX: *ptr += 2; break;
-        case OP_PUSH_IMM: *ptr += 8; break;
-        case OP_ALIGN_PAD: case OP_ALIGN_FILL: *ptr += 1; break;
-        default: break;
-    }
+typedef struct {
+    const StringTable* strtab;
+    uint8_t* seen; // Per key
+    cJSON* items;
+} FieldList;
+
+// Add the field an instruction reads or writes, unless it is listed already
+static void list_field(void* ctx, uint8_t* instr) {
+    FieldList* list = ctx;
+    if (!cnd_il_has_key(instr[0]) || instr[0] == OP_ENTER_STRUCT || instr[0] == OP_META_NAME) return;
+    uint16_t key = cnd_il_peek_u16(instr + 1);
+    if (key >= list->strtab->count || list->seen[key]) return;
+    list->seen[key] = 1;
+
+    cJSON* item = cJSON_CreateObject();
+    cJSON_AddStringToObject(item, "label", list->strtab->strings[key]);
+    cJSON_AddNumberToObject(item, "kind", 5); // Field
+    cJSON_AddStringToObject(item, "detail", "Field");
+    cJSON_AddItemToArray(list->items, item);
 }
 
 static void handle_completion(cJSON* id, cJSON* params) {
@@ -574,14 +511,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     Token prev_prev_token = {TOK_EOF, NULL, 0, 0};
     
     // Calculate cursor offset
-    size_t cursor_offset = 0;
-    int l = 0;
-    const char* ptr = source;
-    while (*ptr && l < line) {
-        if (*ptr == '\n') l++;
-        ptr++;
-    }
-    cursor_offset = (ptr - source) + character;
+    size_t cursor_offset = position_offset(source, line, character);
     
     int context_is_enum_member = 0;
     char* enum_name = NULL;
@@ -717,39 +647,9 @@ static void handle_completion(cJSON* id, cJSON* params) {
         if (active_struct) {
             StructDef* sdef = reg_find(&p.registry, active_struct, (int)strlen(active_struct));
             if (sdef && sdef->bytecode.data) {
-                const uint8_t* bc_ptr = sdef->bytecode.data;
-                const uint8_t* end = bc_ptr + sdef->bytecode.size;
-                while (bc_ptr < end) {
-                    uint8_t op = read_u8(&bc_ptr, end);
-                    // Check for IO operations that define fields
-                    if (op == OP_IO_U8 || op == OP_IO_U16 || op == OP_IO_U32 || op == OP_IO_U64 ||
-                        op == OP_IO_I8 || op == OP_IO_I16 || op == OP_IO_I32 || op == OP_IO_I64 ||
-                        op == OP_IO_F32 || op == OP_IO_F64 || op == OP_IO_BOOL ||
-                        op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL ||
-                        op == OP_STR_NULL || op == OP_STR_PRE_U8 || op == OP_STR_PRE_U16 || op == OP_STR_PRE_U32 ||
-                        op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_FIXED ||
-                        op == OP_ENTER_STRUCT || op == OP_LOAD_CTX || op == OP_STORE_CTX) {
-                        uint16_t key = read_u16(&bc_ptr, end);
-                        if (key < p.strtab.count) {
-                            // Only add each field once (skip struct markers and use leaf fields)
-                            const char* field_name = p.strtab.strings[key];
-                            // Skip ENTER_STRUCT names (they're not leaf fields)
-                            if (op != OP_ENTER_STRUCT) {
-                                cJSON* item = cJSON_CreateObject();
-                                cJSON_AddStringToObject(item, "label", field_name);
-                                cJSON_AddNumberToObject(item, "kind", 5); // Field
-                                cJSON_AddStringToObject(item, "detail", "Field");
-                                cJSON_AddItemToArray(items, item);
-                            }
-                        }
-                        // Skip remaining bytes for ops that have more data after key
-                        if (op == OP_IO_BIT_U || op == OP_IO_BIT_I) bc_ptr += 1; // bits
-                        else if (op == OP_STR_NULL) bc_ptr += 2; // max_len
-                        else if (op == OP_ARR_FIXED) bc_ptr += 4; // count
-                    } else {
-                        skip_instruction(&bc_ptr, end, op);
-                    }
-                }
+                FieldList list = { &p.strtab, calloc(p.strtab.count + 1, 1), items };
+                bc_visit(sdef->bytecode.data, sdef->bytecode.size, list_field, &list);
+                free(list.seen);
             }
         }
     } else {
diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 75748f2..4382614 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -142,6 +142,9 @@ void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
+// Call `visit` for every instruction in `code`
+void bc_visit(uint8_t* code, size_t len, void (*visit)(void* ctx, uint8_t* instr), void* ctx);
+
 // Replace every key ID in `code` by map(ctx, key)
 void bc_map_keys(uint8_t* code, size_t len, uint16_t (*map)(void* ctx, uint16_t key), void* ctx);
 
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 4867e6a..0f66b65 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -50,7 +50,7 @@ char* read_source_file(const char* path) {
 
 // Calls `visit` on every instruction in `code`. Jump tables are data: they are
 // stepped over.
-static void bc_visit(uint8_t* code, size_t len, void (*visit)(void* ctx, uint8_t* instr), void* ctx) {
+void bc_visit(uint8_t* code, size_t len, void (*visit)(void* ctx, uint8_t* instr), void* ctx) {
     uint8_t* is_table = calloc(len ? len : 1, 1);
     size_t i = 0;
     while (i < len) {
-- 
2.43.0


From f81248970a2ad26fa861a7855ed0a344a6a84f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:13 +0000
Subject: [PATCH 47/59] fix: the language server tells imported declarations
 from the document's own

---
 src/cli/cmd_lsp.c | 110 +++++++++++++++++++++++-----------------------
 1 file changed, 56 insertions(+), 54 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 00fd864..5bdbe45 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -292,7 +292,8 @@ static const char* get_type_name(uint8_t type) {
 typedef struct {
     int found;
     int def_line;
-    char* def_file;
+    char* def_file; // NULL: built in
+    int def_here; // Defined in the document itself
     char* symbol_name;
     char* doc_comment;
     char* type_details;
@@ -307,6 +308,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
     res->found = 0;
     res->def_line = 0;
     res->def_file = NULL;
+    res->def_here = 0;
     res->symbol_name = NULL;
     res->doc_comment = NULL;
     res->type_details = NULL;
@@ -355,8 +357,6 @@ static void analyze_source(const char* source, const char* file_path, int line,
                      res->symbol_name = strdup(BUILTIN_DECORATORS[i].name);
                      res->doc_comment = strdup(BUILTIN_DECORATORS[i].doc);
                      res->type_details = strdup(BUILTIN_DECORATORS[i].detail);
-                     res->def_file = strdup("built-in");
-                     res->def_line = 0;
                      goto cleanup;
                  }
              }
@@ -367,7 +367,8 @@ static void analyze_source(const char* source, const char* file_path, int line,
         if (sdef) {
             res->found = 1;
             res->def_line = sdef->line - 1; // Convert to 0-based
-            if (sdef->file) res->def_file = strdup(sdef->file);
+            res->def_file = strdup(sdef->file);
+            res->def_here = strcmp(sdef->file, p.current_path) == 0;
             if (sdef->doc_comment) res->doc_comment = strdup(sdef->doc_comment);
             res->symbol_name = malloc(target_token.length + 1);
             if (res->symbol_name) {
@@ -379,7 +380,8 @@ static void analyze_source(const char* source, const char* file_path, int line,
             if (edef) {
                 res->found = 1;
                 res->def_line = edef->line - 1;
-                if (edef->file) res->def_file = strdup(edef->file);
+                res->def_file = strdup(edef->file);
+                res->def_here = strcmp(edef->file, p.current_path) == 0;
                 if (edef->doc_comment) res->doc_comment = strdup(edef->doc_comment);
                 res->symbol_name = malloc(target_token.length + 1);
                 if (res->symbol_name) {
@@ -460,6 +462,25 @@ static char* file_uri_to_path(const char* uri) {
     return decoded;
 }
 
+// The paths of the parser are absolute
+static char* path_to_file_uri(const char* path) {
+    char* uri = malloc(8 + 3 * strlen(path) + 1);
+    strcpy(uri, "file://");
+    char* at = uri + 7;
+    if (path[0] && path[1] == ':') *at++ = '/'; // Windows "C:/..."
+    for (const char* c = path; *c; c++) {
+        if (*c == '\\') {
+            *at++ = '/';
+        } else if (is_alpha_c(*c) || is_digit_c(*c) || strchr("-._~/:", *c)) {
+            *at++ = *c;
+        } else {
+            at += sprintf(at, "%%%02X", (unsigned char)*c);
+        }
+    }
+    *at = '\0';
+    return uri;
+}
+
 // --- Bytecode Helpers for Completion ---
 typedef struct {
     const StringTable* strtab;
@@ -747,6 +768,23 @@ static void handle_formatting(cJSON* id, cJSON* params) {
     free(path);
 }
 
+static cJSON* create_symbol(const char* name, int kind, const char* uri, int line) {
+    cJSON* sym = cJSON_CreateObject();
+    cJSON_AddStringToObject(sym, "name", name);
+    cJSON_AddNumberToObject(sym, "kind", kind);
+    
+    cJSON* loc = cJSON_CreateObject();
+    cJSON_AddStringToObject(loc, "uri", uri);
+    cJSON* range = cJSON_CreateObject();
+    cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", line); cJSON_AddNumberToObject(start, "character", 0);
+    cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", line); cJSON_AddNumberToObject(end, "character", 0);
+    cJSON_AddItemToObject(range, "start", start); cJSON_AddItemToObject(range, "end", end);
+    cJSON_AddItemToObject(loc, "range", range);
+    
+    cJSON_AddItemToObject(sym, "location", loc);
+    return sym;
+}
+
 static void handle_document_symbol(cJSON* id, cJSON* params) {
     const char* uri = param_uri(params);
     if (!uri) {
@@ -770,38 +808,16 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Structs
     for (size_t i = 0; i < p.registry.count; i++) {
-        cJSON* sym = cJSON_CreateObject();
-        cJSON_AddStringToObject(sym, "name", p.registry.defs[i].name);
-        cJSON_AddNumberToObject(sym, "kind", 23); // Struct
-        
-        cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri);
-        cJSON* range = cJSON_CreateObject();
-        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
-        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
-        cJSON_AddItemToObject(range, "start", start); cJSON_AddItemToObject(range, "end", end);
-        cJSON_AddItemToObject(loc, "range", range);
-        
-        cJSON_AddItemToObject(sym, "location", loc);
-        cJSON_AddItemToArray(symbols, sym);
+        const StructDef* def = &p.registry.defs[i];
+        if (strcmp(def->file, p.current_path) != 0) continue; // Imported
+        cJSON_AddItemToArray(symbols, create_symbol(def->name, 23 /* Struct */, uri, def->line - 1));
     }
     
     // Enums
     for (size_t i = 0; i < p.enums.count; i++) {
-        cJSON* sym = cJSON_CreateObject();
-        cJSON_AddStringToObject(sym, "name", p.enums.defs[i].name);
-        cJSON_AddNumberToObject(sym, "kind", 10); // Enum
-        
-        cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri);
-        cJSON* range = cJSON_CreateObject();
-        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
-        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
-        cJSON_AddItemToObject(range, "start", start); cJSON_AddItemToObject(range, "end", end);
-        cJSON_AddItemToObject(loc, "range", range);
-        
-        cJSON_AddItemToObject(sym, "location", loc);
-        cJSON_AddItemToArray(symbols, sym);
+        const EnumDef* def = &p.enums.defs[i];
+        if (strcmp(def->file, p.current_path) != 0) continue; // Imported
+        cJSON_AddItemToArray(symbols, create_symbol(def->name, 10 /* Enum */, uri, def->line - 1));
     }
     
     send_response(id, symbols);
@@ -936,29 +952,15 @@ static void handle_definition(cJSON* id, cJSON* params) {
     AnalysisResult res;
     analyze_source(source, path, line, character, &res);
     
-    if (res.found) {
+    if (res.found && res.def_file) {
         cJSON* loc = cJSON_CreateObject();
         
-        // Use resolved file if available, else fallback to current URI
-        if (res.def_file) {
-            // Convert file path to URI
-            // Hacky: assume absolute path or simple relative?
-            // VS Code expects file:///...
-            // If def_file is "import_a.cnd" (relative), and we opened "import_b.cnd" at "/abs/path/to/import_b.cnd",
-            // the resolve_path in parser made it absolute. So res.def_file should be absolute.
-            char def_uri[1024];
-            // Windows path handling
-            if (res.def_file[1] == ':') {
-                snprintf(def_uri, sizeof(def_uri), "file:///%s", res.def_file);
-            } else {
-                snprintf(def_uri, sizeof(def_uri), "file://%s", res.def_file);
-            }
-            // Normalize backslashes to slashes for URI
-            for(int i=0; def_uri[i]; i++) if(def_uri[i] == '\\') def_uri[i] = '/';
-            
-            cJSON_AddStringToObject(loc, "uri", def_uri);
-        } else {
+        if (res.def_here) {
             cJSON_AddStringToObject(loc, "uri", uri);
+        } else {
+            char* def_uri = path_to_file_uri(res.def_file);
+            cJSON_AddStringToObject(loc, "uri", def_uri);
+            free(def_uri);
         }
 
         cJSON* range = cJSON_CreateObject();
@@ -1009,7 +1011,7 @@ static void handle_hover(cJSON* id, cJSON* params) {
         cJSON* contents = cJSON_CreateObject();
         cJSON_AddStringToObject(contents, "kind", "markdown");
         
-        const char* file_display = res.def_file ? res.def_file : "current file";
+        const char* file_display = res.def_file ? res.def_file : "built-in";
         char line_text[32];
         snprintf(line_text, sizeof(line_text), "%d", res.def_line + 1);
 
-- 
2.43.0


From 1a51d724b9c9c7a4a6a0016033db2079bb2d433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:18 +0000
Subject: [PATCH 48/59] fix: completion trigger characters are a list

---
 src/cli/cmd_lsp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 5bdbe45..a693f7e 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -920,7 +920,7 @@ static void handle_initialize(cJSON* id) {
     
     cJSON* comp = cJSON_CreateObject();
     cJSON_AddBoolToObject(comp, "resolveProvider", 0);
-    cJSON_AddStringToObject(comp, "triggerCharacters", "."); 
+    cJSON_AddItemToArray(cJSON_AddArrayToObject(comp, "triggerCharacters"), cJSON_CreateString("."));
     cJSON_AddItemToObject(cap, "completionProvider", comp);
     
     // Advertise text document sync (1 = Full)
-- 
2.43.0


From 8cda48b35ed6fc6c312112a89478ecf29270adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:00 +0000
Subject: [PATCH 49/59] fix: the Go binding links the math library

---
 go/concordia.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/concordia.go b/go/concordia.go
index d9eda24..e0b4f63 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -2,6 +2,7 @@ package concordia
 
 /*
 #cgo CFLAGS: -I../include -I../src/vm -std=c99
+#cgo LDFLAGS: -lm
 #include "../include/concordia.h"
 #include <stdlib.h>
 
-- 
2.43.0


From e3637d466f9096cf4537bebbaabdbc13abe0e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:00 +0000
Subject: [PATCH 50/59] fix: the Go binding runs programs on empty data

---
 go/concordia.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/concordia.go b/go/concordia.go
index e0b4f63..93c613e 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -198,9 +198,12 @@ func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
 	var cDataLen C.size_t
 	if len(data) > 0 {
 		cData = C.CBytes(data)
-		defer C.free(cData)
 		cDataLen = C.size_t(len(data))
+	} else {
+		// An empty message is a message too: the VM needs an address for it
+		cData = C.malloc(1)
 	}
+	defer C.free(cData)
 
 	cCtx := (*C.cnd_vm_ctx)(C.calloc(1, C.size_t(unsafe.Sizeof(C.cnd_vm_ctx{}))))
 	if cCtx == nil {
-- 
2.43.0


From aacfd2cf9e4c11744790ff886710751d0d6338c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:00 +0000
Subject: [PATCH 51/59] fix: the Go binding refuses an image cut short instead
 of running it

---
 go/concordia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/concordia.go b/go/concordia.go
index 93c613e..027a03b 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -135,7 +135,7 @@ func LoadProgram(data []byte) (*Program, error) {
 
 	// Check for IL Header: "CNDIL"
 	isIL := false
-	if len(data) >= 16 && string(data[:5]) == "CNDIL" {
+	if len(data) >= 5 && string(data[:5]) == "CNDIL" {
 		isIL = true
 	}
 
-- 
2.43.0


From 0a1c6160f3301fb2eeb8f4809c6e559bcee0dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:03 +0000
Subject: [PATCH 52/59] fix: inspect: print the operands of range checks and
 CRCs in their order

---
 src/cli/cmd_inspect.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 94a123a..5bfe91d 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -313,14 +313,14 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_RANGE_CHECK: {
                     uint8_t type = read_u8(&ptr, end);
                     printf(" Type=%s Range=[", get_opcode_name(type));
-                    if (type == OP_IO_U8) { printf("%u, %u]", read_u8(&ptr, end), read_u8(&ptr, end)); }
-                    else if (type == OP_IO_I8) { printf("%d, %d]", (int8_t)read_u8(&ptr, end), (int8_t)read_u8(&ptr, end)); }
-                    else if (type == OP_IO_U16) { printf("%u, %u]", read_u16(&ptr, end), read_u16(&ptr, end)); }
-                    else if (type == OP_IO_I16) { printf("%d, %d]", (int16_t)read_u16(&ptr, end), (int16_t)read_u16(&ptr, end)); }
-                    else if (type == OP_IO_U32) { printf("%u, %u]", read_u32(&ptr, end), read_u32(&ptr, end)); }
-                    else if (type == OP_IO_I32) { printf("%d, %d]", (int32_t)read_u32(&ptr, end), (int32_t)read_u32(&ptr, end)); }
-                    else if (type == OP_IO_U64) { printf("%" PRIu64 ", %" PRIu64 "]", read_u64(&ptr, end), read_u64(&ptr, end)); }
-                    else if (type == OP_IO_I64) { printf("%" PRId64 ", %" PRId64 "]", (int64_t)read_u64(&ptr, end), (int64_t)read_u64(&ptr, end)); }
+                    if (type == OP_IO_U8) { printf("%u, ", read_u8(&ptr, end)); printf("%u]", read_u8(&ptr, end)); }
+                    else if (type == OP_IO_I8) { printf("%d, ", (int8_t)read_u8(&ptr, end)); printf("%d]", (int8_t)read_u8(&ptr, end)); }
+                    else if (type == OP_IO_U16) { printf("%u, ", read_u16(&ptr, end)); printf("%u]", read_u16(&ptr, end)); }
+                    else if (type == OP_IO_I16) { printf("%d, ", (int16_t)read_u16(&ptr, end)); printf("%d]", (int16_t)read_u16(&ptr, end)); }
+                    else if (type == OP_IO_U32) { printf("%u, ", read_u32(&ptr, end)); printf("%u]", read_u32(&ptr, end)); }
+                    else if (type == OP_IO_I32) { printf("%d, ", (int32_t)read_u32(&ptr, end)); printf("%d]", (int32_t)read_u32(&ptr, end)); }
+                    else if (type == OP_IO_U64) { printf("%" PRIu64 ", ", read_u64(&ptr, end)); printf("%" PRIu64 "]", read_u64(&ptr, end)); }
+                    else if (type == OP_IO_I64) { printf("%" PRId64 ", ", (int64_t)read_u64(&ptr, end)); printf("%" PRId64 "]", (int64_t)read_u64(&ptr, end)); }
                     else if (type == OP_IO_F32) { printf("F32 Range"); ptr += 8; }
                     else if (type == OP_IO_F64) { printf("F64 Range"); ptr += 16; }
                     break;
@@ -372,13 +372,17 @@ int cmd_inspect(int argc, char** argv) {
                 }
 
                 case OP_CRC_16:
-                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", 
-                        read_u16(&ptr, end), read_u16(&ptr, end), read_u16(&ptr, end), read_u8(&ptr, end));
+                    printf(" Poly=0x%04X", read_u16(&ptr, end));
+                    printf(" Init=0x%04X", read_u16(&ptr, end));
+                    printf(" Xor=0x%04X", read_u16(&ptr, end));
+                    printf(" Flags=%d", read_u8(&ptr, end));
                     break;
 
                 case OP_CRC_32:
-                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", 
-                        read_u32(&ptr, end), read_u32(&ptr, end), read_u32(&ptr, end), read_u8(&ptr, end));
+                    printf(" Poly=0x%08X", read_u32(&ptr, end));
+                    printf(" Init=0x%08X", read_u32(&ptr, end));
+                    printf(" Xor=0x%08X", read_u32(&ptr, end));
+                    printf(" Flags=%d", read_u8(&ptr, end));
                     break;
 
                 case OP_ENUM_CHECK: {
-- 
2.43.0


From 20ecbde64eea58add4c7261b07f7ea3cf6c1d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:47 +0000
Subject: [PATCH 53/59] fix: inspect: step over jump tables, name SWITCH_TABLE,
 read the key of ARR_EOF, stop at a truncated instruction

---
 src/cli/cmd_inspect.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 5bfe91d..6feaf95 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <inttypes.h>
 #include "concordia.h"
+#include "../vm/il_layout.h"
 
 // Helper to read bytes from memory safely
 static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
@@ -88,6 +89,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENUM_CHECK: return "ENUM_CHECK";
         case OP_JUMP_IF_NOT: return "JUMP_IF_NOT";
         case OP_SWITCH: return "SWITCH";
+        case OP_SWITCH_TABLE: return "SWITCH_TABLE";
         case OP_JUMP: return "JUMP";
         case OP_LOAD_CTX: return "LOAD_CTX";
         case OP_STORE_CTX: return "STORE_CTX";
@@ -199,9 +201,28 @@ int cmd_inspect(int argc, char** argv) {
         const uint8_t* ptr = data + bc_offset;
         const uint8_t* end = data + size;
         const uint8_t* start = ptr;
+        size_t len = (size_t)(end - start);
+        // Where a jump table starts: the offset of its end, otherwise 0
+        size_t* table_end = (size_t*)calloc(len, sizeof(size_t));
+        if (!table_end) {
+            printf("Error: Out of memory\n");
+            free(data);
+            return 1;
+        }
 
         while (ptr < end) {
             uint32_t offset = (uint32_t)(ptr - start);
+            if (table_end[offset]) {
+                printf("%04X: (jump table, %zu bytes)\n", offset, table_end[offset] - offset);
+                ptr = start + table_end[offset];
+                continue;
+            }
+            size_t instr_len = cnd_il_instr_len(start, len, offset);
+            if (instr_len > len - offset) {
+                printf("%04X: (truncated)\n", offset);
+                break;
+            }
+
             uint8_t op = read_u8(&ptr, end);
             printf("%04X: %-15s", offset, get_opcode_name(op));
 
@@ -250,6 +271,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_ARR_PRE_U8:
                 case OP_ARR_PRE_U16:
                 case OP_ARR_PRE_U32:
+                case OP_ARR_EOF:
                     printf(" KeyID=%d", read_u16(&ptr, end));
                     break;
 
@@ -404,10 +426,16 @@ int cmd_inspect(int argc, char** argv) {
                     break;
                 }
 
-                case OP_SWITCH: {
+                case OP_SWITCH:
+                case OP_SWITCH_TABLE: {
                     uint16_t k = read_u16(&ptr, end);
                     uint32_t t = read_u32(&ptr, end);
                     printf(" KeyID=%d TableOff=%u", k, t);
+                    // The table lies between instructions
+                    size_t tab, tab_end;
+                    if (cnd_il_switch_table(start, len, offset, &tab, &tab_end) && table_end[tab] < tab_end) {
+                        table_end[tab] = tab_end;
+                    }
                     break;
                 }
 
@@ -454,6 +482,7 @@ int cmd_inspect(int argc, char** argv) {
             }
             printf("\n");
         }
+        free(table_end);
     }
 
     free(data);
-- 
2.43.0


From d401fef5659f21e9a92df85d937aa9938b8232df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:47 +0000
Subject: [PATCH 54/59] fix: inspect: print the limits of floating point range
 checks

---
 src/cli/cmd_inspect.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 6feaf95..2c487ad 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -34,6 +34,20 @@ static uint64_t read_u64(const uint8_t** ptr, const uint8_t* end) {
     return v;
 }
 
+static double read_f32(const uint8_t** ptr, const uint8_t* end) {
+    uint32_t bits = read_u32(ptr, end);
+    float v;
+    memcpy(&v, &bits, 4);
+    return v;
+}
+
+static double read_f64(const uint8_t** ptr, const uint8_t* end) {
+    uint64_t bits = read_u64(ptr, end);
+    double v;
+    memcpy(&v, &bits, 8);
+    return v;
+}
+
 static const char* get_opcode_name(uint8_t op) {
     switch (op) {
         case OP_NOOP: return "NOOP";
@@ -343,8 +357,8 @@ int cmd_inspect(int argc, char** argv) {
                     else if (type == OP_IO_I32) { printf("%d, ", (int32_t)read_u32(&ptr, end)); printf("%d]", (int32_t)read_u32(&ptr, end)); }
                     else if (type == OP_IO_U64) { printf("%" PRIu64 ", ", read_u64(&ptr, end)); printf("%" PRIu64 "]", read_u64(&ptr, end)); }
                     else if (type == OP_IO_I64) { printf("%" PRId64 ", ", (int64_t)read_u64(&ptr, end)); printf("%" PRId64 "]", (int64_t)read_u64(&ptr, end)); }
-                    else if (type == OP_IO_F32) { printf("F32 Range"); ptr += 8; }
-                    else if (type == OP_IO_F64) { printf("F64 Range"); ptr += 16; }
+                    else if (type == OP_IO_F32) { printf("%f, ", read_f32(&ptr, end)); printf("%f]", read_f32(&ptr, end)); }
+                    else if (type == OP_IO_F64) { printf("%f, ", read_f64(&ptr, end)); printf("%f]", read_f64(&ptr, end)); }
                     break;
                 }
 
-- 
2.43.0


From e4d8171c9ff4dbd396e0adbebedd1d9c39fce0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:52 +0000
Subject: [PATCH 55/59] fix: inspect: a damaged file is not read beyond its end

---
 src/cli/cmd_inspect.c | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 2c487ad..3821fe0 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -3,7 +3,7 @@
 #include <string.h>
 #include <stdint.h>
 #include <inttypes.h>
-#include "concordia.h"
+#include "cli_helpers.h"
 #include "../vm/il_layout.h"
 
 // Helper to read bytes from memory safely
@@ -21,7 +21,7 @@ static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
 
 static uint32_t read_u32(const uint8_t** ptr, const uint8_t* end) {
     if (*ptr + 4 > end) return 0;
-    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((*ptr)[3] << 24);
+    uint32_t v = cnd_il_peek_u32(*ptr);
     *ptr += 4;
     return v;
 }
@@ -164,20 +164,14 @@ int cmd_inspect(int argc, char** argv) {
     }
 
     const char* path = argv[2];
-    FILE* f = fopen(path, "rb");
-    if (!f) {
+    size_t size = 0;
+    uint8_t* data = read_file_bytes(path, &size);
+    if (!data) {
         printf("Error opening file: %s\n", path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* data = (uint8_t*)malloc(size);
-    fread(data, 1, size, f);
-    fclose(f);
-
-    printf("Inspecting: %s (%ld bytes)\n", path, size);
+    printf("Inspecting: %s (%zu bytes)\n", path, size);
 
     // Parse Header
     if (size < 16 || memcmp(data, "CNDIL", 5) != 0) {
@@ -188,30 +182,28 @@ int cmd_inspect(int argc, char** argv) {
 
     uint8_t version = data[5];
     uint16_t str_count = data[6] | (data[7] << 8);
-    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | (data[11] << 24);
-    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | (data[15] << 24);
+    uint32_t str_offset = cnd_il_peek_u32(data + 8);
+    uint32_t bc_offset = cnd_il_peek_u32(data + 12);
 
     printf("\n--- Header ---\n");
     printf("Version: %d\n", version);
     printf("String Count: %d\n", str_count);
-    printf("String Table Offset: %d\n", str_offset);
-    printf("Bytecode Offset: %d\n", bc_offset);
+    printf("String Table Offset: %u\n", str_offset);
+    printf("Bytecode Offset: %u\n", bc_offset);
 
     // Print String Table
     printf("\n--- String Table ---\n");
-    if ((long)str_offset < size) {
-        const char* ptr = (const char*)(data + str_offset);
-        for (int i = 0; i < str_count; i++) {
-            printf("[%d] %s\n", i, ptr);
-            while (*ptr) ptr++;
-            ptr++; // Skip null
-            if ((uint8_t*)ptr > data + size) break;
-        }
+    const uint8_t* name = str_offset < size ? data + str_offset : data + size;
+    for (int i = 0; i < str_count; i++) {
+        const uint8_t* name_end = memchr(name, '\0', (size_t)(data + size - name));
+        if (!name_end) break;
+        printf("[%d] %s\n", i, (const char*)name);
+        name = name_end + 1;
     }
 
     // Disassemble Bytecode
     printf("\n--- Bytecode ---\n");
-    if ((long)bc_offset < size) {
+    if (bc_offset < size) {
         const uint8_t* ptr = data + bc_offset;
         const uint8_t* end = data + size;
         const uint8_t* start = ptr;
-- 
2.43.0


From 8b81ba6c275cdc15e9eaa5e1fc525f771bb5504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:32 +0000
Subject: [PATCH 56/59] fix: inspect: the operands of an instruction with an
 invalid type are not guessed

---
 src/cli/cmd_inspect.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 3821fe0..7c83793 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -231,6 +231,10 @@ int cmd_inspect(int argc, char** argv) {
 
             uint8_t op = read_u8(&ptr, end);
             printf("%04X: %-15s", offset, get_opcode_name(op));
+            if (instr_len == 0) { // no such instruction, or not with this operand type
+                printf(" (invalid)\n");
+                continue;
+            }
 
             switch (op) {
                 case OP_META_VERSION: {
-- 
2.43.0


From b0d7a4202ce604d11f0a11114fb47ada678754a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:37 +0000
Subject: [PATCH 57/59] fix: compiler reports point at the expression, number,
 decorator or import at fault

---
 src/compiler/cnd_internal.h |  1 +
 src/compiler/cnd_parser.c   | 30 +++++++++++++++++-------------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 4382614..1e306e0 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -280,6 +280,7 @@ char* cnd_canonicalize_path(const char* path);
 char* read_source_file(const char* path);
 
 void parser_error(Parser* p, const char* msg);
+void parser_error_at(Parser* p, Token at, const char* msg);
 void advance(Parser* p);
 void consume(Parser* p, TokenType type, const char* msg);
 int match_keyword(Token t, const char* kw);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 3a56fb6..90ca0aa 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -181,10 +181,10 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
         return TYPE_UNKNOWN;
     }
     p->nesting++;
+    ParsePrefixFn prefix_rule = get_rule(p->current.type)->prefix;
+    if (prefix_rule == NULL) parser_error(p, "Expect expression");
     advance(p);
-    ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
-        parser_error(p, "Expect expression");
         p->nesting--;
         return TYPE_UNKNOWN;
     }
@@ -203,15 +203,19 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
 }
 
 void parser_error(Parser* p, const char* msg) {
+    parser_error_at(p, p->current, msg);
+}
+
+void parser_error_at(Parser* p, Token at, const char* msg) {
     p->had_error = 1;
     p->error_count++;
 
     // Calculate column
-    const char* line_start = p->current.start;
+    const char* line_start = at.start;
     while (line_start > p->lexer.source && *(line_start - 1) != '\n' && *(line_start - 1) != '\r') {
         line_start--;
     }
-    int col = (int)(p->current.start - line_start) + 1;
+    int col = (int)(at.start - line_start) + 1;
 
     // Store error for LSP/API usage
     if ((size_t)p->error_count > p->error_cap) { // Allow growing
@@ -226,7 +230,7 @@ void parser_error(Parser* p, const char* msg) {
     
     if (p->errors && (size_t)p->error_count <= p->error_cap) {
         CompilerError* err = &p->errors[p->error_count - 1];
-        err->line = p->current.line;
+        err->line = at.line;
         err->column = col;
         err->message = strdup(msg); // Make sure to free this later!
     }
@@ -237,15 +241,15 @@ void parser_error(Parser* p, const char* msg) {
         // JSON format: {"file": "...", "line": N, "message": "...", "token": "..."}
         // We use manual JSON construction to avoid dependency on cJSON in the compiler core
         printf("{\"file\": \"%s\", \"line\": %d, \"message\": \"%s\", \"token\": \"%.*s\"}\n",
-            p->current_path, p->current.line, msg, p->current.length, p->current.start);
+            p->current_path, at.line, msg, at.length, at.start);
     } else {
         // Standard error format: file:line:col: error: message
         // With colors: Bold File, Red Error
         printf(COLOR_BOLD "%s:%d:%d: " COLOR_RED "error: " COLOR_RESET COLOR_BOLD "%s" COLOR_RESET "\n", 
-            p->current_path, p->current.line, col, msg);
+            p->current_path, at.line, col, msg);
         
         // Print source line context
-        const char* line_end = p->current.start;
+        const char* line_end = at.start;
         while (*line_end && *line_end != '\n' && *line_end != '\r') {
             line_end++;
         }
@@ -261,7 +265,7 @@ void parser_error(Parser* p, const char* msg) {
             
             // Print squiggles
             printf(COLOR_RED "^");
-            int len = p->current.length;
+            int len = at.length;
             if (len < 1) len = 1;
             for(int i=1; i<len; i++) printf("~");
             printf(COLOR_RESET "\n");
@@ -323,7 +327,7 @@ static int int_literal_fits(Token t, uint8_t type_op) {
 
 static void check_int_literal(Parser* p, Token t, uint8_t type_op) {
     if (t.type == TOK_NUMBER && !int_literal_fits(t, type_op)) {
-        parser_error(p, "Number is not an integer in the allowed range");
+        parser_error_at(p, t, "Number is not an integer in the allowed range");
     }
 }
 
@@ -1083,7 +1087,7 @@ void parse_field(Parser* p, const char* doc) {
                 expr_type = parse_expression(p);
                 has_expr = 1;
             } else { 
-                parser_error(p, "Unknown decorator");
+                parser_error_at(p, dec_name_token, "Unknown decorator");
                 while (p->current.type != TOK_RPAREN && p->current.type != TOK_EOF) advance(p);
             }
             consume(p, TOK_RPAREN, "Expect )");
@@ -1708,7 +1712,7 @@ void parse_import(Parser* p) {
     // Extract string content (Lexer already removed quotes)
     char rel_path[256];
     int len = path_tok.length;
-    if (len >= 256) { parser_error(p, "Import path too long"); return; }
+    if (len >= 256) { parser_error_at(p, path_tok, "Import path too long"); return; }
     memcpy(rel_path, path_tok.start, len);
     rel_path[len] = '\0';
     
@@ -1732,7 +1736,7 @@ void parse_import(Parser* p) {
     if (!source) {
         char msg[512];
         snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
-        parser_error(p, msg);
+        parser_error_at(p, path_tok, msg);
         free(full_path);
         return;
     }
-- 
2.43.0


From dae9ac19ca28ce37537a9ec27a0880036de101a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:37 +0000
Subject: [PATCH 58/59] fix: lines inside a string literal count as lines

---
 src/compiler/cnd_lexer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_lexer.c b/src/compiler/cnd_lexer.c
index a23a8ca..c91d5c7 100644
--- a/src/compiler/cnd_lexer.c
+++ b/src/compiler/cnd_lexer.c
@@ -132,7 +132,10 @@ Token lexer_next(Lexer* lexer) {
             case '"': {
                 token.type = TOK_STRING;
                 token.start = lexer->current;
-                while (*lexer->current != '"' && *lexer->current != '\0') lexer->current++;
+                while (*lexer->current != '"' && *lexer->current != '\0') {
+                    if (*lexer->current == '\n') lexer->line++;
+                    lexer->current++;
+                }
                 token.length = (int)(lexer->current - token.start);
                 if (*lexer->current == '"') lexer->current++;
                 return token;
-- 
2.43.0


From 9bba68f7272f25e1bf5dd8dd26fa908c240ee944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:08 +0000
Subject: [PATCH 59/59] fix: cnd compile --json escapes the strings it prints

---
 src/compiler/cnd_internal.h |  3 +++
 src/compiler/cnd_parser.c   |  9 +++++++--
 src/compiler/cnd_utils.c    | 28 ++++++++++++++++++++++++++++
 src/compiler/cndc.c         | 25 +++++++++++++++++++------
 4 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 1e306e0..e550f1d 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -277,6 +277,9 @@ typedef struct {
 // Caller owns the returned string.
 char* cnd_canonicalize_path(const char* path);
 
+// Prints a quoted JSON string
+void print_json_string(const char* s, size_t len);
+
 char* read_source_file(const char* path);
 
 void parser_error(Parser* p, const char* msg);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 90ca0aa..086783a 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -240,8 +240,13 @@ void parser_error_at(Parser* p, Token at, const char* msg) {
     if (p->json_output) {
         // JSON format: {"file": "...", "line": N, "message": "...", "token": "..."}
         // We use manual JSON construction to avoid dependency on cJSON in the compiler core
-        printf("{\"file\": \"%s\", \"line\": %d, \"message\": \"%s\", \"token\": \"%.*s\"}\n",
-            p->current_path, at.line, msg, at.length, at.start);
+        printf("{\"file\": ");
+        print_json_string(p->current_path, strlen(p->current_path));
+        printf(", \"line\": %d, \"message\": ", at.line);
+        print_json_string(msg, strlen(msg));
+        printf(", \"token\": ");
+        print_json_string(at.start, (size_t)at.length);
+        printf("}\n");
     } else {
         // Standard error format: file:line:col: error: message
         // With colors: Bold File, Red Error
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 0f66b65..b27e79a 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -457,3 +457,31 @@ char* sb_build(StringBuilder* sb) {
     return str;
 }
 
+
+// Length of the UTF-8 sequence at s, 0 if there is none
+static size_t utf8_length(const char* s, size_t left) {
+    unsigned char c = (unsigned char)s[0];
+    size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
+    if (n > left) return 0;
+    for (size_t i = 1; i < n; i++) {
+        unsigned char d = (unsigned char)s[i];
+        if ((d & 0xC0) != 0x80) return 0;
+        // Overlong forms, surrogates and values above U+10FFFF
+        if (i == 1 && ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F))) return 0;
+    }
+    return n;
+}
+
+void print_json_string(const char* s, size_t len) {
+    putchar('"');
+    for (size_t i = 0; i < len; ) {
+        unsigned char c = (unsigned char)s[i];
+        size_t n = utf8_length(s + i, len - i);
+        if (n == 0) { printf("\\ufffd"); i++; continue; }
+        if (c == '"' || c == '\\') printf("\\%c", c);
+        else if (c < 0x20) printf("\\u%04x", c);
+        else fwrite(s + i, 1, n, stdout);
+        i += n;
+    }
+    putchar('"');
+}
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 80ffa00..897a904 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -52,6 +52,18 @@ static void optimize_strings(Parser* p) {
     free(use.ids);
 }
 
+// An object whose last member is a message about a path
+static void print_json_message(const char* start, const char* text, const char* path) {
+    size_t len = strlen(text) + strlen(path);
+    char* message = malloc(len + 1);
+    if (!message) return;
+    sprintf(message, "%s%s", text, path);
+    printf("%s", start);
+    print_json_string(message, len);
+    printf("}\n");
+    free(message);
+}
+
 // Implementation of cnd_compile_file using the new modular structure
 int cnd_compile_file(const char* in_path, const char* out_path, int json_output, int verbose) {
     setbuf(stdout, NULL); // Ensure debug prints are flushed immediately
@@ -60,7 +72,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
 
     char* source = read_source_file(open_path);
     if (!source) { 
-        if (json_output) printf("{\"error\": \"Error opening input file: %s\"}\n", open_path);
+        if (json_output) print_json_message("{\"error\": ", "Error opening input file: ", open_path);
         else printf("Error opening input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
@@ -98,7 +110,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
 
         FILE* out = fopen(out_path, "wb");
         if (!out) { 
-            if (json_output) printf("{\"status\": \"error\", \"message\": \"Error opening output file: %s\"}\n", out_path);
+            if (json_output) print_json_message("{\"status\": \"error\", \"message\": ", "Error opening output file: ", out_path);
             else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error opening output file: %s\n", out_path); 
             ret = 1; 
         } else {
@@ -118,10 +130,11 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
             
             fclose(out);
             if (json_output) {
-                // Escape paths for JSON (simple check)
-                // For now assuming paths don't have crazy characters, but in production should be escaped properly
-                printf("{\"status\": \"success\", \"input\": \"%s\", \"output\": \"%s\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
-                    in_path, out_path, p.strtab.count, p.global_bc.size);
+                printf("{\"status\": \"success\", \"input\": ");
+                print_json_string(in_path, strlen(in_path));
+                printf(", \"output\": ");
+                print_json_string(out_path, strlen(out_path));
+                printf(", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n", p.strtab.count, p.global_bc.size);
             } else {
                 printf(COLOR_BOLD COLOR_GREEN "[SUCCESS]" COLOR_RESET " Compiled " COLOR_CYAN "%s" COLOR_RESET "\n", in_path);
                 printf("  " COLOR_BOLD "Output:" COLOR_RESET "   %s\n", out_path);
-- 
2.43.0

