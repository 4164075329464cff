From 25b4e0a5b7cb3e793e35783d886ca55e83ef4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 01/51] fix: null propagation of I64 vector with I32 atom
 arithmetic and of timestamp xbar time

---
 core/math.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/math.c b/core/math.c
index 09cbee2..f52f451 100644
--- a/core/math.c
+++ b/core/math.c
@@ -387,6 +387,7 @@ obj_p ray_add_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i64, timestamp, timestamp, ADDI64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -702,6 +703,7 @@ obj_p ray_sub_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i32, time, time, SUBI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -973,6 +975,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, time, time, time, MULI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -1756,7 +1759,7 @@ obj_p ray_xbar_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(XBARI64(x->i64, y->i64));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp(XBARI32(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
+            return timestamp(XBARI64(x->i64, time_to_timestamp(y->i32)));
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I32):
             return __BINOP_A_V(x, y, i64, i32, timestamp, timestamp, XBARI64, len, offset, out);
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I64):
-- 
2.43.0


From ddff5ce0f0bdd6d8bd5e171d31f51997567b34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 02/51] fix: element access of U8 vectors yields U8 atoms;
 negative index into GUID vectors

---
 core/rayforce.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..d4635b7 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -765,12 +765,17 @@ obj_p at_idx(obj_p obj, i64_t idx) {
 
     switch (obj->type) {
         case TYPE_B8:
-        case TYPE_U8:
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return b8(AS_B8(obj)[idx]);
             return b8(B8_FALSE);
+        case TYPE_U8:
+            if (idx < 0)
+                idx = obj->len + idx;
+            if (idx >= 0 && idx < (i64_t)obj->len)
+                return u8(AS_U8(obj)[idx]);
+            return u8(0);
         case TYPE_I16:
             if (idx < 0)
                 idx = obj->len + idx;
@@ -834,7 +839,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return NULL_OBJ;
         case TYPE_GUID:
             if (idx < 0)
-                idx = obj->len + idx + 1;
+                idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return guid(AS_GUID(obj)[idx]);
             return NULL_OBJ;
@@ -917,11 +922,16 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             for (i = 0, n = 0; i < l; i++) {
                 m = AS_LIST(obj)[i]->len;
                 n += m;
-                if (idx < n)
-                    return b8(AS_U8(AS_LIST(obj)[i])[m - (n - idx)]);
+                if (idx < n) {
+                    res = atom(obj->type - TYPE_PARTEDLIST);
+                    res->u8 = AS_U8(AS_LIST(obj)[i])[m - (n - idx)];
+                    return res;
+                }
             }
 
-            return b8(B8_FALSE);
+            res = atom(obj->type - TYPE_PARTEDLIST);
+            res->u8 = 0;
+            return res;
 
         case TYPE_PARTEDI16:
             l = obj->len;
-- 
2.43.0


From f2c5d1380a246384eb200d810da3393669713e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 03/51] fix: round, floor and ceil of integer vectors returned
 uninitialized memory

---
 core/math.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/math.c b/core/math.c
index f52f451..b7c51cd 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2239,7 +2239,8 @@ obj_p unop_map(raw_p op, obj_p x) {
     obj_p v, out;
     obj_p (*unop)(obj_p);
 
-    if (IS_ATOM(x)) {
+    // Atoms and non-floating vectors are handled entirely by the partial function
+    if (x->type != TYPE_F64) {
         unop = (obj_p(*)(obj_p))op;
         return unop(x);
     }
-- 
2.43.0


From fd73accb07ebf87f00846cd630b4fe74cf64504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 04/51] fix: med skips nulls, dev of dates and timestamps,
 temporaries of med and dev released

---
 core/math.c | 53 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/core/math.c b/core/math.c
index b7c51cd..e7af8f9 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2529,9 +2529,24 @@ obj_p ray_avg(obj_p x) {
     }
 }
 
+// Number of non-null elements of a plain atom or vector, -1 for everything else
+static i64_t count_non_null(obj_p x) {
+    i64_t l;
+    obj_p cnt;
+
+    if (x->type > TYPE_ENUM)
+        return -1;
+
+    cnt = ray_cnt(x);
+    l = IS_ERR(cnt) ? -1 : cnt->i64;
+    drop_obj(cnt);
+
+    return l;
+}
+
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    i64_t l = ray_cnt(x)->i64;
+    i64_t l = count_non_null(x);
     if (l == 0)
         return f64(NULL_F64);
 
@@ -2564,7 +2579,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I16:
             sort = ray_asc(x);
-            xi16sort = AS_I16(sort);
+            xi16sort = AS_I16(sort) + (sort->len - l);  // skip nulls, they sort first
             med = (f64_t)((l % 2 == 0) ? (xi16sort[l / 2 - 1] + xi16sort[l / 2]) / 2.0 : xi16sort[l / 2]);
             drop_obj(sort);
             return f64(med);
@@ -2580,7 +2595,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I64:
             sort = ray_asc(x);
-            xisort = AS_I64(sort);
+            xisort = AS_I64(sort) + (sort->len - l);  // skip nulls, they sort first
             med = (f64_t)((l % 2 == 0) ? (xisort[l / 2 - 1] + xisort[l / 2]) / 2.0 : xisort[l / 2]);
             drop_obj(sort);
 
@@ -2630,16 +2645,14 @@ obj_p ray_med(obj_p x) {
 }
 
 obj_p ray_dev(obj_p x) {
-    obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
-    drop_obj(cnt_obj);
+    i64_t l = count_non_null(x);
 
     if (l == 0)
         return f64(NULL_F64);
     else if (l == 1)
         return f64(0.0);
-    f64_t favg = 0.0;
-    obj_p sum_obj;
+    f64_t favg = 0.0, sq_sum;
+    obj_p sum_obj, avg_obj, sq_obj;
 
     switch (x->type) {
         case TYPE_U8:
@@ -2649,14 +2662,23 @@ obj_p ray_dev(obj_p x) {
             drop_obj(sum_obj);
             break;
         case TYPE_I32:
-        case TYPE_DATE:
         case TYPE_TIME:
             sum_obj = ray_sum(x);
             favg = ((f64_t)sum_obj->i32) / (f64_t)l;
             drop_obj(sum_obj);
             break;
-        case TYPE_I64:
+        case TYPE_DATE:
+            // dates have no sum, average them directly
+            for (i64_t i = 0; i < x->len; i++)
+                if (AS_I32(x)[i] != NULL_I32)
+                    favg += (f64_t)AS_I32(x)[i] / (f64_t)l;
+            break;
         case TYPE_TIMESTAMP:
+            for (i64_t i = 0; i < x->len; i++)
+                if (AS_I64(x)[i] != NULL_I64)
+                    favg += (f64_t)AS_I64(x)[i] / (f64_t)l;
+            break;
+        case TYPE_I64:
             sum_obj = ray_sum(x);
             favg = ((f64_t)sum_obj->i64) / (f64_t)l;
             drop_obj(sum_obj);
@@ -2700,5 +2722,14 @@ obj_p ray_dev(obj_p x) {
             return err_type(TYPE_LIST, x->type, 0, 0);
     }
 
-    return f64(sqrt(ray_sq_sub(x, f64(favg))->f64 / (f64_t)l));
+    avg_obj = f64(favg);
+    sq_obj = ray_sq_sub(x, avg_obj);
+    drop_obj(avg_obj);
+    if (IS_ERR(sq_obj))
+        return sq_obj;
+
+    sq_sum = sq_obj->f64;
+    drop_obj(sq_obj);
+
+    return f64(sqrt(sq_sum / (f64_t)l));
 }
-- 
2.43.0


From 3bb16b404febca285a75bc630902b6cc95fc90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 05/51] fix: neg of I16 and I32 vectors keeps type and nulls

---
 core/order.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/order.c b/core/order.c
index ba35120..650c6e9 100644
--- a/core/order.c
+++ b/core/order.c
@@ -467,21 +467,21 @@ obj_p ray_neg(obj_p x) {
             return res;
         case TYPE_I16:
             l = x->len;
-            res = I64(l);
+            res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I16(x)[i];
+                AS_I16(res)[i] = -AS_I16(x)[i];  // null negates to itself
             return res;
         case TYPE_I32:
             l = x->len;
-            res = I64(l);
+            res = I32(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I32(x)[i];
+                AS_I32(res)[i] = (AS_I32(x)[i] == NULL_I32) ? NULL_I32 : -AS_I32(x)[i];
             return res;
         case TYPE_I64:
             l = x->len;
             res = I64(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -AS_I64(x)[i];
+                AS_I64(res)[i] = (AS_I64(x)[i] == NULL_I64) ? NULL_I64 : -AS_I64(x)[i];
             return res;
         case TYPE_F64:
             l = x->len;
-- 
2.43.0


From bc1f24a6a83a1836a340a8fbb87b06466ddac791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 06/51] fix: and/or no longer modify their operands in place;
 parallel mask with scalar operand

---
 core/logic.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 1bc3316..68e96bf 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -51,7 +51,7 @@ static obj_p and_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = ((b8_t *)y)[0];
     for (i = 0; i < n; i++)
         mask[i] = mask[i] && m;
 
@@ -78,13 +78,39 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = ((b8_t *)y)[0];
     for (i = 0; i < n; i++)
         mask[i] = mask[i] || m;
 
     return NULL_OBJ;
 }
 
+// Make a mask safe to be modified in place (it may be shared with a variable or a constant)
+static obj_p own_mask(obj_p x) {
+    i64_t i, l;
+    obj_p res;
+
+    switch (x->type) {
+        case -TYPE_B8:
+        case TYPE_B8:
+            res = cow_obj(x);
+            if (res != x)
+                drop_obj(x);
+            return res;
+        case TYPE_PARTEDB8:
+            l = x->len;
+            res = LIST(l);
+            res->type = TYPE_PARTEDB8;
+            for (i = 0; i < l; i++)
+                AS_LIST(res)[i] =
+                    (AS_LIST(x)[i] == NULL_OBJ) ? NULL_OBJ : copy_obj(AS_LIST(x)[i]);
+            drop_obj(x);
+            return res;
+        default:
+            return x;
+    }
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -100,6 +126,8 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     if (IS_ERR(res) || n == 1)
         return res;
 
+    res = own_mask(res);
+
     // Process remaining expressions
     for (i = 1; i < n; i++) {
         next = eval(x[i]);
@@ -109,6 +137,9 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
             return next;
         }
 
+        if (next->type == TYPE_PARTEDB8 || (next->type == TYPE_B8 && res->type == -TYPE_B8))
+            next = own_mask(next);  // becomes the result or a part of it
+
         switch (MTYPE2(res->type, next->type)) {
             case MTYPE2(-TYPE_B8, -TYPE_B8):
                 op_func(&res->b8, &next->b8, (raw_p)1, (raw_p)0, (raw_p)1);
-- 
2.43.0


From 1dd7d481a657540af9b880c23866a07b14fe2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 07/51] fix: element assignment keeps B8, U8, I16, I32, DATE
 and TIME vectors typed; copies of dates, times and guids

---
 core/rayforce.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index d4635b7..24c74b9 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1413,6 +1413,21 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
     }
 
     switch (MTYPE2((*obj)->type, val->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_B8):
+        case MTYPE2(TYPE_U8, -TYPE_U8):
+            AS_U8(*obj)[idx] = val->u8;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I16, -TYPE_I16):
+            AS_I16(*obj)[idx] = val->i16;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I32, -TYPE_I32):
+        case MTYPE2(TYPE_DATE, -TYPE_DATE):
+        case MTYPE2(TYPE_TIME, -TYPE_TIME):
+            AS_I32(*obj)[idx] = val->i32;
+            drop_obj(val);
+            return *obj;
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_TIMESTAMP):
@@ -2978,11 +2993,15 @@ obj_p copy_obj(obj_p obj) {
             return timestamp(obj->i64);
         case -TYPE_F64:
             return f64(obj->f64);
+        case -TYPE_GUID:
+            return guid(AS_GUID(obj)[0]);
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
         case TYPE_I16:
         case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From b1c0e7de7938b95bf10eee097a5445ced9bfe72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 08/51] fix: order attributes are dropped when elements change;
 sorting of symbols, ties and single symbols

---
 core/compose.c  |  8 ++++++++
 core/math.c     |  2 ++
 core/ops.h      |  4 ++++
 core/order.c    |  8 ++++----
 core/rayforce.c | 15 +++++++++++++++
 core/sort.c     | 16 +++++++++++-----
 6 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..0f6b622 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -156,6 +156,14 @@ obj_p ray_reverse(obj_p x) {
                 AS_C8(res)[l - i - 1] = AS_C8(x)[i];
             break;
 
+        case TYPE_I16:
+            l = x->len;
+            res = vector(x->type, l);
+
+            for (i = 0; i < l; i++)
+                AS_I16(res)[i] = AS_I16(x)[l - i - 1];
+            break;
+
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
diff --git a/core/math.c b/core/math.c
index e7af8f9..015a6be 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2250,6 +2250,7 @@ obj_p unop_map(raw_p op, obj_p x) {
     pool = runtime_get()->pool;
     n = pool_split_by(pool, l, 0);
     out = (rc_obj(x) == 1) ? clone_obj(x) : vector(x->type, l);
+    CLEAR_ORDER_ATTRS(out);  // a reused buffer gets new values
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, l, 0, out);
@@ -2314,6 +2315,7 @@ obj_p binop_map(raw_p op, obj_p x, obj_p y) {
     out = (rc_obj(x) == 1 && IS_VECTOR(x) && x->type == t)   ? clone_obj(x)
           : (rc_obj(y) == 1 && IS_VECTOR(y) && y->type == t) ? clone_obj(y)
                                                              : vector(t, l);
+    CLEAR_ORDER_ATTRS(out);  // a reused buffer gets new values
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, obj_p, i64_t, i64_t, obj_p))op)(x, y, l, 0, out);
diff --git a/core/ops.h b/core/ops.h
index 73a3259..676bde8 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -55,6 +55,10 @@ extern struct obj_t __ERR_OBJ;
 #define ATTR_QUOTED 8
 #define ATTR_PROTECTED 64
 
+// Attributes that describe the order/uniqueness of the elements: any change of the elements invalidates them
+#define ATTR_ORDER_MASK (ATTR_DISTINCT | ATTR_ASC | ATTR_DESC)
+#define CLEAR_ORDER_ATTRS(x) ((x)->attrs &= ~ATTR_ORDER_MASK)
+
 #define IS_INTERNAL(x) ((x)->mmod == MMOD_INTERNAL)
 #define IS_EXTERNAL_SIMPLE(x) ((x)->mmod == MMOD_EXTERNAL_SIMPLE)
 #define IS_EXTERNAL_COMPOUND(x) ((x)->mmod == MMOD_EXTERNAL_COMPOUND)
diff --git a/core/order.c b/core/order.c
index 650c6e9..36d6ad0 100644
--- a/core/order.c
+++ b/core/order.c
@@ -79,7 +79,7 @@ obj_p ray_asc(obj_p x) {
     if (x->attrs & ATTR_ASC)
         return clone_obj(x);
 
-    if (x->attrs & ATTR_DESC)
+    if ((x->attrs & ATTR_DESC) && x->type != TYPE_DICT)
         return ray_reverse(x);
 
     switch (x->type) {
@@ -165,7 +165,7 @@ obj_p ray_desc(obj_p x) {
     if (x->attrs & ATTR_DESC)
         return clone_obj(x);
 
-    if (x->attrs & ATTR_ASC)
+    if ((x->attrs & ATTR_ASC) && x->type != TYPE_DICT)
         return ray_reverse(x);
 
     switch (x->type) {
@@ -527,7 +527,7 @@ obj_p ray_rank(obj_p x) {
         drop_obj(n);
         return res;
     }
-    if (x->attrs & ATTR_DESC) {
+    if ((x->attrs & ATTR_DESC) && (x->attrs & ATTR_DISTINCT)) {
         l = x->len;
         res = I64(l);
         if (IS_ERR(res))
@@ -629,7 +629,7 @@ obj_p ray_xrank(obj_p y, obj_p x) {
         pool_map(l, xrank_asc_worker, &ctx);
         return res;
     }
-    if (y->attrs & ATTR_DESC) {
+    if ((y->attrs & ATTR_DESC) && (y->attrs & ATTR_DISTINCT)) {
         xrank_asc_ctx_t ctx = {AS_I64(res), n_buckets, l};
         pool_map(l, xrank_desc_worker, &ctx);
         return res;
diff --git a/core/rayforce.c b/core/rayforce.c
index 24c74b9..b397b57 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -384,6 +384,10 @@ obj_p resize_obj(obj_p* obj, i64_t len) {
         drop_obj(old_obj);
     }
 
+    // grown part is going to be filled with arbitrary values
+    if (len > (*obj)->len)
+        CLEAR_ORDER_ATTRS(*obj);
+
     (*obj)->len = len;
 
     return *obj;
@@ -404,11 +408,14 @@ obj_p push_raw(obj_p* obj, raw_p val) {
         memcpy(new_obj->raw, (*obj)->raw, off);
         new_obj->mmod = MMOD_INTERNAL;
         new_obj->type = (*obj)->type;
+        new_obj->attrs = 0;
+        new_obj->len = (*obj)->len;
         new_obj->rc = 1;
         drop_obj(*obj);
         *obj = new_obj;
     }
 
+    CLEAR_ORDER_ATTRS(*obj);
     memcpy((*obj)->raw + off, val, size);
     (*obj)->len++;
 
@@ -664,6 +671,7 @@ obj_p ins_raw(obj_p* obj, i64_t idx, raw_p val) {
     i32_t size;
 
     size = size_of_type((*obj)->type);
+    CLEAR_ORDER_ATTRS(*obj);
     memcpy((*obj)->raw + idx * size, val, size);
 
     return *obj;
@@ -1412,6 +1420,8 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
         return err_index(idx, (*obj)->len, 0, 0);
     }
 
+    CLEAR_ORDER_ATTRS(*obj);
+
     switch (MTYPE2((*obj)->type, val->type)) {
         case MTYPE2(TYPE_B8, -TYPE_B8):
         case MTYPE2(TYPE_U8, -TYPE_U8):
@@ -1461,6 +1471,9 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
 
 obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
     i64_t i;
+
+    CLEAR_ORDER_ATTRS(*obj);
+
     switch (MTYPE2((*obj)->type, vals->type)) {
         case MTYPE2(TYPE_C8, -TYPE_C8):
             for (i = 0; i < len; i++)
@@ -1754,6 +1767,8 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
     i64_t i;
     obj_p ids, res;
 
+    CLEAR_ORDER_ATTRS(*obj);
+
     switch (idx->type) {
         case -TYPE_I64:
         case -TYPE_SYMBOL:
diff --git a/core/sort.c b/core/sort.c
index a202a20..4fe05e0 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -442,7 +442,8 @@ obj_p ray_sort_asc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_DESC) {
+    // reversing is stable only when there are no equal elements
+    if ((vec->attrs & ATTR_DESC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
@@ -703,7 +704,8 @@ obj_p ray_sort_desc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_ASC) {
+    // reversing is stable only when there are no equal elements
+    if ((vec->attrs & ATTR_ASC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
@@ -885,8 +887,12 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     obj_p res;
     i64_t len = vec->len;
 
-    if (len <= 1)
-        return I64(len);
+    if (len <= 1) {
+        res = I64(len);
+        if (len == 1)
+            AS_I64(res)[0] = 0;
+        return res;
+    }
 
     // Small arrays: use insertion sort
     if (len <= 32) {
@@ -914,7 +920,7 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     switch (vec->type) {
         case TYPE_I64:
         case TYPE_TIME:
-        case TYPE_SYMBOL:
+            // symbols are ordered by their strings, not by their ids, so they can't be counting sorted
             res = counting_sort_i64(vec, asc);
             if (res)
                 return res;
-- 
2.43.0


From dbc99368f0b887d180481f94638e1c302e1f4c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 09/51] fix: hashing of negative and null keys, range overflow
 of distinct/find/group, take of empty vectors

---
 core/hash.c  |  8 +++----
 core/index.c | 63 ++++++++++++++++++++++++++++++++++++++++++++++------
 core/items.c | 12 ++++++----
 3 files changed, 68 insertions(+), 15 deletions(-)

diff --git a/core/hash.c b/core/hash.c
index 4a9d51e..b685ce3 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -113,7 +113,7 @@ i64_t ht_oa_tab_next(obj_p *obj, i64_t key) {
         size = AS_LIST(*obj)[0]->len;
         keys = AS_I64(AS_LIST(*obj)[0]);
 
-        start = (i64_t)key % size;
+        start = (u64_t)key % size;
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -156,7 +156,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
         keys = AS_I64(AS_LIST(*obj)[0]);
         vals = AS_I64(AS_LIST(*obj)[1]);
 
-        start = (i64_t)key % size;
+        start = (u64_t)key % size;
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -168,7 +168,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
             }
 
             if (keys[idx] == key)
-                return vals[i];
+                return vals[idx];
         }
 
         ht_oa_rehash(obj, NULL, NULL);
@@ -211,7 +211,7 @@ i64_t ht_oa_tab_get(obj_p obj, i64_t key) {
     size = AS_LIST(obj)[0]->len;
     keys = AS_I64(AS_LIST(obj)[0]);
 
-    start = (i64_t)key % size;
+    start = (u64_t)key % size;
 
     for (i = start; i < size + start; i++) {
         idx = i % size;
diff --git a/core/index.c b/core/index.c
index 4d27587..f5ddd0b 100644
--- a/core/index.c
+++ b/core/index.c
@@ -312,6 +312,12 @@ nil_t index_hash_obj(obj_p obj, i64_t out[], i64_t filter[], i64_t len, b8_t res
     index_hash_obj_partial(obj, out, filter, len, 0, resolve);
 }
 
+// Number of values in [min, max], saturated when it doesn't fit into i64
+static i64_t scope_range(i64_t min, i64_t max) {
+    u64_t diff = (u64_t)max - (u64_t)min;
+    return (diff >= (u64_t)INF_I64) ? INF_I64 : (i64_t)diff + 1;
+}
+
 obj_p index_scope_partial_i32(i64_t len, i32_t *values, i64_t *indices, i64_t offset, i64_t *pmin, i64_t *pmax) {
     i32_t min, max;
     i64_t i, l;
@@ -370,7 +376,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
         }
     }
     timeit_tick("index scope");
-    return (index_scope_t){min, max, (i64_t)(max - min + 1)};
+    return (index_scope_t){min, max, scope_range(min, max)};
 }
 
 obj_p index_scope_partial_i64(i64_t len, i64_t *values, i64_t *indices, i64_t offset, i64_t *pmin, i64_t *pmax) {
@@ -431,7 +437,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
         }
     }
     timeit_tick("index scope");
-    return (index_scope_t){min, max, (i64_t)(max - min + 1)};
+    return (index_scope_t){min, max, scope_range(min, max)};
 }
 
 obj_p index_distinct_i8(i8_t values[], i64_t len) {
@@ -1506,7 +1512,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
 
 obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t i, range;
-    i64_t min, max, val, *d, *r;
+    i64_t min, max, val, *d, *r, nl = NULL_I64;
     obj_p vec, dict;
 
     if (xl == 0)
@@ -1527,7 +1533,7 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
         return vec;
     }
 
-    range = max - min + 1;
+    range = scope_range(min, max);
 
     if (range <= MAX_RANGE) {
         dict = I64(range);
@@ -1556,6 +1562,11 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
+        if (x[i] == NULL_I64) {  // null marks a free slot of the table
+            if (nl == NULL_I64)
+                nl = i;
+            continue;
+        }
         val = ht_oa_tab_next(&dict, x[i]);
         if (AS_I64(AS_LIST(dict)[0])[val] == NULL_I64) {
             AS_I64(AS_LIST(dict)[0])[val] = x[i];
@@ -1564,6 +1575,10 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     }
 
     for (i = 0; i < yl; i++) {
+        if (y[i] == NULL_I64) {
+            r[i] = nl;
+            continue;
+        }
         val = ht_oa_tab_get(dict, y[i]);
         r[i] = val == NULL_I64 ? NULL_I64 : AS_I64(AS_LIST(dict)[1])[val];
     }
@@ -1704,6 +1719,7 @@ typedef struct __group_chunk_ctx_t {
     i64_t *filter;
     i64_t *out;
     i64_t *local_groups;  // per-chunk group count
+    i64_t *local_nulls;   // per-chunk id of the group of null keys (NULL_I64 if there are none)
     hash_f hash;
     cmp_f cmp;
     obj_p *local_hts;   // per-chunk hash tables
@@ -1712,7 +1728,7 @@ typedef struct __group_chunk_ctx_t {
 
 // Phase 1: Each chunk builds its own local hash table and assigns local group IDs
 obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx) {
-    i64_t i, idx, n, groups;
+    i64_t i, idx, n, groups, nulls = NULL_I64;
     i64_t *k, *v, *keys, *filter, *out;
     obj_p ht;
     hash_f hash;
@@ -1730,6 +1746,12 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
     if (filter) {
         for (i = offset; i < offset + len; i++) {
             n = keys[filter[i]];
+            if (n == NULL_I64) {  // null marks a free slot of the table, so keep its group apart
+                if (nulls == NULL_I64)
+                    nulls = groups++;
+                out[i] = nulls;
+                continue;
+            }
             idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
             k = AS_I64(AS_LIST(ht)[0]);
             v = AS_I64(AS_LIST(ht)[1]);
@@ -1744,6 +1766,12 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
     } else {
         for (i = offset; i < offset + len; i++) {
             n = keys[i];
+            if (n == NULL_I64) {  // null marks a free slot of the table, so keep its group apart
+                if (nulls == NULL_I64)
+                    nulls = groups++;
+                out[i] = nulls;
+                continue;
+            }
             idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
             k = AS_I64(AS_LIST(ht)[0]);
             v = AS_I64(AS_LIST(ht)[1]);
@@ -1759,6 +1787,7 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
 
     i64_t chunk_idx = offset / ctx->chunk_size;
     ctx->local_groups[chunk_idx] = groups;
+    ctx->local_nulls[chunk_idx] = nulls;
     ctx->local_hts[chunk_idx] = ht;
 
     return NULL_OBJ;
@@ -1775,9 +1804,9 @@ obj_p index_group_chunk_remap(i64_t len, i64_t offset, i64_t *out, i64_t *remap)
 }
 
 i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t len, hash_f hash, cmp_f cmp) {
-    i64_t i, j, parts, groups, chunk, last_chunk;
+    i64_t i, j, parts, groups, chunk, last_chunk, nulls = NULL_I64;
     i64_t idx, n, *k, *v, *remap;
-    i64_t offsets[32], local_groups[32];  // Support up to 32 chunks
+    i64_t offsets[32], local_groups[32], local_nulls[32];  // Support up to 32 chunks
     obj_p local_hts[32];
     pool_p pool;
     obj_p ht, merged_ht, res;
@@ -1794,6 +1823,12 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         if (filter) {
             for (i = 0; i < len; i++) {
                 n = keys[filter[i]];
+                if (n == NULL_I64) {  // null marks a free slot of the table, so keep its group apart
+                    if (nulls == NULL_I64)
+                        nulls = groups++;
+                    out[i] = nulls;
+                    continue;
+                }
                 idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
                 k = AS_I64(AS_LIST(ht)[0]);
                 v = AS_I64(AS_LIST(ht)[1]);
@@ -1808,6 +1843,12 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         } else {
             for (i = 0; i < len; i++) {
                 n = keys[i];
+                if (n == NULL_I64) {  // null marks a free slot of the table, so keep its group apart
+                    if (nulls == NULL_I64)
+                        nulls = groups++;
+                    out[i] = nulls;
+                    continue;
+                }
                 idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
                 k = AS_I64(AS_LIST(ht)[0]);
                 v = AS_I64(AS_LIST(ht)[1]);
@@ -1838,6 +1879,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     ctx.filter = filter;
     ctx.out = out;
     ctx.local_groups = local_groups;
+    ctx.local_nulls = local_nulls;
     ctx.hash = hash;
     ctx.cmp = cmp;
     ctx.local_hts = local_hts;
@@ -1846,6 +1888,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     // Initialize
     for (i = 0; i < parts; i++) {
         local_groups[i] = 0;
+        local_nulls[i] = NULL_I64;
         local_hts[i] = NULL_OBJ;
         offsets[i] = i * chunk;
     }
@@ -1876,6 +1919,12 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         // Create remap array for this chunk's local IDs -> global IDs
         remap = (i64_t *)heap_alloc(local_groups[i] * sizeof(i64_t));
 
+        if (local_nulls[i] != NULL_I64) {
+            if (nulls == NULL_I64)
+                nulls = groups++;
+            remap[local_nulls[i]] = nulls;
+        }
+
         for (j = 0; j < ht_len; j++) {
             if (ht_keys[j] != NULL_I64) {
                 i64_t local_id = ht_vals[j];
diff --git a/core/items.c b/core/items.c
index b25ca46..daec767 100644
--- a/core/items.c
+++ b/core/items.c
@@ -427,6 +427,10 @@ obj_p ray_take(obj_p from, obj_p count) {
             default:
                 return err_type(-TYPE_I64, count->type, 0, 0);
         }
+
+        // there is nothing to repeat in an empty collection: take its empty range
+        if (from->type >= 0 && from->type != TYPE_TABLE && ops_count(from) == 0)
+            is_range = 1;
     }
 
     switch (from->type) {
@@ -593,13 +597,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
-- 
2.43.0


From 7bffd31a5dcfb312a2da0a7c75ac67423ef49822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 10/51] fix: membership of bytes, guids and mixed-width nulls,
 within on atoms, group of unsupported types, hashing of nested values

---
 core/compose.c |   3 ++
 core/hash.c    |  21 +++++++++-
 core/index.c   | 107 ++++++++++++++++++++++++++++---------------------
 core/items.c   |   2 +-
 4 files changed, 86 insertions(+), 47 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 0f6b622..a2fed1b 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1080,6 +1080,9 @@ obj_p ray_group(obj_p x) {
     obj_p k, v, index;
 
     index = index_group(x, NULL_OBJ);
+    if (IS_ERR(index))
+        return index;
+
     v = aggr_row(x, index);
     k = aggr_first(x, index);
     drop_obj(index);
diff --git a/core/hash.c b/core/hash.c
index b685ce3..ad152a9 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -250,6 +250,10 @@ u64_t hash_index_obj(obj_p obj) {
     u64_t hash, len, i;
 
     switch (obj->type) {
+        case -TYPE_B8:
+        case -TYPE_U8:
+        case -TYPE_C8:
+            return (u64_t)obj->u8;
         case -TYPE_I16:
             return (u64_t)obj->i16;
         case -TYPE_I32:
@@ -264,6 +268,8 @@ u64_t hash_index_obj(obj_p obj) {
             return (u64_t)obj->f64;
         case -TYPE_GUID:
             return hash_index_u64(*(u64_t *)AS_GUID(obj), *((u64_t *)AS_GUID(obj) + 1));
+        case TYPE_B8:
+        case TYPE_U8:
         case TYPE_C8:
             return str_hash(AS_C8(obj), obj->len);
         case TYPE_I16:
@@ -290,8 +296,21 @@ u64_t hash_index_obj(obj_p obj) {
             for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
                 hash = hash_index_u64((u64_t)AS_F64(obj)[i], hash);
             return hash;
+        case TYPE_LIST:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(hash_index_obj(AS_LIST(obj)[i]), hash);
+            return hash;
+        case TYPE_DICT:
+        case TYPE_TABLE:
+            return hash_index_u64(hash_index_obj(AS_LIST(obj)[0]), hash_index_obj(AS_LIST(obj)[1]));
+        case TYPE_UNARY:
+        case TYPE_BINARY:
+        case TYPE_VARY:
+            return (u64_t)obj->i64;
         default:
-            PANIC("type: %d", obj->type);
+            // everything else is equal to itself only
+            return (u64_t)obj->type;
     }
 }
 
diff --git a/core/index.c b/core/index.c
index f5ddd0b..47130d8 100644
--- a/core/index.c
+++ b/core/index.c
@@ -708,10 +708,9 @@ obj_p index_in_i8_i8(i8_t x[], i64_t xl, i8_t y[], i64_t yl) {
 obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     i64_t i, range;
     i16_t val;
-    i8_t min, *s, *r;
+    i8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
     range = 256;
 
     if (xl == 0)
@@ -722,7 +721,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
+        val = y[i];
         if (val >= 0 && val < (i16_t)range)
             s[val] = B8_TRUE;
     }
@@ -731,7 +730,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i]];
 
     drop_obj(set);
 
@@ -741,10 +740,9 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
 obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i64_t i, range;
     i32_t val;
-    i8_t min, *s, *r;
+    i8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
     range = 256;
 
     if (xl == 0)
@@ -755,7 +753,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
+        val = y[i];
         if (val >= 0 && val < (i32_t)range)
             s[val] = B8_TRUE;
     }
@@ -764,7 +762,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i]];
 
     drop_obj(set);
 
@@ -774,10 +772,9 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
 obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t i, range;
     i64_t val;
-    i8_t min, *s, *r;
+    i8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
     range = 256;
 
     if (xl == 0)
@@ -788,7 +785,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
+        val = y[i];
         if (val >= 0 && val < (i64_t)range)
             s[val] = B8_TRUE;
     }
@@ -797,7 +794,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i]];
 
     drop_obj(set);
 
@@ -807,10 +804,9 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
 obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i64_t i, range;
     i16_t val;
-    i8_t min, *s, *r;
+    i8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
     range = 256;
 
     if (xl == 0)
@@ -821,13 +817,13 @@ obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i]] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = x[i];
         if (val >= 0 && val < (i16_t)range)
             r[i] = s[val];
         else
@@ -947,10 +943,9 @@ obj_p index_in_i16_i64(i16_t x[], i64_t xl, i64_t y[], i64_t yl) {
 obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i64_t i, range;
     i32_t val;
-    i8_t min, *s, *r;
+    i8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
     range = 256;
 
     if (xl == 0)
@@ -961,13 +956,13 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        val = y[i] - min;
+        s[(u8_t)y[i]] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = x[i];
         if (val >= 0 && val < (i32_t)range)
             r[i] = s[val];
         else
@@ -1090,6 +1085,7 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t val, min, max;
     obj_p vec, set;
     i8_t *s, *r;
+    b8_t nl = B8_FALSE;
 
     if (xl == 0)
         return B8(0);
@@ -1103,12 +1099,17 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
+    for (i = 0; i < yl; i++)
+        if (y[i] == NULL_I64)
+            nl = B8_TRUE;
+
     if (min > max) {
-        memset(r, 0, xl);
+        for (i = 0; i < xl; i++)
+            r[i] = (x[i] == NULL_I32) ? nl : B8_FALSE;
         return vec;
     }
 
-    range = max - min + 1;
+    range = scope_range(min, max);
 
     if (range <= MAX_RANGE) {
         set = B8(range);
@@ -1116,13 +1117,19 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
+            if (y[i] == NULL_I64)
+                continue;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 s[val] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
+            if (x[i] == NULL_I32) {
+                r[i] = nl;
+                continue;
+            }
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 r[i] = s[val];
             else
@@ -1154,11 +1161,9 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
 obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i64_t i, range;
     i64_t val;
-    i8_t min;
     b8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
     range = 256;
 
     if (xl == 0)
@@ -1169,13 +1174,13 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i]] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = x[i];
         if (val >= 0 && val < (i64_t)range)
             r[i] = s[val];
         else
@@ -1231,6 +1236,7 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i64_t val, min, max;
     obj_p vec, set;
     i8_t *s, *r;
+    b8_t nl = B8_FALSE;
 
     if (xl == 0)
         return B8(0);
@@ -1244,12 +1250,17 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
+    for (i = 0; i < yl; i++)
+        if (y[i] == NULL_I32)
+            nl = B8_TRUE;
+
     if (min > max) {
-        memset(r, 0, xl);
+        for (i = 0; i < xl; i++)
+            r[i] = (x[i] == NULL_I64) ? nl : B8_FALSE;
         return vec;
     }
 
-    range = max - min + 1;
+    range = scope_range(min, max);
 
     if (range <= MAX_RANGE) {
         set = B8(range);
@@ -1257,13 +1268,19 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
+            if (y[i] == NULL_I32)
+                continue;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 s[val] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
+            if (x[i] == NULL_I64) {
+                r[i] = nl;
+                continue;
+            }
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 r[i] = s[val];
             else
@@ -1328,13 +1345,13 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 s[val] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 r[i] = s[val];
             else
@@ -1373,28 +1390,28 @@ obj_p index_in_guid_guid(guid_t x[], i64_t xl, guid_t y[], i64_t yl) {
     __index_find_ctx_t ctx;
 
     // calc hashes
-    hs = I64(xl);
-    ht = ht_oa_create(xl, -1);
+    hs = I64(xl > yl ? xl : yl);
+    ht = ht_oa_create(yl, -1);
 
     hashes = (i64_t *)AS_I64(hs);
 
-    for (i = 0; i < xl; i++)
-        hashes[i] = hash_index_u64(*(i64_t *)(x + i), *((i64_t *)(x + i) + 1));
+    for (i = 0; i < yl; i++)
+        hashes[i] = hash_index_u64(*(i64_t *)(y + i), *((i64_t *)(y + i) + 1));
 
-    ctx = (__index_find_ctx_t){.lobj = x, .robj = x, .hashes = hashes};
-    for (i = 0; i < xl; i++) {
+    ctx = (__index_find_ctx_t){.lobj = y, .robj = y, .hashes = hashes};
+    for (i = 0; i < yl; i++) {
         idx = ht_oa_tab_next_with(&ht, i, &__hash_get, &__hash_cmp_guid, &ctx);
         if (AS_I64(AS_LIST(ht)[0])[idx] == NULL_I64)
             AS_I64(AS_LIST(ht)[0])[idx] = i;
     }
 
-    for (i = 0; i < yl; i++)
-        hashes[i] = hash_index_u64(*(i64_t *)(y + i), *((i64_t *)(y + i) + 1));
+    for (i = 0; i < xl; i++)
+        hashes[i] = hash_index_u64(*(i64_t *)(x + i), *((i64_t *)(x + i) + 1));
 
-    res = B8(yl);
+    res = B8(xl);
 
-    ctx = (__index_find_ctx_t){.lobj = x, .robj = y, .hashes = hashes};
-    for (i = 0; i < yl; i++) {
+    ctx = (__index_find_ctx_t){.lobj = y, .robj = x, .hashes = hashes};
+    for (i = 0; i < xl; i++) {
         idx = ht_oa_tab_get_with(ht, i, &__hash_get, &__hash_cmp_guid, &ctx);
         AS_B8(res)[i] = idx != NULL_I64;
     }
diff --git a/core/items.c b/core/items.c
index daec767..5635d04 100644
--- a/core/items.c
+++ b/core/items.c
@@ -862,7 +862,7 @@ obj_p ray_within(obj_p x, obj_p y) {
                 min = AS_I64(y)[0];
                 max = AS_I64(y)[1];
 
-                return B8(x->i64 >= min && x->i64 <= max);
+                return b8(x->i64 >= min && x->i64 <= max);
 
             case MTYPE2(TYPE_I64, TYPE_I64):
                 l = x->len;
-- 
2.43.0


From 2f4f559101a318332e6c995839a8f5041261f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 11/51] fix: membership hash tables: compute the slot before
 taking the table address (rehash frees it)

---
 core/index.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/index.c b/core/index.c
index 47130d8..9ebb8f1 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1144,11 +1144,15 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     // otherwise, use a hash table
     set = ht_oa_create(xl, -1);
 
-    for (i = 0; i < yl; i++)
-        if (y[i] == NULL_I64)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)NULL_I32)] = (i64_t)NULL_I32;
-        else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+    for (i = 0; i < yl; i++) {
+        if (y[i] == NULL_I64) {
+            val = ht_oa_tab_next(&set, (i64_t)NULL_I32);
+            AS_I64(AS_LIST(set)[0])[val] = (i64_t)NULL_I32;
+        } else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32) {
+            val = ht_oa_tab_next(&set, y[i]);
+            AS_I64(AS_LIST(set)[0])[val] = y[i];
+        }
+    }
 
     for (i = 0; i < xl; i++)
         r[i] = ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
@@ -1295,8 +1299,10 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     // otherwise, use a hash table
     set = ht_oa_create(xl, -1);
 
-    for (i = 0; i < yl; i++)
-        AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)y[i])] = (i64_t)y[i];
+    for (i = 0; i < yl; i++) {
+        val = ht_oa_tab_next(&set, (i64_t)y[i]);
+        AS_I64(AS_LIST(set)[0])[val] = (i64_t)y[i];
+    }
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
@@ -1366,11 +1372,14 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     // otherwise, use a hash table
     set = ht_oa_create(xl, -1);
 
-    for (i = 0; i < yl; i++)
+    for (i = 0; i < yl; i++) {
         if (y[i] == NULL_I64)
             nl = B8_TRUE;
-        else
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+        else {
+            val = ht_oa_tab_next(&set, y[i]);
+            AS_I64(AS_LIST(set)[0])[val] = y[i];
+        }
+    }
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
-- 
2.43.0


From 21a1daba8ff5ad30d66169037532e6c6509919b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 12/51] fix: serialization: I16 vectors, unserializable
 elements, and validation of every length, nesting and shape when decoding

---
 core/binary.c |   6 ++-
 core/error.c  |  19 ++++++++
 core/error.h  |   2 +
 core/io.c     |   2 +
 core/ipc.c    |  10 ++++
 core/serde.c  | 123 +++++++++++++++++++++++++++++++++++++++++---------
 6 files changed, 139 insertions(+), 23 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 41fa89f..0d2599f 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -172,12 +172,16 @@ obj_p binary_set(obj_p x, obj_p y) {
                     return clone_obj(x);
 
                 case TYPE_LIST:
+                    size = size_obj(y);
+                    if (size == 0)
+                        return err_type(0, 0, 0, 0);
+
                     s = cstring_from_str("#", 1);
                     col = ray_concat(x, s);
                     drop_obj(s);
 
                     l = y->len;
-                    size = size_obj(y) - sizeof(i8_t) - sizeof(i64_t);
+                    size = size - sizeof(i8_t) - sizeof(i64_t);
                     buf = U8(size);
                     b = AS_U8(buf);
                     k = I64(l);
diff --git a/core/error.c b/core/error.c
index e58d0fe..a7b974d 100644
--- a/core/error.c
+++ b/core/error.c
@@ -50,6 +50,25 @@ obj_p err_raw(err_code_t code) {
     return ERR_OBJ;
 }
 
+// Context as sent to other processes: symbol ids are local to the process, so they are left out
+i64_t err_ctx(obj_p err) {
+    i64_t ctx = 0;
+
+    if (err != NULL_OBJ && err->type == TYPE_ERR && VM->err.code != EC_VALUE)
+        memcpy(&ctx, VM->err.user.msg, sizeof(ctx));
+
+    return ctx;
+}
+
+obj_p err_with_ctx(err_code_t code, i64_t ctx) {
+    memset(&VM->err, 0, sizeof(err_t));
+    VM->err.code = (u8_t)code;
+    if (code != EC_VALUE && code != EC_USER)
+        memcpy(VM->err.user.msg, &ctx, sizeof(ctx));
+
+    return ERR_OBJ;
+}
+
 obj_p err_type(i8_t expected, i8_t actual, u8_t arg, u8_t field) {
     err_t *e = &VM->err;
     e->code = EC_TYPE;
diff --git a/core/error.h b/core/error.h
index 71a5103..19fb2a2 100644
--- a/core/error.h
+++ b/core/error.h
@@ -95,6 +95,8 @@ obj_p err_user(lit_p msg);
 obj_p err_nyi(i8_t type);
 obj_p err_parse(nil_t);
 obj_p err_raw(err_code_t code);
+i64_t err_ctx(obj_p err);
+obj_p err_with_ctx(err_code_t code, i64_t ctx);
 
 // ============================================================================
 // Error Query
diff --git a/core/io.c b/core/io.c
index 5f87b11..5fa332d 100644
--- a/core/io.c
+++ b/core/io.c
@@ -348,6 +348,8 @@ obj_p ray_write(obj_p x, obj_p y) {
     switch (x->type) {
         case -TYPE_I32:
             size = size_obj(y);
+            if (size == 0)
+                return err_type(0, y->type, 0, 0);
             buf = U8(size);
             size = ser_raw(AS_U8(buf), y);
             fs_fwrite(x->i32, AS_C8(buf), size);
diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..f40dbd2 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -401,6 +401,13 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+
+    // The value can't be sent: let the other side know
+    if (size == 0) {
+        msg = err_type(0, msg->type, 0, 0);
+        size = size_obj(msg);
+    }
+
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
 
     header = (ipc_header_t *)buf->data;
@@ -493,6 +500,9 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
         return err_os();
     }
 
+    if (size_obj(msg) == 0)
+        return err_type(0, msg->type, 0, 0);
+
     ctx = (ipc_ctx_p)selector->data;
     ipc_send_msg(poll, selector, msg, msgtype);
 
diff --git a/core/serde.c b/core/serde.c
index c5ef252..9f5f1e7 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -87,7 +87,7 @@ i64_t size_of(obj_p obj) {
  * Returns size (in bytes) that an obj occupy in memory via serialization
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, n, size;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -117,6 +117,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -137,14 +139,22 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                n = size_obj(AS_LIST(obj)[i]);
+                if (n == 0)
+                    return 0;  // not serializable
+                size += n;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            size = size_obj(AS_LIST(obj)[0]);
+            n = size_obj(AS_LIST(obj)[1]);
+            return (size && n) ? ISIZEOF(i8_t) + 1 + size + n : 0;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            size = size_obj(AS_LAMBDA(obj)->args);
+            n = size_obj(AS_LAMBDA(obj)->body);
+            return (size && n) ? ISIZEOF(i8_t) + 1 + size + n : 0;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
@@ -321,7 +331,8 @@ i64_t ser_raw(u8_t *buf, obj_p obj) {
             err_code_t code = err_code(obj);
             buf[0] = (u8_t)code;
             c = 1;
-            memcpy(buf + c, &obj->i64, 8);  // Copy context directly
+            i64_t ctx_val = err_ctx(obj);
+            memcpy(buf + c, &ctx_val, 8);
             c += 8;
             if (code == EC_USER) {
                 lit_p m = err_msg(obj);
@@ -362,13 +373,43 @@ obj_p ser_obj(obj_p obj) {
     return buf;
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) {
+// Deepest nesting of values accepted from outside
+#define DE_MAX_DEPTH 4096
+
+// Table: symbol vector of names, list of as many columns of the same length
+static b8_t de_is_table(obj_p k, obj_p v) {
+    i64_t i;
+
+    if (k->type != TYPE_SYMBOL || v->type != TYPE_LIST || k->len != v->len)
+        return B8_FALSE;
+
+    for (i = 0; i < v->len; i++)
+        if (!IS_VECTOR(AS_LIST(v)[i]) || AS_LIST(v)[i]->len != AS_LIST(v)[0]->len)
+            return B8_FALSE;
+
+    return B8_TRUE;
+}
+
+// Dict: keys and values are collections of the same length
+static b8_t de_is_dict(obj_p k, obj_p v) {
+    if (k->type != TYPE_NULL && k->type != TYPE_TABLE && !IS_VECTOR(k))
+        return B8_FALSE;
+    if (v->type != TYPE_NULL && v->type != TYPE_TABLE && !IS_VECTOR(v))
+        return B8_FALSE;
+
+    return ops_count(k) == ops_count(v);
+}
+
+static obj_p de_raw_nested(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
 
-    if (*len == 0)
-        return NULL_OBJ;
+    if (*len <= 0)
+        return err_domain(0, 0);
+
+    if (depth > DE_MAX_DEPTH)
+        return err_limit(DE_MAX_DEPTH);
 
     type = buf[0];
     buf++;
@@ -456,6 +497,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -465,7 +507,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -474,7 +516,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             (*len) -= ISIZEOF(i64_t) + 1;
 
             // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            if (l < 0 || l > 1000000000)  // 1 billion elements is likely a corrupted value
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -501,6 +543,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
@@ -537,6 +589,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     (*len) -= l * ISIZEOF(f64_t);
                     return obj;
                 case TYPE_SYMBOL:
+                    // every symbol takes at least its terminator
+                    if (*len < l)
+                        return err_domain(0, 0);
                     obj = SYMBOL(l);
                     if (IS_ERR(obj))
                         return obj;
@@ -569,12 +624,15 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     (*len) -= l * ISIZEOF(guid_t);
                     return obj;
                 case TYPE_LIST:
+                    // every element takes at least its type
+                    if (*len < l)
+                        return err_domain(0, 0);
                     obj = LIST(l);
                     if (IS_ERR(obj))
                         return obj;
                     c = *len;
                     for (i = 0; i < l; i++) {
-                        v = de_raw(buf + c - *len, len);
+                        v = de_raw_nested(buf + c - *len, len, depth + 1);
                         if (IS_ERR(v)) {
                             obj->len = i;
                             drop_obj(obj);
@@ -590,42 +648,58 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_nested(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_nested(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (type == TYPE_TABLE ? !de_is_table(k, v) : !de_is_dict(k, v)) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             if (type == TYPE_TABLE)
                 return table(k, v);
             else
                 return dict(k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_nested(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_nested(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (k->type != TYPE_SYMBOL) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             return lambda(k, v, NULL_OBJ);
 
         case TYPE_UNARY:
@@ -660,17 +734,17 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             (*len) -= 8;
             
             if (code == EC_USER) {
-                lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                str_p msg = (str_p)buf;
+                i64_t msg_len = str_len(msg, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
             }
-            
+
             // Reconstruct error with context
-            obj_p err = err_raw(code);
-            err->i64 = ctx_val;
-            return err;
+            return err_with_ctx(code, ctx_val);
         }
 
         default:
@@ -678,11 +752,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+obj_p de_raw(u8_t *buf, i64_t *len) { return de_raw_nested(buf, len, 0); }
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
     ipc_header_t *header;
 
+    if (obj->type != TYPE_U8 && obj->type != TYPE_C8)
+        return err_type(TYPE_U8, obj->type, 0, 0);
+
     len = obj->len;
     buf = AS_U8(obj);
 
-- 
2.43.0


From a326bec496e033a9779e3aa76fce72338854d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 13/51] fix: error recovery: drop interrupted evaluations'
 stack, pop each call frame once, clear stale error traces

---
 core/eval.c | 26 ++++++++++++++++++++++----
 core/eval.h |  1 +
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 7bcbac5..54e7cae 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -200,6 +200,16 @@ obj_p amend(obj_p sym, obj_p val) {
 // Error Handling
 // ============================================================================
 
+// Forget the locations collected for an error that is not propagating anymore
+nil_t error_clear_trace(nil_t) {
+    vm_p vm = VM;
+
+    if (vm != NULL && vm->trace != NULL_OBJ) {
+        drop_obj(vm->trace);
+        vm->trace = NULL_OBJ;
+    }
+}
+
 nil_t error_add_loc(obj_p err, i64_t id, ctx_t *ctx) {
     obj_p loc, nfo;
     span_t span;
@@ -301,10 +311,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
     while (vm->rp > 0) {
         rs = &vm->rs[vm->rp - 1];
         if (rs->ip == -1) {
-            // External call marker - stop unwinding
-            vm->rp--;
-            vm->fn = rs->fn;
-            vm->fp = rs->fp;
+            // External call marker - stop unwinding, call() pops the frame
             break;
         }
         // Add caller's location to trace
@@ -672,6 +679,7 @@ obj_p call(obj_p fn, i64_t arity) {
     vm_p vm = VM;
     obj_p saved_fn = vm->fn;
     i64_t saved_fp = vm->fp;
+    i64_t saved_sp = vm->sp;
     UNUSED(arity);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
@@ -691,6 +699,12 @@ obj_p call(obj_p fn, i64_t arity) {
     // Execute bytecode
     res = vm_eval(fn);
 
+    // Drop what an interrupted evaluation left on the stack (arguments are popped by the caller)
+    if (IS_ERR(res)) {
+        while (vm->sp > saved_sp)
+            drop_obj(vm->ps[--vm->sp]);
+    }
+
     // Pop frame and restore context
     vm->rp--;
     vm->fn = saved_fn;
@@ -938,6 +952,8 @@ obj_p eval_str_w_attr(lit_p str, i64_t len, obj_p nfo_arg) {
     vm_p vm = VM;
     obj_p saved_nfo = vm ? vm->nfo : NULL_OBJ;
 
+    error_clear_trace();
+
     timeit_reset();
     timeit_span_start("top-level");
 
@@ -1014,6 +1030,8 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
         obj_p *pfn;
         obj_p fn = ctch;
 
+        error_clear_trace();
+
         switch (fn->type) {
             case TYPE_LAMBDA:
             call_catch:
diff --git a/core/eval.h b/core/eval.h
index 96307f6..ea4d335 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -135,6 +135,7 @@ obj_p ray_cond(obj_p *x, i64_t n);
 
 // Error handling
 nil_t error_add_loc(obj_p err, i64_t id, ctx_t *ctx);
+nil_t error_clear_trace(nil_t);
 
 // Thread utilities
 b8_t ray_is_main_thread(nil_t);
-- 
2.43.0


From cfaaf17cac098416897603dcc49075826832d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 14/51] fix: parser read past the end of strings that are not
 zero terminated

---
 core/parse.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/parse.c b/core/parse.c
index 4174519..6faa1f9 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -1248,7 +1248,7 @@ obj_p parse_do(parser_t *parser) {
     return lst != NULL_OBJ ? lst : car;
 }
 
-obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+static obj_p parse_terminated(lit_p input, i64_t input_len, obj_p nfo) {
     obj_p res, err;
     span_t span;
 
@@ -1292,3 +1292,20 @@ obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
 
     return res;
 }
+
+// The parser looks ahead up to the terminating zero, which strings do not necessarily have
+obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+    obj_p res;
+    str_p buf;
+
+    buf = (str_p)heap_alloc(input_len + 1);
+    if (buf == NULL)
+        return err_os();
+
+    memcpy(buf, input, input_len);
+    buf[input_len] = '\0';
+    res = parse_terminated(buf, input_len, nfo);
+    heap_free(buf);
+
+    return res;
+}
-- 
2.43.0


From 5ccf7cf5f8f25f5d9ddfc4ddca713bc89f537bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 15/51] fix: event loop and ipc: selectors closed while in use,
 lost/partial/pending output, stale errno, header validation, late answers

---
 core/epoll.c    | 136 +++++++++++++++++++++++++++++-------------------
 core/freelist.c |   4 ++
 core/ipc.c      | 109 +++++++++++++++++++++++++-------------
 core/ipc.h      |   3 ++
 core/poll.c     |   9 ++--
 core/poll.h     |   2 +
 core/sock.c     |   4 +-
 7 files changed, 173 insertions(+), 94 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 1a92a36..e528239 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -26,6 +26,8 @@
 #include <signal.h>
 #include <sys/eventfd.h>
 #include <fcntl.h>
+#include <unistd.h>
+#include <sys/poll.h>
 #include "poll.h"
 #include "heap.h"
 #include "log.h"
@@ -89,6 +91,7 @@ poll_p poll_create() {
     poll->code = NULL_I64;
     poll->fd = fd;
     poll->selectors = freelist_create(128);
+    poll->closed = NULL;
     poll->timers = timers_create(16);
 
     LOG_DEBUG("Poll instance created");
@@ -96,6 +99,17 @@ poll_p poll_create() {
     return poll;
 }
 
+// Free selectors that were deregistered while events or callbacks could still refer to them
+static nil_t poll_free_closed(poll_p poll) {
+    selector_p selector;
+
+    while (poll->closed != NULL) {
+        selector = poll->closed;
+        poll->closed = selector->next;
+        heap_free(selector);
+    }
+}
+
 nil_t poll_destroy(poll_p poll) {
     i64_t i, l;
 
@@ -107,6 +121,8 @@ nil_t poll_destroy(poll_p poll) {
             poll_deregister(poll, i + SELECTOR_ID_OFFSET);
     }
 
+    poll_free_closed(poll);
+
     LOG_DEBUG("Freeing selectors list");
     freelist_free(poll->selectors);
     timers_destroy(poll->timers);
@@ -187,6 +203,9 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     epoll_ctl(poll->fd, EPOLL_CTL_DEL, selector->fd, NULL);
 
+    if (selector->type == SELECTOR_TYPE_SOCKET)
+        close(selector->fd);
+
     if (selector->rx.buf != NULL) {
         heap_free(selector->rx.buf);
         selector->rx.buf = NULL;
@@ -198,9 +217,10 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
         selector->tx.buf = buf;
     }
 
-    LOG_DEBUG("Freeing selector");
-
-    heap_free(selector);
+    // The selector itself is freed once nothing can refer to it
+    selector->fd = -1;
+    selector->next = poll->closed;
+    poll->closed = selector;
 
     return 0;
 }
@@ -225,20 +245,14 @@ i64_t poll_recv(poll_p poll, selector_p selector) {
 
         LOG_TRACE("Received %lld bytes from selector %lld", size, selector->id);
 
-        if (size == -1) {
-            if (errno == EINTR)
-                continue;
-
+        // error or closed by the peer. errno is not consulted: the callback retries on EINTR itself and
+        // leaves errno untouched (possibly stale) when the peer has closed the connection
+        if (size == -1)
             return -1;
-        }
-
-        if (size == 0) {
-            // closed
-            if (errno != EAGAIN && errno != EWOULDBLOCK)
-                return -1;
 
+        // would block
+        if (size == 0)
             return 0;
-        }
 
         selector->rx.buf->offset += size;
     }
@@ -267,20 +281,14 @@ send_loop:
 
         LOG_TRACE("Sent %lld bytes to selector %lld", size, selector->id);
 
-        if (size == -1) {
-            if (errno == EINTR)
-                continue;
-
+        // error or closed by the peer. errno is not consulted: the callback retries on EINTR itself and
+        // leaves errno untouched (possibly stale) when the peer has closed the connection
+        if (size == -1)
             return -1;
-        }
-
-        if (size == 0) {
-            // closed
-            if (errno != EAGAIN && errno != EWOULDBLOCK)
-                return -1;
 
+        // would block
+        if (size == 0)
             return 0;
-        }
 
         selector->tx.buf->offset += size;
     }
@@ -312,6 +320,8 @@ i64_t poll_run(poll_p poll) {
     while (poll->code == NULL_I64) {
         LOG_TRACE("Waiting for events");
 
+        poll_free_closed(poll);
+
         timeout = timer_next_timeout(poll->timers);
         nfds = epoll_wait(poll->fd, events, MAX_EVENTS, timeout);
 
@@ -335,14 +345,11 @@ i64_t poll_run(poll_p poll) {
 
             selector = (selector_p)ev.data.ptr;
 
-            // error or hang up
-            if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
-                LOG_DEBUG("Connection error or hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
-                poll_deregister(poll, selector->id);
+            // closed while processing the previous events
+            if (selector->fd == -1)
                 continue;
-            }
 
-            // read
+            // read (also what has been received before the error or hang up)
             if (ev.events & POLL_EVENT_READ) {
                 LOG_TRACE("Read event received for selector %lld, events: 0x%llx", selector->id, ev.events);
                 while (B8_TRUE) {
@@ -358,10 +365,9 @@ i64_t poll_run(poll_p poll) {
                             goto next_event;
                         }
 
-                        if (nbytes == 0) {
-                            // No more data to read (EAGAIN/EWOULDBLOCK), wait for next edge trigger
-                            goto next_event;
-                        }
+                        // No more data to read (EAGAIN/EWOULDBLOCK), wait for next edge trigger
+                        if (nbytes == 0)
+                            break;
                     }
 
                     poll_result = option_none();
@@ -373,12 +379,18 @@ i64_t poll_run(poll_p poll) {
                         if (poll_result.value != NULL && selector->data_fn != NULL)
                             poll_result = selector->data_fn(poll, selector, poll_result.value);
 
-                        if (option_is_some(&poll_result))
+                        if (option_is_some(&poll_result) && selector->fd != -1)
                             continue;
                     }
 
-                    if (option_is_error(&poll_result))
-                        poll_deregister(poll, selector->id);
+                    if (option_is_error(&poll_result)) {
+                        drop_obj((obj_p)poll_result.value);
+                        if (selector->fd != -1)
+                            poll_deregister(poll, selector->id);
+                    }
+
+                    if (selector->fd == -1)
+                        goto next_event;
 
                     break;
                 }
@@ -401,6 +413,12 @@ i64_t poll_run(poll_p poll) {
                 }
             }
 
+            // error or hang up
+            if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
+                LOG_DEBUG("Connection error or hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
+                poll_deregister(poll, selector->id);
+            }
+
         next_event:;
         }
     }
@@ -408,36 +426,43 @@ i64_t poll_run(poll_p poll) {
     return poll->code;
 }
 
+static inline i32_t wait_fd(struct pollfd *pfd, i32_t timeout) { return poll(pfd, 1, timeout); }
+
 option_t poll_block_on(poll_p poll, selector_p selector) {
     option_t result;
-    fd_set readfds;
-    struct timeval timeout;
+    struct pollfd pfd;
     i64_t nbytes, ret;
 
     LOG_TRACE("Blocking on selector id: %lld, fd: %lld", selector->id, selector->fd);
 
     // Perform the read operation
     while (selector->rx.buf != NULL) {
-        // Setup select (must be done each iteration as select modifies these)
-        FD_ZERO(&readfds);
-        FD_SET(selector->fd, &readfds);
-        timeout.tv_sec = 3;
-        timeout.tv_usec = 0;
-
-        // Wait for the file descriptor to become readable
-        ret = select(selector->fd + 1, &readfds, NULL, NULL, &timeout);
+        // Wait for the file descriptor to become readable (or writable if there is something left to send)
+        pfd.fd = selector->fd;
+        pfd.events = (selector->tx.buf != NULL) ? (POLLIN | POLLOUT) : POLLIN;
+        pfd.revents = 0;
+
+        ret = wait_fd(&pfd, 3000);
         if (ret == -1) {
-            LOG_ERROR("select failed");
+            LOG_ERROR("poll failed");
             return option_error(err_os());
         }
 
-        LOG_TRACE("select returned %lld", ret);
+        LOG_TRACE("poll returned %lld", ret);
 
         if (ret == 0)
             return option_error(err_os());
 
+        if ((pfd.revents & POLLOUT) && poll_send(poll, selector) == -1) {
+            poll_deregister(poll, selector->id);
+            return option_error(err_os());
+        }
+
+        if ((pfd.revents & ~POLLOUT) == 0)
+            continue;
+
         // In case we have a low level IO recv function, use it
-        if (selector->rx.buf != NULL && selector->rx.recv_fn != NULL) {
+        if (selector->rx.recv_fn != NULL) {
             nbytes = poll_recv(poll, selector);
 
             if (nbytes == -1) {
@@ -446,14 +471,17 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
             }
 
             if (nbytes == 0)
-                return option_none();
+                continue;
         }
 
+        result = option_none();
+
         if (selector->rx.read_fn != NULL)
             result = selector->rx.read_fn(poll, selector);
 
         if (option_is_error(&result)) {
-            poll_deregister(poll, selector->id);
+            if (selector->fd != -1)
+                poll_deregister(poll, selector->id);
             return result;
         }
 
@@ -464,4 +492,4 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
     LOG_DEBUG("empty buffer");
 
     return option_none();
-}
\ No newline at end of file
+}
diff --git a/core/freelist.c b/core/freelist.c
index 17d7048..c7f3fef 100644
--- a/core/freelist.c
+++ b/core/freelist.c
@@ -71,6 +71,10 @@ i64_t freelist_pop(freelist_p freelist, i64_t pos) {
     if (pos < 0 || pos >= freelist->data_pos)
         return NULL_I64;
 
+    // The slot is already free
+    if (freelist->data[pos] == NULL_I64)
+        return NULL_I64;
+
     if (freelist->free_pos == freelist->free_size) {
         freelist->free_size *= 2;
         freelist->free = (i64_t *)heap_realloc(freelist->free, freelist->free_size * sizeof(i64_t));
diff --git a/core/ipc.c b/core/ipc.c
index f40dbd2..a3d083f 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -132,6 +132,7 @@ option_t ipc_listener_accept(poll_p poll, selector_p selector) {
         ctx = (ipc_ctx_p)heap_alloc(sizeof(struct ipc_ctx_t));
         ctx->name = string_from_str("ipc", 4);
         ctx->msgtype = MSG_TYPE_RESP;
+        ctx->stale = 0;
 
         registry.fd = fd;
         registry.type = SELECTOR_TYPE_SOCKET;
@@ -148,8 +149,10 @@ option_t ipc_listener_accept(poll_p poll, selector_p selector) {
 
         if (poll_register(poll, &registry) == -1) {
             LOG_ERROR("Failed to register new connection in poll registry");
+            drop_obj(ctx->name);
             heap_free(ctx);
-            return option_error(err_os());
+            sock_close(fd);
+            return option_none();
         }
 
         LOG_INFO("New connection registered successfully");
@@ -195,7 +198,7 @@ i64_t ipc_listen(poll_p poll, i64_t port) {
 nil_t ipc_call_usr_cb(poll_p poll, selector_p selector, lit_p sym, i64_t len) {
     UNUSED(poll);
     i64_t clbnm;
-    obj_p v, f, *clbfn;
+    obj_p v, f, fn, *clbfn;
 
     vm_stack_push(NULL_OBJ);  // null env
     clbnm = symbols_intern(sym, len);
@@ -204,11 +207,13 @@ nil_t ipc_call_usr_cb(poll_p poll, selector_p selector, lit_p sym, i64_t len) {
 
     // Call the callback if it's a lambda
     if (clbfn != NULL && (*clbfn)->type == TYPE_LAMBDA) {
+        fn = clone_obj(*clbfn);  // globals may be changed while the callback runs
         poll_set_usr_fd(selector->id);
         vm_stack_push(i64(selector->id));
-        v = call(*clbfn, 1);
+        v = call(fn, 1);
         drop_obj(vm_stack_pop());
         poll_set_usr_fd(0);
+        drop_obj(fn);
         if (IS_ERR(v)) {
             f = obj_fmt(v, B8_FALSE);
             LOG_ERROR("Error in user callback: %.*s", (i32_t)f->len, AS_C8(f));
@@ -238,11 +243,10 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
     if (fd == -1)
         return -1;
 
-    if (sock_send(fd, buf, 2) == -1)
-        return -1;
-
-    if (sock_recv(fd, buf, 1) == -1)
+    if (sock_send(fd, buf, 2) != 2 || sock_recv(fd, buf, 1) != 1) {
+        sock_close(fd);
         return -1;
+    }
 
     LOG_TRACE("Setting socket to non-blocking mode");
     sock_set_nonblocking(fd, B8_TRUE);
@@ -250,21 +254,32 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
 
     ctx = (ipc_ctx_p)heap_alloc(sizeof(struct ipc_ctx_t));
     ctx->name = string_from_str("ipc", 4);
+    ctx->msgtype = MSG_TYPE_RESP;
+    ctx->stale = 0;
 
     registry.fd = fd;
     registry.type = SELECTOR_TYPE_SOCKET;
-    registry.events = POLL_EVENT_READ | POLL_EVENT_ERROR | POLL_EVENT_HUP;
+    registry.events =
+        POLL_EVENT_READ | POLL_EVENT_WRITE | POLL_EVENT_ERROR | POLL_EVENT_HUP | POLL_EVENT_RDHUP | POLL_EVENT_EDGE;
     registry.recv_fn = sock_recv;
     registry.send_fn = sock_send;
     registry.read_fn = ipc_read_header;
     registry.close_fn = ipc_on_close;
     registry.error_fn = ipc_on_error;
+    registry.data_fn = ipc_on_data;
     registry.data = ctx;
 
     LOG_DEBUG("Registering connection in poll registry");
     id = poll_register(poll, &registry);
     LOG_DEBUG("Connection registered in poll registry with id %lld", id);
 
+    if (id == -1) {
+        drop_obj(ctx->name);
+        heap_free(ctx);
+        sock_close(fd);
+        return -1;
+    }
+
     // request rx buffer
     selector = poll_get_selector(poll, id);
     if (poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t)) == -1) {
@@ -286,7 +301,6 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
 
     if (selector->rx.buf == NULL) {
         LOG_DEBUG("No handshake buffer received, closing connection");
-        poll_deregister(poll, selector->id);
         return option_error(err_os());
     }
 
@@ -301,6 +315,10 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
         // Now we are ready for income messages and can call userspace callback (if any)
         ipc_call_usr_cb(poll, selector, ".z.po", 5);
 
+        // Closed by the callback
+        if (selector->fd == -1)
+            return option_none();
+
         selector->rx.read_fn = ipc_read_header;
         LOG_DEBUG("Handshake completed, switching to header reading mode");
 
@@ -333,9 +351,15 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
     LOG_TRACE("Header read: {.prefix: 0x%08x, .version: %d, .flags: %d, .endian: %d, .msgtype: %d, .size: %lld}",
               header->prefix, header->version, header->flags, header->endian, header->msgtype, header->size);
 
+    if (header->prefix != SERDE_PREFIX || msgsize <= 0 || msgsize > IPC_MAX_MSG_SIZE) {
+        LOG_ERROR("Malformed header on connection %lld", selector->id);
+        return option_error(err_domain(0, 0));
+    }
+
     // request the buffer for the entire message (including the header)
     LOG_DEBUG("Requesting buffer for message of size %lld", ISIZEOF(struct ipc_header_t) + msgsize);
-    poll_rx_buf_extend(poll, selector, msgsize);
+    if (poll_rx_buf_extend(poll, selector, msgsize) == -1)
+        return option_error(err_os());
 
     LOG_DEBUG("Switching to message reading mode");
     selector->rx.read_fn = ipc_read_msg;
@@ -385,6 +409,7 @@ obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg) {
         drop_obj(msg);
     } else {
         LOG_TRACE("Evaluating object message");
+        error_clear_trace();
         res = eval_obj(msg);
         drop_obj(msg);
     }
@@ -430,17 +455,27 @@ option_t ipc_on_data(poll_p poll, selector_p selector, raw_p data) {
     LOG_TRACE("Received data from connection %lld", selector->id);
 
     ipc_ctx_p ctx;
+    u8_t msgtype;
     obj_p v, res;
 
     ctx = (ipc_ctx_p)selector->data;
+    msgtype = ctx->msgtype;
     res = (obj_p)data;
 
+    // A response nobody waits for anymore
+    if (msgtype == MSG_TYPE_RESP) {
+        if (ctx->stale > 0)
+            ctx->stale--;
+        drop_obj(res);
+        return option_some(NULL);
+    }
+
     poll_set_usr_fd(selector->id);
     v = ipc_process_msg(poll, selector, res);
     poll_set_usr_fd(0);
 
-    // Send a response if the message is a synchronous request
-    if (ctx->msgtype == MSG_TYPE_SYNC)
+    // Send a response if the message is a synchronous request (and the connection is still open)
+    if (msgtype == MSG_TYPE_SYNC && selector->fd != -1)
         ipc_send_msg(poll, selector, v, MSG_TYPE_RESP);
 
     drop_obj(v);
@@ -479,6 +514,7 @@ nil_t ipc_on_close(poll_p poll, selector_p selector) {
     if (ctx != NULL) {
         drop_obj(ctx->name);
         heap_free(ctx);
+        selector->data = NULL;
     }
 }
 
@@ -506,32 +542,35 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
     ctx = (ipc_ctx_p)selector->data;
     ipc_send_msg(poll, selector, msg, msgtype);
 
-    res = NULL_OBJ;
+    if (msgtype != MSG_TYPE_SYNC)
+        return NULL_OBJ;
 
     // wait for the response
-    if (msgtype == MSG_TYPE_SYNC) {
-        do {
-            LOG_DEBUG("Waiting for response from connection %lld", selector->id);
-            result = poll_block_on(poll, selector);
-            LOG_DEBUG("Response received from connection %lld RESULT: %s", selector->id,
-                      option_is_some(&result) ? "some" : "none");
-            if (option_is_some(&result) && result.value != NULL) {
-                res = option_take(&result);
-                // If the message is a response, break the loop
-                if (ctx->msgtype == MSG_TYPE_RESP)
-                    break;
-
-                // Process the request otherwise
-                res = ipc_process_msg(poll, selector, res);
-                drop_obj(res);
-            } else if (option_is_error(&result)) {
-                LOG_ERROR("Error occurred on connection %lld", selector->id);
-                return option_take(&result);
-            }
-        } while (option_is_none(&result));
-    }
+    while (B8_TRUE) {
+        LOG_DEBUG("Waiting for response from connection %lld", selector->id);
+        result = poll_block_on(poll, selector);
+
+        if (!option_is_some(&result)) {
+            LOG_ERROR("Error occurred on connection %lld", selector->id);
+            // The response may still come later
+            if (selector->fd != -1)
+                ctx->stale++;
+            return option_is_error(&result) ? option_take(&result) : err_os();
+        }
 
-    return res;
+        res = option_take(&result);
+
+        // If the message is the response, return it
+        if (ctx->msgtype == MSG_TYPE_RESP && ctx->stale == 0)
+            return res;
+
+        // Process the message otherwise
+        ipc_on_data(poll, selector, res);
+
+        // Closed while processing
+        if (selector->fd == -1)
+            return err_os();
+    }
 }
 
 #endif  // !OS_WINDOWS
diff --git a/core/ipc.h b/core/ipc.h
index 04bca0f..9ae5004 100644
--- a/core/ipc.h
+++ b/core/ipc.h
@@ -32,8 +32,11 @@
 #define MSG_TYPE_SYNC 1
 #define MSG_TYPE_RESP 2
 
+#define IPC_MAX_MSG_SIZE (1ll << 40)
+
 typedef struct ipc_ctx_t {
     u8_t msgtype;
+    i64_t stale;  // responses nobody waits for anymore (to be skipped)
     obj_p name;
 } *ipc_ctx_p;
 
diff --git a/core/poll.c b/core/poll.c
index 0e5d6cf..d295cfb 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -128,11 +128,12 @@ i64_t poll_rx_buf_reset(poll_p poll, selector_p selector) {
 }
 
 i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf) {
+    poll_buffer_p *tail;
+
     // Attach the buffer to the end of the list
-    if (selector->tx.buf != NULL)
-        selector->tx.buf->next = buf;
-    else
-        selector->tx.buf = buf;
+    for (tail = &selector->tx.buf; *tail != NULL; tail = &(*tail)->next)
+        ;
+    *tail = buf;
 
     return poll_send(poll, selector);
 }
diff --git a/core/poll.h b/core/poll.h
index f553692..8a5cd43 100644
--- a/core/poll.h
+++ b/core/poll.h
@@ -189,6 +189,7 @@ typedef enum poll_events_t {
 typedef struct selector_t {
     i64_t fd;  // socket fd
     i64_t id;  // selector id
+    struct selector_t *next;  // next deregistered selector waiting to be freed
     selector_type_t type;
     poll_events_t interest;
 
@@ -215,6 +216,7 @@ typedef struct poll_t {
     i64_t fd;              // file descriptor of the poll
     i64_t code;            // exit code
     freelist_p selectors;  // freelist of selectors
+    selector_p closed;     // deregistered selectors (fd is -1), may still be referenced by callbacks or events
     timers_p timers;       // timers heap
 } *poll_p;
 
diff --git a/core/sock.c b/core/sock.c
index b6bf056..8ffee5d 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -388,8 +388,10 @@ i64_t sock_accept(i64_t fd) {
         LOG_ERROR("Failed to accept connection: %s", strerror(errno));
         return -1;
     }
-    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1)
+    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1) {
+        close(acc_fd);
         return -1;
+    }
 
     linger_opt.l_onoff = 1;   // Enable SO_LINGER
     linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
-- 
2.43.0


From cac237d58b65255cdb8e9df8c9487047ceaae9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 16/51] fix: memory errors in builtins applied to unusual
 arguments

in on non-collections recursed without end; find on wide I32 ranges wrote
past its hash table; table, split, except, remove, take, concat of dicts,
xrank, rank, unify, diverse, guid, sort and select mishandled or leaked
arguments they have to reject.
---
 core/compose.c | 76 +++++++++++++++++++++++++++++++++++++-------------
 core/index.c   |  2 +-
 core/items.c   | 17 +++++++----
 core/order.c   | 10 +++++++
 core/query.c   | 11 +++++---
 core/sort.c    | 18 +++++++++---
 core/update.c  |  4 ++-
 7 files changed, 103 insertions(+), 35 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index a2fed1b..58025bf 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -224,7 +224,7 @@ obj_p ray_dict(obj_p x, obj_p y) {
 
 obj_p ray_table(obj_p x, obj_p y) {
     b8_t synergy = B8_TRUE;
-    i64_t i, j, len, cl = 0;
+    i64_t i, j, len, cl = NULL_I64;
     obj_p lst, c, l = NULL_OBJ;
 
     if (x->type != TYPE_SYMBOL)
@@ -279,39 +279,50 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_LIST:
             case TYPE_GUID:
                 j = AS_LIST(y)[i]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_ENUM:
                 synergy = B8_FALSE;
                 j = AS_LIST(AS_LIST(y)[i])[1]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_MAPCOMMON:
                 j = AS_LIST(AS_LIST(y)[i])[0]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
                 break;
-            default:
-                return err_type(TYPE_LIST, AS_LIST(y)[i]->type, 0, 0);
+            default: {
+                i8_t actual = AS_LIST(y)[i]->type;
+                drop_obj(l);
+                return err_type(TYPE_LIST, actual, 0, 0);
+            }
         }
     }
 
     // there are no atoms, no lazytypes and all columns are of the same length
     if (synergy) {
+        lst = clone_obj(y);
         drop_obj(l);
-        return table(clone_obj(x), clone_obj(y));
+        return table(clone_obj(x), lst);
     }
 
     // otherwise we need to expand atoms to vectors
     lst = vector(TYPE_LIST, len);
 
-    if (cl == 0)
+    // no columns to take a length from
+    if (cl == NULL_I64)
         cl = 1;
 
     for (i = 0; i < len; i++) {
@@ -356,7 +367,13 @@ obj_p ray_guid(obj_p x) {
     switch (x->type) {
         case -TYPE_I64:
             count = x->i64;
+            if (count < 0)
+                return err_length(0, count, 0, 0, 0, 0);
+
             vec = GUID(count);
+            if (IS_ERR(vec))
+                return vec;
+
             g = AS_GUID(vec);
 
             for (i = 0; i < count; i++)
@@ -732,6 +749,9 @@ obj_p ray_concat(obj_p x, obj_p y) {
 
         case MTYPE2(TYPE_DICT, TYPE_DICT):
             kxy = ray_sect(AS_LIST(x)[0], AS_LIST(y)[0]);
+            if (IS_ERR(kxy))
+                return kxy;
+
             dx = ray_except(AS_LIST(x)[0], kxy);
             dy = ray_except(AS_LIST(y)[0], kxy);
 
@@ -740,7 +760,7 @@ obj_p ray_concat(obj_p x, obj_p y) {
             // add items in x that are not in y
             ix = ray_find(AS_LIST(x)[0], dx);
             for (i = 0; i < (i64_t)dx->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(x)[1])[AS_I64(ix)[i]]);
+                AS_LIST(vec)[AS_I64(ix)[i]] = at_idx(AS_LIST(x)[1], AS_I64(ix)[i]);
             }
             drop_obj(ix);
 
@@ -748,7 +768,7 @@ obj_p ray_concat(obj_p x, obj_p y) {
             ix = ray_find(AS_LIST(x)[0], kxy);
             iy = ray_find(AS_LIST(y)[0], kxy);
             for (i = 0; i < (i64_t)kxy->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+                AS_LIST(vec)[AS_I64(ix)[i]] = at_idx(AS_LIST(y)[1], AS_I64(iy)[i]);
             }
             drop_obj(ix);
             drop_obj(iy);
@@ -756,7 +776,7 @@ obj_p ray_concat(obj_p x, obj_p y) {
             // add items in y that are not in x
             iy = ray_find(AS_LIST(y)[0], dy);
             for (i = 0; i < (i64_t)dy->len; i++) {
-                AS_LIST(vec)[i + dx->len + kxy->len] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+                AS_LIST(vec)[i + dx->len + kxy->len] = at_idx(AS_LIST(y)[1], AS_I64(iy)[i]);
             }
             drop_obj(iy);
 
@@ -831,17 +851,33 @@ obj_p ray_concat(obj_p x, obj_p y) {
 }
 
 obj_p ray_remove(obj_p x, obj_p y) {
-    obj_p r;
+    i64_t i;
+    obj_p r, v;
+
     switch (y->type) {
         case -TYPE_I32:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i32);
+            i = y->i32;
+            break;
         case -TYPE_I64:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i64);
+            i = y->i64;
+            break;
         default:
             return err_type(-TYPE_I64, y->type, 0, 0);
     }
+
+    if (!IS_VECTOR(x))
+        return err_type(TYPE_LIST, x->type, 0, 0);
+
+    // the argument belongs to the caller
+    r = copy_obj(x);
+    if (IS_ERR(r))
+        return r;
+
+    v = remove_idx(&r, i);
+    if (IS_ERR(v))
+        drop_obj(r);
+
+    return v;
 }
 
 obj_p ray_distinct(obj_p x) {
@@ -1093,14 +1129,14 @@ obj_p ray_group(obj_p x) {
 obj_p ray_diverse(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return diverse_obj(&res);
 }
 
 obj_p ray_unify(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return unify_list(&res);
 }
 
@@ -1218,8 +1254,7 @@ obj_p ray_row(obj_p x) {
 
 #define CUT_VECTOR(x, xt, y, yt)                                                                       \
     ({                                                                                                 \
-        i64_t $i, $j, $xl, $yl;                                                                        \
-        yt##_t $id, $last_id;                                                                          \
+        i64_t $i, $j, $xl, $yl, $id, $last_id;                                                         \
         obj_p $v, $res;                                                                                \
         $xl = x->len;                                                                                  \
         $yl = y->len;                                                                                  \
@@ -1229,6 +1264,7 @@ obj_p ray_row(obj_p x) {
         $res = LIST($yl);                                                                              \
         $last_id = __AS_##yt(y)[0];                                                                    \
         if ($last_id < 0 || $last_id >= $xl) {                                                         \
+            $res->len = 0;                                                                             \
             drop_obj($res);                                                                            \
             return err_index($last_id, $xl, 0, 0);                                                           \
         }                                                                                              \
diff --git a/core/index.c b/core/index.c
index 9ebb8f1..3f57748 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1516,7 +1516,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    dict = ht_oa_create(xl, TYPE_I32);
+    dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
         val = ht_oa_tab_next(&dict, (i64_t)x[i]);
diff --git a/core/items.c b/core/items.c
index 5635d04..0e45fcd 100644
--- a/core/items.c
+++ b/core/items.c
@@ -428,6 +428,10 @@ obj_p ray_take(obj_p from, obj_p count) {
                 return err_type(-TYPE_I64, count->type, 0, 0);
         }
 
+        if (m < 0 || (count->type == -TYPE_I32 && count->i32 == NULL_I32) ||
+            (count->type == -TYPE_I16 && count->i16 == NULL_I16))
+            return err_value(0);
+
         // there is nothing to repeat in an empty collection: take its empty range
         if (from->type >= 0 && from->type != TYPE_TABLE && ops_count(from) == 0)
             is_range = 1;
@@ -837,13 +841,13 @@ obj_p ray_in(obj_p x, obj_p y) {
                 return vec;
             }
 
-            if (IS_VECTOR(x) || !IS_VECTOR(y))
+            if ((IS_VECTOR(x) && x->type != TYPE_ENUM) || x->type == TYPE_MAPLIST)
                 return map_binary_left_fn(ray_in, 0, x, y);
 
-            if (!IS_VECTOR(x))
+            if (!IS_VECTOR(x) && IS_VECTOR(y))
                 return b8(find_obj_idx(y, x) != NULL_I64);
 
-            return err_type(TYPE_LIST, x->type, 0, 0);
+            return err_type(TYPE_LIST, IS_VECTOR(x) ? x->type : y->type, 0, 0);
     }
 
     return NULL_OBJ;
@@ -1001,12 +1005,12 @@ obj_p ray_except(obj_p x, obj_p y) {
                         mask = ray_eq(AS_LIST(x)[i], y);
 
                         if (IS_ERR(mask)) {
-                            res->len = i;
+                            res->len = j;
                             drop_obj(res);
                             return mask;
                         }
 
-                        if (!mask->b8)
+                        if (mask->type != -TYPE_B8 || !mask->b8)
                             AS_LIST(res)[j++] = clone_obj(AS_LIST(x)[i]);
 
                         drop_obj(mask);
@@ -1027,6 +1031,9 @@ obj_p ray_union(obj_p x, obj_p y) {
     obj_p c, res;
 
     c = ray_concat(x, y);
+    if (IS_ERR(c))
+        return c;
+
     res = ray_distinct(c);
     drop_obj(c);
     return res;
diff --git a/core/order.c b/core/order.c
index 36d6ad0..4ecfabc 100644
--- a/core/order.c
+++ b/core/order.c
@@ -537,6 +537,10 @@ obj_p ray_rank(obj_p x) {
         return res;
     }
 
+    // Rank of a dictionary is the rank of its values
+    if (x->type == TYPE_DICT)
+        return ray_rank(AS_LIST(x)[1]);
+
     perm = ray_iasc(x);
     if (IS_ERR(perm))
         return perm;
@@ -618,6 +622,12 @@ obj_p ray_xrank(obj_p y, obj_p x) {
     if (n_buckets <= 0)
         return err_domain(0, 0);
 
+    if (y->type == TYPE_DICT)
+        return ray_xrank(AS_LIST(y)[1], x);
+
+    if (!IS_VECTOR(y))
+        return err_type(TYPE_LIST, y->type, 0, 0);
+
     l = y->len;
     res = I64(l);
     if (IS_ERR(res))
diff --git a/core/query.c b/core/query.c
index 6a36c02..ef1aa97 100644
--- a/core/query.c
+++ b/core/query.c
@@ -273,8 +273,10 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
 
     prm = at_sym(obj, "from", 4);
 
-    if (is_null(prm))
+    if (is_null(prm)) {
+        drop_obj(prm);
         return err_value(symbols_intern("from", 4));
+    }
 
     val = eval(prm);
     drop_obj(prm);
@@ -301,7 +303,8 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
             return val;
 
         ctx->take = val;
-    }
+    } else
+        drop_obj(prm);
 
     timeit_tick("fetch table");
 
@@ -608,14 +611,14 @@ obj_p ray_select(obj_p obj) {
     obj_p res;
     struct query_ctx_t ctx;
 
-    query_ctx_init(&ctx);
-
     if (obj->type != TYPE_DICT)
         return err_type(0, 0, 0, 0);
 
     if (AS_LIST(obj)[0]->type != TYPE_SYMBOL)
         return err_type(0, 0, 0, 0);
 
+    query_ctx_init(&ctx);
+
     timeit_span_start("select");
 
     // Fetch table - ctx.table is set, resolve() will find columns via query_ctx
diff --git a/core/sort.c b/core/sort.c
index 4fe05e0..1e07385 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -429,7 +429,7 @@ obj_p ray_sort_asc_f64(obj_p vec) {
 
 obj_p ray_sort_asc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, res;
 
     if (len == 0)
         return I64(0);
@@ -473,7 +473,12 @@ obj_p ray_sort_asc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, 1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_asc(AS_LIST(vec)[1]));
+            indices = ray_sort_asc(AS_LIST(vec)[1]);
+            if (IS_ERR(indices))
+                return indices;
+            res = at_obj(AS_LIST(vec)[0], indices);
+            drop_obj(indices);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -691,7 +696,7 @@ obj_p ray_sort_desc_f64(obj_p vec) {
 
 obj_p ray_sort_desc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, res;
 
     if (len == 0)
         return I64(0);
@@ -735,7 +740,12 @@ obj_p ray_sort_desc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, -1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_desc(AS_LIST(vec)[1]));
+            indices = ray_sort_desc(AS_LIST(vec)[1]);
+            if (IS_ERR(indices))
+                return indices;
+            res = at_obj(AS_LIST(vec)[0], indices);
+            drop_obj(indices);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
diff --git a/core/update.c b/core/update.c
index 4faccdd..50af3b5 100644
--- a/core/update.c
+++ b/core/update.c
@@ -950,8 +950,10 @@ obj_p ray_update(obj_p obj) {
     // Retrive a table
     tabsym = at_sym(obj, "from", 4);
 
-    if (is_null(tabsym))
+    if (is_null(tabsym)) {
+        drop_obj(tabsym);
         return err_length(0, 0, 0, 0, 0, 0);
+    }
 
     tab = eval(tabsym);
     if (IS_ERR(tab)) {
-- 
2.43.0


From f56426230713447738b03690b6532cdf97547345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 17/51] fix: fold, scan and map leave values behind or read
 past their arguments

---
 core/iter.c | 96 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 2630c6f..b6cbaed 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -428,13 +428,23 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
     if (l == NULL_I64)
         return err_arity(1, n, 0);
 
+    if (l == 0)
+        return LIST(0);
+
+    if (!vm_stack_enough(n))
+        return err_limit(VM_STACK_SIZE);
+
     for (j = 0; j < n; j++)
         vm_stack_push(at_idx(x[j], 0));
 
-    v = fn(x + n, n);
+    v = (attrs & FN_ATOMIC) ? map_vary_fn(fn, attrs, vm_stack_peek(n - 1), n) : fn(vm_stack_peek(n - 1), n);
+
+    // cleanup stack
+    for (j = 0; j < n; j++)
+        drop_obj(vm_stack_pop());
 
     if (IS_ERR(v))
-        res = v;
+        return v;
 
     res = v->type < 0 ? vector(v->type, l) : LIST(l);
 
@@ -444,7 +454,7 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
         for (j = 0; j < n; j++)
             vm_stack_push(at_idx(x[j], i));
 
-        v = (attrs & FN_ATOMIC) ? map_vary_fn(fn, attrs, x + n, n) : fn(x + n, n);
+        v = (attrs & FN_ATOMIC) ? map_vary_fn(fn, attrs, vm_stack_peek(n - 1), n) : fn(vm_stack_peek(n - 1), n);
 
         // cleanup stack
         for (j = 0; j < n; j++)
@@ -582,6 +592,11 @@ obj_p pmap_lambda(obj_p f, obj_p *x, i64_t n) {
     return concat_parts(parts);
 }
 
+// Result of mapping over nothing
+static obj_p empty_of(obj_p x) {
+    return (IS_VECTOR(x) && x->type != TYPE_ENUM) ? vector(x->type, 0) : LIST(0);
+}
+
 obj_p ray_map(obj_p *x, i64_t n) {
     i64_t l;
     obj_p f;
@@ -613,7 +628,7 @@ obj_p ray_map(obj_p *x, i64_t n) {
                 return err_length(0, 0, 0, 0, 0, 0);  // ranks don't match
 
             if (l < 1)
-                return vector(x[0]->type, 0);
+                return empty_of(x[0]);
 
             return map_lambda(f, x, n);
 
@@ -653,7 +668,7 @@ obj_p ray_pmap(obj_p *x, i64_t n) {
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (l < 1)
-                return vector(x[0]->type, 0);
+                return empty_of(x[0]);
 
             return pmap_lambda(f, x, n);
 
@@ -700,7 +715,7 @@ obj_p ray_map_left(obj_p *x, i64_t n) {
 
             l = ops_count(x[0]);
             if (l < 1)
-                return vector(x[0]->type, 0);
+                return empty_of(x[0]);
 
             // first item to get type of res
             vm_stack_push(at_idx(x[0], 0));
@@ -787,7 +802,7 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
 
             l = ops_count(x[n - 1]);
             if (l < 1)
-                return vector(x[n - 1]->type, 0);
+                return empty_of(x[n - 1]);
 
             // first item to get type of res
             for (j = 0; j < n - 1; j++) {
@@ -837,7 +852,7 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
 
 obj_p ray_fold(obj_p *x, i64_t n) {
     i64_t i, j, l;
-    obj_p f, v, x1, x2;
+    obj_p f, v, x1, x2, acc;
     i8_t xt, yt;
 
     if (n < 2)
@@ -881,12 +896,11 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    acc = v;
+                    v = binary_call(f, acc, x2);  // Use accumulated value as first argument
+                    drop_obj(acc);
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
                     if (yt != TYPE_LIST)
                         drop_obj(x2);
 
@@ -910,7 +924,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, v, x1);  // Use accumulated value as first argument
+                    acc = v;
+                    v = binary_call(f, acc, x1);  // Use accumulated value as first argument
+                    drop_obj(acc);
                     if (xt != TYPE_LIST)
                         drop_obj(x1);
 
@@ -934,7 +950,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    acc = v;
+                    v = binary_call(f, acc, x2);  // Use accumulated value as first argument
+                    drop_obj(acc);
                     if (yt != TYPE_LIST)
                         drop_obj(x2);
 
@@ -955,10 +973,13 @@ obj_p ray_fold(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
+            if (l == 0)
+                return LIST(0);
+
             for (i = 0; i < n; i++)
                 vm_stack_push(at_idx(x[i], 0));
 
-            v = vary_call(f, x, n);
+            v = vary_call(f, vm_stack_peek(n - 1), n);
 
             // cleanup stack
             for (i = 0; i < n; i++)
@@ -968,10 +989,12 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 return v;
 
             for (i = 1; i < l; i++) {
+                drop_obj(v);
+
                 for (j = 0; j < n; j++)
                     vm_stack_push(at_idx(x[j], i));
 
-                v = vary_call(f, x, n);
+                v = vary_call(f, vm_stack_peek(n - 1), n);
 
                 // cleanup stack
                 for (j = 0; j < n; j++)
@@ -987,7 +1010,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            if (n != 1 && n != AS_LAMBDA(f)->args->len)
+            if (AS_LAMBDA(f)->args->len != (n == 1 ? 2 : n))
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
@@ -998,7 +1021,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[0], i);
                     vm_stack_push(x2);
 
@@ -1020,7 +1043,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[1], i);
                     vm_stack_push(x2);
 
@@ -1067,23 +1090,11 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
 
             v = clone_obj(x[1]);  // Use rightmost argument as initial value
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
-                x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                x1 = at_idx(x[0], i);  // Current element from the leftmost argument
+                x2 = v;                // Result of previous iteration
+                v = binary_call(f, x1, x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1106,7 +1117,7 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
                 x1 = at_idx(x[0], i);
                 vm_stack_push(x1);
                 // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
+                x2 = v;
                 vm_stack_push(x2);
                 // Push all other arguments in between
                 for (j = 1; j < n - 1; j++) {
@@ -1365,10 +1376,13 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
+            if (l == 0)
+                return LIST(0);
+
             for (i = 0; i < n; i++)
                 vm_stack_push(at_idx(x[i], 0));
 
-            v = vary_call(f, x, n);
+            v = vary_call(f, vm_stack_peek(n - 1), n);
 
             // cleanup stack
             for (i = 0; i < n; i++)
@@ -1384,7 +1398,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 for (j = 0; j < n; j++)
                     vm_stack_push(at_idx(x[j], i));
 
-                v = vary_call(f, x, n);
+                v = vary_call(f, vm_stack_peek(n - 1), n);
 
                 // cleanup stack
                 for (j = 0; j < n; j++)
@@ -1407,7 +1421,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            if (n != 1 && n != AS_LAMBDA(f)->args->len)
+            if (AS_LAMBDA(f)->args->len != (n == 1 ? 2 : n))
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
@@ -1645,7 +1659,7 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
                 x2 = clone_obj(v);
                 vm_stack_push(x2);
                 // Push all other arguments in between
-                for (j = 0; j < n - 1; j++) {
+                for (j = 1; j < n - 1; j++) {
                     vm_stack_push(clone_obj(x[j]));
                 }
 
-- 
2.43.0


From 783ef280b27ae91429f6cea627f3c386c6d83b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 18/51] fix: calls of lambdas

let-bound locals belong to the call, not to the lambda: a recursive call
overwrote the locals of its caller. Calls from compiled code check the number
of arguments, keep the called lambda alive, check the stack, and large bodies
no longer truncate operands. do and return behave in compiled code as
documented, arguments are dropped when a later one fails, and raise delivers
its message.
---
 core/cc.c   | 128 +++++++++++++-------
 core/cc.h   |   4 +-
 core/eval.c | 339 ++++++++++++++++++++++++++++------------------------
 core/eval.h |  20 ++--
 4 files changed, 287 insertions(+), 204 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 460d1ed..8f6c740 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -82,17 +82,17 @@ span_t bc_dbg_get(obj_p dbg, i64_t ip) {
 }
 
 // clang-format off
-#define OP(ctx, op) (AS_U8((ctx)->bc)[(ctx)->ip++] = (u8_t)(op))
+#define OP(ctx, op) cc_emit((ctx), (u8_t)(op))
 #define CE(f)       { if ((f) == -1) return -1; }
 
-// Load constant from consts pool by offset (no name, pure value)
-#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); OP(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
+// Operands are 16 bit wide
+#define OPERAND(ctx, val) ({ i64_t _v = (val); OP(ctx, _v); OP(ctx, _v >> 8); if (_v > MAX_OPERAND) (ctx)->limit = B8_TRUE; })
 
-// Load from env by offset (args + let-bound locals, resolvable by name)
-#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); OP(ctx, (offset)); })
+// Load constant from consts pool by offset (no name, pure value)
+#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); OPERAND(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
 
-// Store to env by offset (for let bindings)
-#define STOREENV(ctx, offset) ({ OP(ctx, OP_STOREENV); OP(ctx, (offset)); })
+// Load argument by offset
+#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); OPERAND(ctx, (offset)); })
 
 // Record debug info: map bytecode offset to span from AST node
 #define DBG(ctx, expr) do { \
@@ -105,6 +105,23 @@ span_t bc_dbg_get(obj_p dbg, i64_t ip) {
 } while(0)
 // clang-format on
 
+static nil_t cc_emit(cc_ctx_t *cc, u8_t op) {
+    if (cc->ip == cc->bc->len)
+        resize_obj(&cc->bc, 2 * cc->bc->len);
+
+    AS_U8(cc->bc)[cc->ip++] = op;
+}
+
+// Fill in the operand of a forward jump to the current position
+static nil_t cc_patch_jump(cc_ctx_t *cc, i64_t pos) {
+    i64_t off = cc->ip - pos - 2;
+
+    AS_U8(cc->bc)[pos] = (u8_t)off;
+    AS_U8(cc->bc)[pos + 1] = (u8_t)(off >> 8);
+    if (off > MAX_OPERAND)
+        cc->limit = B8_TRUE;
+}
+
 // Find symbol in env_names (args), return offset or -1 if not found
 static i64_t cc_find_env(cc_ctx_t *cc, i64_t sym) {
     i64_t i, n;
@@ -124,6 +141,7 @@ static i64_t cc_find_env(cc_ctx_t *cc, i64_t sym) {
 }
 
 static i64_t cc_expr(cc_ctx_t *cc, obj_p e);
+static i64_t cc_body(cc_ctx_t *cc, obj_p *lst, i64_t n);
 
 // Check if the function is a special form that needs control flow handling
 static b8_t is_cond_fn(obj_p car) {
@@ -131,6 +149,10 @@ static b8_t is_cond_fn(obj_p car) {
     return car->type == TYPE_VARY && (vary_f)car->i64 == ray_cond;
 }
 
+static b8_t is_do_fn(obj_p car) { return car->type == TYPE_VARY && (vary_f)car->i64 == ray_do; }
+
+static b8_t is_return_fn(obj_p car) { return car->type == TYPE_VARY && (vary_f)car->i64 == ray_return; }
+
 // Check if vary function is a special form that needs unevaluated arguments
 // Excludes control-flow forms (if, and, or) which need special compilation
 // Note: try is TYPE_BINARY, handled by is_binary_special_form
@@ -150,18 +172,13 @@ static b8_t is_vary_special_form(obj_p fn) {
 static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     i64_t j1, j2;
 
-    if (n < 2 || n > 3) {
-        LOADCONST(cc, NULL_OBJ);
-        return 0;
-    }
-
     // compile condition
     CE(cc_expr(cc, lst[0]));
 
     // jump if false to else branch
     OP(cc, OP_JMPF);
     j1 = cc->ip;
-    OP(cc, 0);
+    OPERAND(cc, 0);
 
     // compile then branch
     CE(cc_expr(cc, lst[1]));
@@ -169,10 +186,10 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     // jump over else branch
     OP(cc, OP_JMP);
     j2 = cc->ip;
-    OP(cc, 0);
+    OPERAND(cc, 0);
 
     // patch jmpf offset
-    AS_U8(cc->bc)[j1] = (u8_t)(cc->ip - j1 - 1);
+    cc_patch_jump(cc, j1);
 
     // compile else branch (or null)
     if (n == 3) {
@@ -182,7 +199,7 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     }
 
     // patch jmp offset
-    AS_U8(cc->bc)[j2] = (u8_t)(cc->ip - j2 - 1);
+    cc_patch_jump(cc, j2);
 
     return 0;
 }
@@ -213,10 +230,30 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     n--;
 
     // Handle special form 'cond'/'if'
-    if (is_cond_fn(car)) {
+    if (is_cond_fn(car) && n >= 2 && n <= 3) {
         return cc_cond(cc, lst, n);
     }
 
+    // Handle sequence: values of all expressions but the last are dropped
+    if (is_do_fn(car)) {
+        if (n == 0)
+            LOADCONST(cc, NULL_OBJ);
+        return cc_body(cc, lst, n);
+    }
+
+    // Handle early return
+    if (is_return_fn(car)) {
+        if (n == 0)
+            LOADCONST(cc, NULL_OBJ);
+        for (i = 0; i < n; ++i) {
+            CE(cc_expr(cc, lst[i]));
+            if (i > 0)
+                OP(cc, OP_POP);
+        }
+        OP(cc, OP_RET);
+        return 0;
+    }
+
     // Handle vary special forms that need unevaluated arguments (e.g. timeit)
     if (is_vary_special_form(car)) {
         // Push all arguments as constants (no evaluation)
@@ -226,7 +263,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         DBG(cc, expr);
         LOADCONST(cc, clone_obj(car));
         OP(cc, OP_CALLN);
-        OP(cc, n);
+        OPERAND(cc, n);
         return 0;
     }
 
@@ -267,39 +304,48 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     // Now emit call instruction based on function type
     switch (car->type) {
         case TYPE_UNARY:
-            if (n != 1)
-                return -1;
             LOADCONST(cc, clone_obj(car));
-            OP(cc, OP_CALL1);
+            if (n == 1)
+                OP(cc, OP_CALL1);
+            else {
+                // reports the arity error when it is reached
+                OP(cc, OP_CALLD);
+                OPERAND(cc, n);
+            }
             break;
 
         case TYPE_BINARY:
-            if (n != 2)
-                return -1;
             LOADCONST(cc, clone_obj(car));
-            OP(cc, OP_CALL2);
+            if (n == 2)
+                OP(cc, OP_CALL2);
+            else {
+                OP(cc, OP_CALLD);
+                OPERAND(cc, n);
+            }
             break;
 
         case TYPE_VARY:
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLN);
-            OP(cc, n);
+            OPERAND(cc, n);
             break;
 
         case TYPE_LAMBDA:
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLF);
+            OPERAND(cc, n);
             break;
 
         case -TYPE_SYMBOL:
             if (car->i64 == SYMBOL_SELF) {
                 // Self-recursive call
                 OP(cc, OP_CALLS);
+                OPERAND(cc, n);
             } else {
                 // Dynamic call - need to resolve symbol at runtime
                 CE(cc_expr(cc, car));
                 OP(cc, OP_CALLD);
-                OP(cc, n);
+                OPERAND(cc, n);
             }
             break;
 
@@ -307,7 +353,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
             // For other types, try to evaluate at runtime
             CE(cc_expr(cc, car));
             OP(cc, OP_CALLD);
-            OP(cc, n);
+            OPERAND(cc, n);
             break;
     }
 
@@ -385,6 +431,9 @@ static obj_p cc_fn(cc_ctx_t *cc, obj_p *lst, i64_t n) {
 end:
     OP(cc, OP_RET);
 
+    if (cc->limit)
+        return err_limit(MAX_OPERAND);
+
     // Resize bytecode to actual size
     resize_obj(&cc->bc, cc->ip);
 
@@ -409,6 +458,7 @@ obj_p cc_compile(obj_p lambda) {
         .dbg = I64(0),   // Debug info: pairs of (bytecode offset, span.id)
         .nfo = fn->nfo,  // Source nfo from parser
         .lp = 0,
+        .limit = B8_FALSE,
         .cur_expr = NULL_OBJ,    // Current expression being compiled
         .env_names = SYMBOL(0),  // Env layout: symbol names by offset
     };
@@ -479,7 +529,7 @@ nil_t cc_dump(obj_p lambda) {
     lambda_p fn = AS_LAMBDA(lambda);
     u8_t *bc;
     obj_p *consts;
-    i64_t n, i;
+    i64_t n, n2, i;
     obj_p fmt;
 
     if (fn->bc == NULL_OBJ) {
@@ -502,22 +552,20 @@ nil_t cc_dump(obj_p lambda) {
                 printf("RET\n");
                 break;
             case OP_JMP:
-                printf("JMP +%d\n", bc[++i]);
+                printf("JMP +%d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_JMPF:
-                printf("JMPF +%d\n", bc[++i]);
+                printf("JMPF +%d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             // Data operations
             case OP_LOADCONST:
-                fmt = obj_fmt(consts[bc[++i]], B8_FALSE);
-                printf("LOADCONST %lld (%.*s)\n", (i64_t)bc[i], (i32_t)fmt->len, AS_C8(fmt));
+                n2 = (i += 2, bc[i - 1] | (bc[i] << 8));
+                fmt = obj_fmt(consts[n2], B8_FALSE);
+                printf("LOADCONST %lld (%.*s)\n", n2, (i32_t)fmt->len, AS_C8(fmt));
                 drop_obj(fmt);
                 break;
             case OP_LOADENV:
-                printf("LOADENV %d\n", bc[++i]);
-                break;
-            case OP_STOREENV:
-                printf("STOREENV %d\n", bc[++i]);
+                printf("LOADENV %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_POP:
                 printf("POP\n");
@@ -534,16 +582,16 @@ nil_t cc_dump(obj_p lambda) {
                 printf("CALL2\n");
                 break;
             case OP_CALLN:
-                printf("CALLN %d\n", bc[++i]);
+                printf("CALLN %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_CALLF:
-                printf("CALLF\n");
+                printf("CALLF %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_CALLS:
-                printf("CALLS\n");
+                printf("CALLS %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_CALLD:
-                printf("CALLD %d\n", bc[++i]);
+                printf("CALLD %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             default:
                 printf("??? %d\n", bc[i]);
diff --git a/core/cc.h b/core/cc.h
index 5d225a7..ffd8136 100644
--- a/core/cc.h
+++ b/core/cc.h
@@ -28,7 +28,8 @@
 #include "lambda.h"
 #include "nfo.h"
 
-#define BC_SIZE 256
+#define BC_SIZE 256        // initial size of the bytecode buffer
+#define MAX_OPERAND 65535  // operands are 16 bit wide
 
 // Compiler context
 typedef struct cc_ctx_t {
@@ -40,6 +41,7 @@ typedef struct cc_ctx_t {
     obj_p dbg;        // debug info: maps bytecode offset -> span (I64 pairs)
     obj_p nfo;        // source nfo from parser (for span lookups)
     i64_t lp;         // locals pointer - unused
+    b8_t limit;       // an operand does not fit
     obj_p cur_expr;   // current expression being compiled (for error reporting)
     obj_p env_names;  // env layout: SYMBOL vector mapping offset -> name
                       // at runtime: index i -> symbol name for resolve()
diff --git a/core/eval.c b/core/eval.c
index 54e7cae..2e33fe4 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -47,6 +47,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     vm->fp = 0;
     vm->rp = 0;
     vm->fn = NULL_OBJ;
+    vm->env = NULL_OBJ;
     vm->id = id;
     vm->pool = pool;
     // Cold fields
@@ -93,10 +94,9 @@ nil_t vm_destroy(vm_p vm) {
 
 // Helper: resolve symbol in a lambda's env (unified args + locals)
 // Returns pointer to value slot, or NULL if not found
-// - offset < nargs: return stack pointer at fp_offset + offset
-// - offset >= nargs: return env->values pointer
-static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
-    obj_p env;
+// - argument: return stack pointer at fp_offset + offset
+// - let-bound local: return env->values pointer
+static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     i64_t i, n;
     vm_p vm = VM;
 
@@ -114,7 +114,6 @@ static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
     }
 
     // Then check let-bound locals in env
-    env = AS_LAMBDA(fn)->env;
     if (env != NULL_OBJ && env->type == TYPE_DICT) {
         n = AS_LIST(env)[0]->len;
         for (i = 0; i < n; i++) {
@@ -143,14 +142,14 @@ obj_p *resolve(i64_t sym) {
         return &vm->fn;
 
     // Search in current lambda's env (args + let-bound locals)
-    result = resolve_in_env(fn, sym, vm->fp);
+    result = resolve_in_env(fn, vm->env, sym, vm->fp);
     if (result != NULL)
         return result;
 
     // Walk up return stack - check each parent lambda's env
     for (frame = vm->rp; frame > 0; frame--) {
         fn = vm->rs[frame - 1].fn;
-        result = resolve_in_env(fn, sym, vm->rs[frame - 1].fp);
+        result = resolve_in_env(fn, vm->rs[frame - 1].env, sym, vm->rs[frame - 1].fp);
         if (result != NULL)
             return result;
     }
@@ -175,18 +174,43 @@ obj_p *resolve(i64_t sym) {
     return &AS_LIST(AS_LIST(runtime_get()->env.variables)[1])[j];
 }
 
+// Resolve a name in function position: names bound to other names are followed
+static obj_p *resolve_fn(i64_t sym) {
+    i64_t i;
+    obj_p *val = NULL;
+
+    for (i = 0; i < VM_STACK_SIZE; i++) {
+        val = resolve(sym);
+        if (val == NULL || (*val)->type != -TYPE_SYMBOL)
+            return val;
+        sym = (*val)->i64;
+    }
+
+    return val;
+}
+
 obj_p amend(obj_p sym, obj_p val) {
-    obj_p *env_slot;
+    obj_p args;
+    i64_t i;
     vm_p vm = VM;
 
-    // Add to current lambda's env, or globals if at top level
+    // Add to the locals of the current call, or globals if at top level
     if (vm->fn != NULL_OBJ) {
-        env_slot = &AS_LAMBDA(vm->fn)->env;
-        if (*env_slot != NULL_OBJ)
-            set_obj(env_slot, sym, clone_obj(val));
+        // an argument is rebound in place
+        args = AS_LAMBDA(vm->fn)->args;
+        for (i = 0; args != NULL_OBJ && i < args->len; i++) {
+            if (AS_SYMBOL(args)[i] == sym->i64) {
+                drop_obj(vm->ps[vm->fp + i]);
+                vm->ps[vm->fp + i] = clone_obj(val);
+                return val;
+            }
+        }
+
+        if (vm->env != NULL_OBJ)
+            set_obj(&vm->env, sym, clone_obj(val));
         else {
-            *env_slot = dict(vector(TYPE_SYMBOL, 1), vn_list(1, clone_obj(val)));
-            AS_SYMBOL(AS_LIST(*env_slot)[0])[0] = sym->i64;
+            vm->env = dict(vector(TYPE_SYMBOL, 1), vn_list(1, clone_obj(val)));
+            AS_SYMBOL(AS_LIST(vm->env)[0])[0] = sym->i64;
         }
     } else {
         // Top level: add to globals
@@ -305,6 +329,17 @@ static inline obj_p unwrap(obj_p obj, i64_t id) {
     return obj;
 }
 
+// Leave a call made by bytecode: the frame owns the called function and its locals
+static inline nil_t vm_leave(vm_p vm) {
+    ctx_t *rs = &vm->rs[--vm->rp];
+
+    drop_obj(vm->fn);
+    drop_obj(vm->env);
+    vm->fn = rs->fn;
+    vm->env = rs->env;
+    vm->fp = rs->fp;
+}
+
 // Unwind return stack on error, adding trace frames for each caller
 static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
     ctx_t *rs;
@@ -316,9 +351,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
         }
         // Add caller's location to trace
         bc_error_add_loc(err, rs->fn, rs->ip - 1);
-        vm->rp--;
-        vm->fn = rs->fn;
-        vm->fp = rs->fp;
+        vm_leave(vm);
     }
     return err;
 }
@@ -349,18 +382,18 @@ __attribute__((hot)) obj_p vm_eval(obj_p fn) {
         &&OP_JMPF,       // 2
         &&OP_LOADCONST,  // 3: Data operations
         &&OP_LOADENV,    // 4
-        &&OP_STOREENV,   // 5
-        &&OP_POP,        // 6
-        &&OP_RESOLVE,    // 7: Symbol resolution
-        &&OP_CALL1,      // 8: Function calls
-        &&OP_CALL2,      // 9
-        &&OP_CALLN,      // 10
-        &&OP_CALLF,      // 11
-        &&OP_CALLS,      // 12
-        &&OP_CALLD,      // 13
+        &&OP_POP,        // 5
+        &&OP_RESOLVE,    // 6: Symbol resolution
+        &&OP_CALL1,      // 7: Function calls
+        &&OP_CALL2,      // 8
+        &&OP_CALLN,      // 9
+        &&OP_CALLF,      // 10
+        &&OP_CALLS,      // 11
+        &&OP_CALLD,      // 12
     };
 
 #define next() goto *OPS[bc[ip++]]
+#define operand() (ip += 2, (i64_t)bc[ip - 2] | ((i64_t)bc[ip - 1] << 8))
 #define push(v) (vm->ps[vm->sp++] = (v))
 #define pop() (vm->ps[--vm->sp])
 #define top(n) (&vm->ps[vm->sp - (n)])
@@ -375,16 +408,18 @@ OP_RET:
             // Return to external caller (call() function)
             // Don't clean up args - caller (lambda_call) handles that
             // Just return the result; leave args on stack for caller to pop
-            return pop();
+            r = pop();
+            n = vm->fp + AS_LAMBDA(vm->fn)->args->len;
+            while (vm->sp > n)
+                drop_obj(pop());
+            return r;
         }
         // Return from nested bytecode call
         r = pop();
         while (vm->sp > vm->fp)
             drop_obj(pop());
-        vm->rp--;
         ip = rs->ip;
-        vm->fp = rs->fp;
-        vm->fn = rs->fn;
+        vm_leave(vm);
         bc = AS_U8(AS_LAMBDA(vm->fn)->bc);
         consts = AS_LIST(AS_LAMBDA(vm->fn)->consts);
         // Add caller's location to trace if error is propagating
@@ -397,12 +432,12 @@ OP_RET:
     return pop();
 
 OP_JMP:
-    n = bc[ip++];
+    n = operand();
     ip += n;
     next();
 
 OP_JMPF:
-    n = bc[ip++];
+    n = operand();
     x = pop();
     if (!ops_as_b8(x))
         ip += n;
@@ -410,7 +445,10 @@ OP_JMPF:
     next();
 
 OP_LOADCONST:
-    push(clone_obj(consts[bc[ip++]]));
+    n = operand();
+    if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
+        goto overflow;
+    push(clone_obj(consts[n]));
     next();
 
 OP_POP:
@@ -461,7 +499,7 @@ OP_CALL2:
     next();
 
 OP_CALLN:
-    n = bc[ip++];  // arity
+    n = operand();  // arity
     r = pop();     // function
     l = top(n);
     res = vary_call(r, l, n);
@@ -477,6 +515,7 @@ OP_CALLN:
     next();
 
 OP_CALLF:
+    n = operand();  // arity
     x = pop();  // lambda function
     if (UNLIKELY(x->type != TYPE_LAMBDA)) {
         i8_t got = x->type;
@@ -495,45 +534,42 @@ callf:
             return vm_error_unwind(vm, r);
         }
     }
-    // Check for stack overflow
-    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
+    if (UNLIKELY(n != AS_LAMBDA(x)->args->len)) {
+        r = err_length(AS_LAMBDA(x)->args->len, n, 0, 0, 0, 0);
         drop_obj(x);
-        r = err_limit(VM_STACK_SIZE);
         bc_error_add_loc(r, vm->fn, ip - 1);
         return vm_error_unwind(vm, r);
     }
+    // Check for stack overflow
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
+        drop_obj(x);
+        goto overflow;
+    }
     // Save current context
     rs = &vm->rs[vm->rp++];
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
-    // Switch to new function
-    vm->fp = vm->sp - AS_LAMBDA(x)->args->len;
+    rs->env = vm->env;
+    // Switch to new function (the frame keeps it alive until it returns)
+    vm->fp = vm->sp - n;
     vm->fn = x;
+    vm->env = NULL_OBJ;
     bc = AS_U8(AS_LAMBDA(x)->bc);
     consts = AS_LIST(AS_LAMBDA(x)->consts);
     ip = 0;
-    drop_obj(x);  // Safe because it's on the constants pool
     next();
 
 OP_CALLS:
-    // Self-recursive call - check for stack overflow
-    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
-        r = err_limit(VM_STACK_SIZE);
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r);
-    }
-    rs = &vm->rs[vm->rp++];
-    rs->ip = ip;
-    rs->fp = vm->fp;
-    rs->fn = vm->fn;
-    vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
-    ip = 0;
-    next();
+    // Self-recursive call
+    n = operand();  // arity
+    x = clone_obj(vm->fn);
+    goto callf;
 
 OP_CALLD:
-    n = bc[ip++];  // arity
+    n = operand();  // arity
     x = pop();     // function (dynamically resolved)
+calld:
     switch (x->type) {
         case TYPE_UNARY:
             if (UNLIKELY(n != 1)) {
@@ -586,6 +622,18 @@ OP_CALLD:
             break;
         case TYPE_LAMBDA:
             goto callf;
+        case -TYPE_SYMBOL:
+            val = resolve_fn(x->i64);
+            if (UNLIKELY(val == NULL || (*val)->type == -TYPE_SYMBOL)) {
+                r = err_value(x->i64);
+                drop_obj(x);
+                bc_error_add_loc(r, vm->fn, ip - 1);
+                return vm_error_unwind(vm, r);
+            }
+            y = clone_obj(*val);
+            drop_obj(x);
+            x = y;
+            goto calld;
         default: {
             i8_t got = x->type;
             drop_obj(x);
@@ -597,73 +645,21 @@ OP_CALLD:
     next();
 
 OP_LOADENV:
-    // Load from env by offset
-    // - offset < nargs: load from stack (args passed on stack)
-    // - offset >= nargs: load from lambda->env values (let-bound locals)
-    n = bc[ip++];
-    {
-        i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
-        if (n < nargs) {
-            // Args are on stack at fp+offset
-            x = vm->ps[vm->fp + n];
-            push(clone_obj(x));
-        } else {
-            // Let-bound locals in env values
-            obj_p env = AS_LAMBDA(vm->fn)->env;
-            if (env != NULL_OBJ && env->type == TYPE_DICT) {
-                i64_t local_idx = n - nargs;
-                obj_p values = AS_LIST(env)[1];
-                if (local_idx < values->len) {
-                    push(clone_obj(AS_LIST(values)[local_idx]));
-                } else {
-                    // Local not yet defined - push null
-                    push(clone_obj(NULL_OBJ));
-                }
-            } else {
-                push(clone_obj(NULL_OBJ));
-            }
-        }
-    }
+    // Load argument by offset (args are on stack at fp + offset)
+    n = operand();
+    if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
+        goto overflow;
+    x = vm->ps[vm->fp + n];
+    push(clone_obj(x));
     next();
 
-OP_STOREENV:
-    // Store to env by offset (for let bindings)
-    // Value is on stack top, store to env->values[offset - nargs]
-    n = bc[ip++];
-    {
-        i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
-        obj_p env = AS_LAMBDA(vm->fn)->env;
-        x = pop();  // value to store
-
-        if (n < nargs) {
-            // Storing to arg slot - update stack
-            drop_obj(vm->ps[vm->fp + n]);
-            vm->ps[vm->fp + n] = x;
-        } else if (env != NULL_OBJ && env->type == TYPE_DICT) {
-            // Store to let-bound local
-            i64_t local_idx = n - nargs;
-            obj_p values = AS_LIST(env)[1];
-
-            // Extend values list if needed
-            while (values->len <= local_idx) {
-                obj_p null_val = NULL_OBJ;
-                push_obj(&AS_LIST(env)[1], clone_obj(null_val));
-                values = AS_LIST(env)[1];
-            }
-
-            // Store value
-            drop_obj(AS_LIST(values)[local_idx]);
-            AS_LIST(values)[local_idx] = x;
-        } else {
-            // No env, just drop the value
-            drop_obj(x);
-        }
-        // Push the value back (let returns the value)
-        push(clone_obj(n < nargs ? vm->ps[vm->fp + n] : AS_LIST(AS_LIST(env)[1])[n - nargs]));
-    }
-    next();
+overflow:
+    r = err_limit(VM_STACK_SIZE);
+    bc_error_add_loc(r, vm->fn, ip - 1);
+    return vm_error_unwind(vm, r);
 
 #undef next
+#undef operand
 #undef push
 #undef pop
 #undef top
@@ -680,8 +676,12 @@ obj_p call(obj_p fn, i64_t arity) {
     obj_p saved_fn = vm->fn;
     i64_t saved_fp = vm->fp;
     i64_t saved_sp = vm->sp;
+    obj_p saved_env = vm->env;
     UNUSED(arity);
 
+    if (vm->rp >= VM_STACK_SIZE || vm->sp > VM_STACK_SIZE)
+        return err_limit(VM_STACK_SIZE);
+
     // Compile on first call - bytecode is cached in the lambda for reuse
     if (lam->bc == NULL_OBJ) {
         res = cc_compile(fn);
@@ -692,9 +692,11 @@ obj_p call(obj_p fn, i64_t arity) {
     // Push to return stack - this lets resolve() find parent scope
     // ip = -1 marks this as an external call (OP_RET will return to vm_eval top level)
     vm->rs[vm->rp].fn = saved_fn;
+    vm->rs[vm->rp].env = saved_env;
     vm->rs[vm->rp].fp = saved_fp;
     vm->rs[vm->rp].ip = -1;  // External call marker
     vm->rp++;
+    vm->env = NULL_OBJ;
 
     // Execute bytecode
     res = vm_eval(fn);
@@ -707,6 +709,8 @@ obj_p call(obj_p fn, i64_t arity) {
 
     // Pop frame and restore context
     vm->rp--;
+    drop_obj(vm->env);
+    vm->env = saved_env;
     vm->fn = saved_fn;
     vm->fp = saved_fp;
 
@@ -781,6 +785,12 @@ static obj_p eval_binary(obj_p fn, obj_p *args, i64_t id) {
     return unwrap(res, id);
 }
 
+// Drop arguments from the stack
+static inline nil_t vm_stack_drop(i64_t n) {
+    while (n-- > 0)
+        drop_obj(vm_stack_pop());
+}
+
 // Evaluate variadic function call
 static obj_p eval_vary(obj_p fn, obj_p *args, i64_t len, i64_t id) {
     obj_p x, res;
@@ -797,15 +807,15 @@ static obj_p eval_vary(obj_p fn, obj_p *args, i64_t len, i64_t id) {
 
     for (i = 0; i < len; i++) {
         x = eval_arg(args[i], is_aggr);
-        if (IS_ERR(x))
+        if (IS_ERR(x)) {
+            vm_stack_drop(i);
             return x;
+        }
         vm_stack_push(x);
     }
 
     res = vary_call(fn, vm_stack_peek(len - 1), len);
-
-    for (i = 0; i < len; i++)
-        drop_obj(vm_stack_pop());
+    vm_stack_drop(len);
 
     return (fn->i64 == (i64_t)ray_do) ? res : unwrap(res, id);
 }
@@ -823,13 +833,12 @@ static obj_p eval_lambda(obj_p fn, obj_p *args, i64_t len, i64_t id) {
         return unwrap(err_limit(VM_STACK_SIZE), id);
 
     for (i = 0; i < len; i++) {
-        x = eval(args[i]);
-        if (IS_ERR(x))
-            return x;
         // Materialize lazy values (MAPGROUP/MAPFILTER) for lambda arguments
-        x = collect_lazy(x);
-        if (IS_ERR(x))
+        x = eval_arg(args[i], B8_FALSE);
+        if (IS_ERR(x)) {
+            vm_stack_drop(i);
             return x;
+        }
         vm_stack_push(x);
     }
 
@@ -850,9 +859,33 @@ static inline obj_p eval_sym(obj_p sym) {
     return clone_obj(*val);
 }
 
+// Apply a function to unevaluated arguments
+static obj_p eval_call(obj_p fn, obj_p *args, i64_t len, i64_t id) {
+    switch (fn->type) {
+        case TYPE_UNARY:
+            if (len != 1)
+                return unwrap(err_arity(1, len, 0), id);
+            return eval_unary(fn, args, id);
+
+        case TYPE_BINARY:
+            if (len != 2)
+                return unwrap(err_arity(2, len, 0), id);
+            return eval_binary(fn, args, id);
+
+        case TYPE_VARY:
+            return eval_vary(fn, args, len, id);
+
+        case TYPE_LAMBDA:
+            return eval_lambda(fn, args, len, id);
+
+        default:
+            return unwrap(err_type(TYPE_LAMBDA, fn->type, 0, 0), id);  // not callable
+    }
+}
+
 // Evaluate list (function call)
 static obj_p eval_list(obj_p obj) {
-    obj_p car, *val, *args;
+    obj_p car, *val, *args, fn, res;
     i64_t len, id;
 
     if (obj->len == 0)
@@ -864,34 +897,27 @@ static obj_p eval_list(obj_p obj) {
     args++;
     id = (i64_t)obj;
 
-dispatch:
     switch (car->type) {
-        case TYPE_UNARY:
-            if (len != 1)
-                return unwrap(err_arity(1, len, 0), id);
-            return eval_unary(car, args, id);
-
-        case TYPE_BINARY:
-            if (len != 2)
-                return unwrap(err_arity(2, len, 0), id);
-            return eval_binary(car, args, id);
-
-        case TYPE_VARY:
-            return eval_vary(car, args, len, id);
-
-        case TYPE_LAMBDA:
-            return eval_lambda(car, args, len, id);
-
         case -TYPE_SYMBOL:
-            val = resolve(car->i64);
-            if (val == NULL)
+            val = resolve_fn(car->i64);
+            if (val == NULL || (*val)->type == -TYPE_SYMBOL)
                 return unwrap(err_value(car->i64), id);
-            car = *val;
-            goto dispatch;
-
+            // the binding may change while the call is in progress
+            fn = clone_obj(*val);
+            break;
+        case TYPE_LIST:
+            fn = eval(car);
+            if (IS_ERR(fn))
+                return fn;
+            break;
         default:
-            return unwrap(err_type(TYPE_LAMBDA, car->type, 0, 0), id);  // not callable
+            return eval_call(car, args, len, id);
     }
+
+    res = eval_call(fn, args, len, id);
+    drop_obj(fn);
+
+    return res;
 }
 
 // Main eval dispatcher
@@ -921,14 +947,17 @@ obj_p ray_return(obj_p *x, i64_t n) {
 }
 
 obj_p ray_raise(obj_p obj) {
-    obj_p e;
+    c8_t msg[ERR_MSG_SIZE];
+    i64_t len;
 
     if (obj->type != TYPE_C8)
         return err_type(TYPE_C8, obj->type, 0, 0);
 
-    // Clone the message since error_obj takes ownership but caller drops the argument
-    e = err_user(NULL);
-    return e;
+    len = (obj->len < ERR_MSG_SIZE) ? obj->len : ERR_MSG_SIZE - 1;
+    memcpy(msg, AS_C8(obj), len);
+    msg[len] = '\0';
+
+    return err_user(msg);
 }
 
 obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file) {
@@ -1042,7 +1071,9 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
                 // Push error message as string for catch handler
                 vm_stack_push(str_fmt(-1, "%s", err_msg(res)));
                 drop_obj(res);
+                fn = clone_obj(fn);
                 res = call(fn, 1);
+                drop_obj(fn);
                 drop_obj(vm_stack_pop());
                 return res;
 
diff --git a/core/eval.h b/core/eval.h
index ea4d335..3719c59 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -46,8 +46,7 @@ typedef enum op_type_t {
 
     // === Data Operations ===
     OP_LOADCONST,  // Load constant by offset from consts pool (no name)
-    OP_LOADENV,    // Load from env by offset (args + locals, resolvable by name)
-    OP_STOREENV,   // Store to env by offset (for let bindings)
+    OP_LOADENV,    // Load argument by offset
     OP_POP,        // Pop and discard top of stack
 
     // === Symbol Resolution ===
@@ -57,8 +56,8 @@ typedef enum op_type_t {
     OP_CALL1,  // Call unary function (1 arg on stack, then fn)
     OP_CALL2,  // Call binary function (2 args on stack, then fn)
     OP_CALLN,  // Call variadic function (operand: arity)
-    OP_CALLF,  // Call lambda function
-    OP_CALLS,  // Call self (recursive tail call)
+    OP_CALLF,  // Call lambda function (operand: arity)
+    OP_CALLS,  // Call self (recursive tail call, operand: arity)
     OP_CALLD,  // Call dynamic - runtime dispatch (operand: arity)
 } op_type_t;
 
@@ -66,9 +65,10 @@ typedef enum op_type_t {
 struct pool_t;
 struct heap_t;
 
-// Return stack frame - compact for cache efficiency (16 bytes)
+// Return stack frame - compact for cache efficiency (24 bytes)
 typedef struct ctx_t {
-    obj_p fn;  // function pointer (lambda->env has the environment)
+    obj_p fn;   // function pointer
+    obj_p env;  // let-bound locals (dict or null)
     i32_t fp;  // frame pointer (max VM_STACK_SIZE = 1024)
     i32_t ip;  // instruction pointer (max bytecode ~64KB)
 } ctx_t;
@@ -84,14 +84,16 @@ typedef struct vm_t {
     i32_t rp;  // return stack pointer
     i32_t id;  // VM id (thread index)
     // Pointers (40 bytes)
-    obj_p fn;                       // current function (fn->env has local variables)
+    obj_p fn;                       // current function
+    obj_p env;                      // let-bound locals of the current call (dict or null)
     struct heap_t *heap;            // heap pointer
     struct pool_t *pool;            // pool pointer
     struct query_ctx_t *query_ctx;  // query context stack (for table column resolution)
     timeit_t *timeit;               // timeit (lazy allocated)
     // === Stacks ===
-    obj_p ps[VM_STACK_SIZE];  // program stack
-    ctx_t rs[VM_STACK_SIZE];  // return stack
+    // builtins copy (at most) their own arguments onto the stack before they call a lambda
+    obj_p ps[2 * VM_STACK_SIZE];  // program stack
+    ctx_t rs[VM_STACK_SIZE];      // return stack
     // === COLD section ===
     obj_p nfo;    // error source info
     obj_p trace;  // error stack trace
-- 
2.43.0


From 61bfcb318895ef4609b3ac915f165f8cb4f99c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 19/51] fix: alter, modify, insert, upsert and update leave
 what they do not own alone, and nothing half done

---
 core/join.c     |    4 +-
 core/rayforce.c |  262 +++++++----
 core/rayforce.h |    2 +
 core/update.c   | 1131 ++++++++++++++++++++---------------------------
 4 files changed, 660 insertions(+), 739 deletions(-)

diff --git a/core/join.c b/core/join.c
index 81ed2e2..366cb95 100644
--- a/core/join.c
+++ b/core/join.c
@@ -331,7 +331,7 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
@@ -401,7 +401,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
diff --git a/core/rayforce.c b/core/rayforce.c
index b397b57..046eca3 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -106,8 +106,10 @@ obj_p nullv(i8_t type, i64_t len) {
     obj_p vec;
     i8_t t;
 
-    if (type == TYPE_C8)
+    if (type == TYPE_C8 || type == TYPE_MAPLIST)
         t = TYPE_LIST;
+    else if (type == TYPE_ENUM)
+        t = TYPE_SYMBOL;
     else if (type < 0)
         t = -type;
     else
@@ -121,6 +123,16 @@ obj_p nullv(i8_t type, i64_t len) {
         case TYPE_C8:
             memset(vec->raw, 0, len);
             break;
+        case TYPE_I16:
+            for (i = 0; i < len; i++)
+                AS_I16(vec)[i] = NULL_I16;
+            break;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            for (i = 0; i < len; i++)
+                AS_I32(vec)[i] = NULL_I32;
+            break;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
@@ -1463,6 +1475,12 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
                 return *obj;
             }
 
+            if (!IS_VECTOR(*obj) || (*obj)->type == TYPE_ENUM) {
+                i8_t got = val->type;
+                drop_obj(val);
+                return err_type((*obj)->type, got, 0, 0);
+            }
+
             // Diverse to a list then
             diverse_obj(obj);
             return set_idx(obj, idx, val);
@@ -1534,6 +1552,7 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 AS_C8(*obj)[ids[i]] = AS_C8(vals)[i];
             drop_obj(vals);
             return *obj;
+        case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_U8, TYPE_U8):
             for (i = 0; i < len; i++)
                 AS_U8(*obj)[ids[i]] = AS_U8(vals)[i];
@@ -1604,7 +1623,11 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 return *obj;
             }
 
-            return err_type((*obj)->type, vals->type, 0, 0);
+            {
+                i8_t got = vals->type;
+                drop_obj(vals);
+                return err_type((*obj)->type, got, 0, 0);
+            }
     }
 }
 
@@ -1648,8 +1671,32 @@ obj_p __expand(obj_p obj, i64_t len) {
 
             drop_obj(obj);
 
+            return res;
+        case -TYPE_I16:
+            res = I16(len);
+            for (i = 0; i < len; i++)
+                AS_I16(res)[i] = obj->i16;
+
+            drop_obj(obj);
+
+            return res;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            res = vector(obj->type, len);
+            for (i = 0; i < len; i++)
+                AS_I32(res)[i] = obj->i32;
+
+            drop_obj(obj);
+
             return res;
         default:
+            // a column is a collection of rows
+            if (obj->type < 0 || obj->type >= TYPE_TABLE) {
+                i8_t got = obj->type;
+                drop_obj(obj);
+                return err_type(TYPE_LIST, got, 0, 0);
+            }
             if (ops_count(obj) != len) {
                 i64_t got = ops_count(obj);
                 drop_obj(obj);
@@ -1763,12 +1810,50 @@ obj_p find_obj_ids(obj_p obj, obj_p val) {
     }
 }
 
-obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
+obj_p own_obj(obj_p* obj) {
+    obj_p v;
+
+    v = cow_obj(*obj);
+    if (v == *obj || IS_ERR(v))
+        return v;
+
+    drop_obj(*obj);
+    *obj = v;
+
+    return v;
+}
+
+// Replace elements one by one
+obj_p set_each(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
     i64_t i;
+
+    // A list takes a string (or an atom) as a whole
+    if ((*obj)->type != TYPE_LIST || vals->type == TYPE_C8 || !IS_VECTOR(vals))
+        return set_ids(obj, ids, len, vals);
+
+    for (i = 0; i < len; i++)
+        set_idx(obj, ids[i], at_idx(vals, i));
+
+    drop_obj(vals);
+
+    return *obj;
+}
+
+obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
+    i64_t i, n;
     obj_p ids, res;
 
     CLEAR_ORDER_ATTRS(*obj);
 
+    // keys and values may be shared with other objects
+    res = own_obj(&AS_LIST(*obj)[0]);
+    if (!IS_ERR(res))
+        res = own_obj(&AS_LIST(*obj)[1]);
+    if (IS_ERR(res)) {
+        drop_obj(val);
+        return res;
+    }
+
     switch (idx->type) {
         case -TYPE_I64:
         case -TYPE_SYMBOL:
@@ -1776,9 +1861,16 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
             i = find_obj_idx(AS_LIST(*obj)[0], idx);
             // Key not found, add it
             if (i == NULL_I64) {
+                if (!IS_VECTOR(AS_LIST(*obj)[0]) || !IS_VECTOR(AS_LIST(*obj)[1])) {
+                    drop_obj(val);
+                    return err_type(TYPE_DICT, idx->type, 0, 0);
+                }
+
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
-                if (IS_ERR(res))
+                if (IS_ERR(res)) {
+                    drop_obj(val);
                     return res;
+                }
 
                 res = push_obj(&AS_LIST(*obj)[1], val);
                 if (IS_ERR(res))
@@ -1795,15 +1887,33 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
+            n = idx->len;
+            if (IS_VECTOR(val) && n != ops_count(val)) {
+                i64_t have = ops_count(val);
+                drop_obj(val);
+                return err_length(n, have, 0, 0, 0, 0);
+            }
+
             ids = find_obj_ids(AS_LIST(*obj)[0], idx);
-            if (IS_ERR(ids))
+            if (IS_ERR(ids)) {
+                drop_obj(val);
                 return ids;
+            }
+
+            for (i = 0; i < n; i++) {
+                if (AS_I64(ids)[i] == NULL_I64) {
+                    drop_obj(ids);
+                    drop_obj(val);
+                    return err_value(0);
+                }
+            }
 
-            res = set_ids(&AS_LIST(*obj)[1], AS_I64(ids), ids->len, val);
+            res = set_each(&AS_LIST(*obj)[1], AS_I64(ids), n, val);
             drop_obj(ids);
 
-            return res;
+            return IS_ERR(res) ? res : *obj;
         default:
+            drop_obj(val);
             return err_type(TYPE_SYMBOL, idx->type, 0, 0);
     }
 
@@ -1817,6 +1927,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
     // dispatch:
     switch (MTYPE2((*obj)->type, idx->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_I64):
+        case MTYPE2(TYPE_U8, -TYPE_I64):
+        case MTYPE2(TYPE_I16, -TYPE_I64):
+        case MTYPE2(TYPE_I32, -TYPE_I64):
+        case MTYPE2(TYPE_DATE, -TYPE_I64):
+        case MTYPE2(TYPE_TIME, -TYPE_I64):
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_I64):
@@ -1829,6 +1945,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
                 return err_index(idx->i64, (*obj)->len, 0, 0);
             }
             return set_idx(obj, idx->i64, val);
+        case MTYPE2(TYPE_B8, TYPE_I64):
+        case MTYPE2(TYPE_U8, TYPE_I64):
+        case MTYPE2(TYPE_I16, TYPE_I64):
+        case MTYPE2(TYPE_I32, TYPE_I64):
+        case MTYPE2(TYPE_DATE, TYPE_I64):
+        case MTYPE2(TYPE_TIME, TYPE_I64):
         case MTYPE2(TYPE_I64, TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -1836,8 +1958,8 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
         case MTYPE2(TYPE_C8, TYPE_I64):
         case MTYPE2(TYPE_GUID, TYPE_I64):
         case MTYPE2(TYPE_LIST, TYPE_I64):
-            if (IS_VECTOR(val) && idx->len != val->len) {
-                i64_t have = val->len;
+            if (IS_VECTOR(val) && idx->len != ops_count(val)) {
+                i64_t have = ops_count(val);
                 drop_obj(val);
                 return err_length(idx->len, have, 0, 0, 0, 0);
             }
@@ -1850,11 +1972,14 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
                     return err_index(ids[i], l, 0, 0);
                 }
             }
-            return set_ids(obj, ids, n, val);
+            return set_each(obj, ids, n, val);
         case MTYPE2(TYPE_TABLE, -TYPE_SYMBOL):
             val = __expand(val, ops_count(*obj));
             if (IS_ERR(val))
                 return val;
+            // names and columns may be shared with other objects
+            own_obj(&AS_LIST(*obj)[0]);
+            own_obj(&AS_LIST(*obj)[1]);
             j = find_obj_idx(AS_LIST(*obj)[0], idx);
             if (j == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
@@ -1903,6 +2028,9 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             drop_obj(val);
             val = v;
 
+            own_obj(&AS_LIST(*obj)[0]);
+            own_obj(&AS_LIST(*obj)[1]);
+
             for (i = 0; i < l; i++) {
                 id = find_raw(AS_LIST(*obj)[0], &AS_SYMBOL(idx)[i]);
                 if (id == NULL_I64) {
@@ -1917,19 +2045,11 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
             return *obj;
         default:
-            if ((*obj)->type == TYPE_DICT) {
-                res = set_dict_obj(obj, idx, val);
-                if (IS_ERR(res)) {
-                    drop_obj(val);
-                    return res;
-                }
-
-                return res;
-            }
+            if ((*obj)->type == TYPE_DICT)
+                return set_dict_obj(obj, idx, val);
 
-            // Diverse to a list then
-            diverse_obj(obj);
-            return set_obj(obj, idx, val);
+            drop_obj(val);
+            return err_type((*obj)->type, idx->type, 0, 0);
     }
 }
 
@@ -1992,75 +2112,43 @@ obj_p remove_idx(obj_p* obj, i64_t idx) {
 }
 
 obj_p remove_ids(obj_p* obj, i64_t ids[], i64_t len) {
-    i64_t i, j;
+    i64_t i, j, l, size;
+    b8_t *gone;
+    obj_p mask;
 
-    if (len == 0 || (*obj)->len == 0 || len > (*obj)->len)
+    l = (*obj)->len;
+    if (len == 0 || l == 0 || len > l)
         return *obj;
 
     // Check ids are in range
     for (i = 0; i < len; i++)
-        if (ids[i] < 0 || ids[i] >= (i64_t)(*obj)->len)
+        if (ids[i] < 0 || ids[i] >= l)
             return *obj;
 
-    switch ((*obj)->type) {
-        case TYPE_U8:
-        case TYPE_B8:
-        case TYPE_C8:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_U8(*obj) + j, AS_U8(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(u8_t));
-            }
+    if (!IS_VECTOR(*obj) || (*obj)->type == TYPE_ENUM)
+        return err_type(TYPE_LIST, (*obj)->type, 0, 0);
 
-            return resize_obj(obj, (*obj)->len - len);
-        case TYPE_I16:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I16(*obj) + j, AS_I16(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i16_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_I32:
-        case TYPE_DATE:
-        case TYPE_TIME:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I32(*obj) + j, AS_I32(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i32_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_I64:
-        case TYPE_SYMBOL:
-        case TYPE_TIMESTAMP:
-        case TYPE_F64:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I64(*obj) + j, AS_I64(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i64_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_GUID:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_GUID(*obj) + j, AS_GUID(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(guid_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_LIST:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                drop_obj(AS_LIST(*obj)[j]);
-                memmove(AS_I64(*obj) + j, AS_I64(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i64_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
+    // ids may come in any order and repeat
+    mask = B8(l);
+    gone = AS_B8(mask);
+    memset(gone, 0, l);
+    for (i = 0; i < len; i++)
+        gone[ids[i]] = B8_TRUE;
 
-        default:
-            PANIC("type: %d", (*obj)->type);
+    size = size_of_type((*obj)->type);
+    for (i = 0, j = 0; i < l; i++) {
+        if (gone[i]) {
+            if ((*obj)->type == TYPE_LIST)
+                drop_obj(AS_LIST(*obj)[i]);
+            continue;
+        }
+        if (i != j)
+            memcpy((*obj)->raw + j * size, (*obj)->raw + i * size, size);
+        j++;
     }
+    drop_obj(mask);
+
+    return resize_obj(obj, j);
 }
 
 obj_p remove_obj(obj_p* obj, obj_p idx) {
@@ -2101,6 +2189,12 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
             if (i == NULL_I64)
                 return *obj;
 
+            v = own_obj(&AS_LIST(*obj)[0]);
+            if (!IS_ERR(v))
+                v = own_obj(&AS_LIST(*obj)[1]);
+            if (IS_ERR(v))
+                return v;
+
             v = remove_idx(&AS_LIST(*obj)[0], i);
 
             if (IS_ERR(v))
@@ -2117,6 +2211,12 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
                 if (j == NULL_I64)
                     return *obj;
 
+                v = own_obj(&AS_LIST(*obj)[0]);
+                if (!IS_ERR(v))
+                    v = own_obj(&AS_LIST(*obj)[1]);
+                if (IS_ERR(v))
+                    return v;
+
                 v = remove_idx(&AS_LIST(*obj)[0], j);
                 if (IS_ERR(v))
                     return v;
diff --git a/core/rayforce.h b/core/rayforce.h
index c1c4e1c..211b1e1 100644
--- a/core/rayforce.h
+++ b/core/rayforce.h
@@ -182,6 +182,7 @@ extern obj_p dict(obj_p keys, obj_p vals);   // dict
 extern obj_p clone_obj(obj_p obj);  // clone_obj
 extern obj_p copy_obj(obj_p obj);   // copy
 extern obj_p cow_obj(obj_p obj);    // copy-on-write
+extern obj_p own_obj(obj_p *obj);   // make a reference exclusive
 extern u32_t rc_obj(obj_p obj);     // get refcount
 
 // Destructors
@@ -249,6 +250,7 @@ extern nil_t zero_obj(obj_p obj);
 // Set
 extern obj_p set_idx(obj_p *obj, i64_t idx, obj_p val);                // set obj at index
 extern obj_p set_ids(obj_p *obj, i64_t ids[], i64_t len, obj_p vals);  // set obj at indexes
+extern obj_p set_each(obj_p *obj, i64_t ids[], i64_t len, obj_p vals);  // set elements one by one
 extern obj_p set_obj(obj_p *obj, obj_p idx, obj_p val);                // set obj indexed by obj
 
 // Sync
diff --git a/core/update.c b/core/update.c
index 50af3b5..5329f51 100644
--- a/core/update.c
+++ b/core/update.c
@@ -36,46 +36,37 @@
 #include "aggr.h"
 #include "compose.h"
 
-#define UNCOW_OBJ(o, v, orig, r) \
-    {                            \
-        if ((v == NULL)) {       \
-            if (o != orig)       \
-                drop_obj(o);     \
-        } else if (*v != o)      \
-            drop_obj(o);         \
-        return r;                \
-    };
-
-obj_p __fetch(obj_p obj, obj_p **val, obj_p *original) {
-    if (obj->type == -TYPE_SYMBOL) {
-        *val = resolve(obj->i64);
-        if (*val == NULL)
+/*
+ * Opens an object to be modified: the variable it is the name of, or a copy of the object itself (kept in tmp).
+ * The object behind *ref is exclusively owned.
+ */
+obj_p __fetch(obj_p src, obj_p *tmp, obj_p **ref) {
+    if (src->type == -TYPE_SYMBOL) {
+        *ref = resolve(src->i64);
+        if (*ref == NULL)
             return err_value(0);
 
-        *original = **val;
-        obj = cow_obj(**val);
-    } else {
-        *val = NULL;
-        *original = obj;
-        obj = cow_obj(obj);
+        return own_obj(*ref);
     }
 
-    return obj;
+    *tmp = copy_obj(src);
+    *ref = tmp;
+
+    return *tmp;
 }
 
-obj_p __commit(obj_p src, obj_p obj, obj_p *val) {
-    // TODO: comparison val and *obj in case of shrink is only guaranteed
-    // to be correct with own allocator
-    if (src->type == -TYPE_SYMBOL) {
-        if ((val != NULL) && (*val != obj)) {
-            drop_obj(*val);
-            *val = obj;
-        }
+/*
+ * The outcome of a modification: an error leaves no copy behind, a modified variable is represented by its name
+ */
+obj_p __commit(obj_p src, obj_p *ref, obj_p res) {
+    if (IS_ERR(res)) {
+        if (src->type != -TYPE_SYMBOL)
+            drop_obj(*ref);
 
-        return clone_obj(src);
+        return res;
     }
 
-    return (src == obj) ? clone_obj(obj) : obj;
+    return (src->type == -TYPE_SYMBOL) ? clone_obj(src) : *ref;
 }
 
 b8_t __suitable_types(obj_p x, obj_p y) {
@@ -106,13 +97,6 @@ b8_t __suitable_types(obj_p x, obj_p y) {
     return B8_FALSE;
 }
 
-b8_t __suitable_lengths(obj_p x, obj_p y) {
-    if (x->type != TYPE_LIST && (IS_VECTOR(y) && (ops_count(y) != ops_count(x))))
-        return B8_FALSE;
-
-    return B8_TRUE;
-}
-
 /*
  * Helper to find the index of a symbol in a symbol vector.
  * Returns the index or NULL_I64 if not found.
@@ -133,165 +117,228 @@ i64_t __find_symbol_idx(obj_p symbols, i64_t sym) {
 }
 
 /*
- * Reorder input values to match the table's column order.
- * Handles both single records (list of atoms) and multiple records (list of vectors).
- *
- * table_cols: symbol vector of table column names
- * table_vals: list of table column data (to get types for null values)
- * input_cols: symbol vector of input column names
- * input_vals: list of input values
+ * Values of a column to be added to a column of a table: a vector of the type of the column (lists take any),
+ * made of the only value (single) or of the vector of len values given
+ */
+obj_p __conform(obj_p col, obj_p val, b8_t single, i64_t len) {
+    i64_t i;
+    i8_t t;
+    obj_p v, res;
+
+    t = (col->type == TYPE_ENUM) ? TYPE_SYMBOL : (col->type == TYPE_MAPLIST) ? TYPE_LIST : col->type;
+
+    if (single) {
+        if (t == TYPE_LIST)
+            return vn_list(1, clone_obj(val));
+
+        if (!IS_ATOM(val))
+            return err_type(-t, val->type, 0, 0);
+
+        v = vector(val->type, 1);
+        ins_obj(&v, 0, clone_obj(val));
+    } else {
+        if (!IS_VECTOR(val) && val->type != TYPE_MAPLIST)
+            return err_type(t, val->type, 0, 0);
+
+        if (ops_count(val) != len)
+            return err_length(len, ops_count(val), 0, 0, 0, 0);
+
+        v = (val->type == TYPE_ENUM || val->type == TYPE_MAPLIST) ? ray_value(val) : clone_obj(val);
+        if (IS_ERR(v))
+            return v;
+    }
+
+    if (t == v->type || t == TYPE_LIST)
+        return v;
+
+    if (!__suitable_types(col, v) || v->type != TYPE_F64) {
+        res = err_type(t, v->type, 0, 0);
+        drop_obj(v);
+        return res;
+    }
+
+    // Numeric conversion
+    res = vector(t, len);
+    if (t == TYPE_I64) {
+        for (i = 0; i < len; i++)
+            AS_I64(res)[i] = (i64_t)AS_F64(v)[i];
+    } else {
+        for (i = 0; i < len; i++)
+            AS_I32(res)[i] = (i32_t)AS_F64(v)[i];
+    }
+    drop_obj(v);
+
+    return res;
+}
+
+/*
+ * Null values of a column
+ */
+obj_p __nulls(obj_p col, i64_t len) {
+    obj_p res;
+
+    if (col->type != TYPE_C8)
+        return nullv(col->type, len);
+
+    res = C8(len);
+    memset(AS_C8(res), 0, len);
+
+    return res;
+}
+
+/*
+ * Rows to be added to a table, made of a record or of records given as a list, a dict or another table.
+ * Dicts and tables name their columns, so those come in any order, and missing ones are filled with nulls.
  *
- * Returns: reordered list matching table column order, or error object
+ * Returns: list of columns, all of the same length, in the order of the table's columns and of their types
+ * (null object for the columns beyond the end of a shorter list), or error object
  */
-obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, obj_p input_vals) {
-    i64_t i, j, tc, ic, rec_count;
-    i8_t col_type;
-    obj_p reordered;
-    i64_t *tcols, *icols;
-    b8_t is_single_record;
-
-    tc = table_cols->len;  // number of table columns
-    ic = input_cols->len;  // number of input columns
-    tcols = AS_I64(table_cols);
-    icols = AS_I64(input_cols);
+obj_p __rows(obj_p tab, obj_p src) {
+    i64_t i, j, l, m, p;
+    obj_p cols, vals, names, input, v, c, rows;
+    b8_t single;
+
+    cols = AS_LIST(tab)[0];
+    vals = AS_LIST(tab)[1];
+    p = cols->len;
+
+    switch (src->type) {
+        case TYPE_LIST:
+            names = NULL_OBJ;
+            input = src;
+            break;
+        case TYPE_DICT:
+        case TYPE_TABLE:
+            names = AS_LIST(src)[0];
+            input = AS_LIST(src)[1];
+            if (names->type != TYPE_SYMBOL || !IS_VECTOR(input))
+                return err_type(TYPE_SYMBOL, names->type, 0, 0);
+            break;
+        default:
+            return err_type(TYPE_LIST, src->type, 0, 0);
+    }
+
+    l = ops_count(input);
+    if (l == 0 || l > p || (names != NULL_OBJ && names->len != l))
+        return err_length(p, l, 0, 0, 0, 0);
 
     // Check that all input columns exist in the table
-    for (i = 0; i < ic; i++) {
-        if (__find_symbol_idx(table_cols, icols[i]) == NULL_I64) {
+    for (i = 0; names != NULL_OBJ && i < l; i++)
+        if (__find_symbol_idx(cols, AS_SYMBOL(names)[i]) == NULL_I64)
             return err_value(0);
-        }
-    }
 
     // Determine if this is a single record or multiple records
-    is_single_record = IS_ATOM(AS_LIST(input_vals)[0]);
+    v = at_idx(input, 0);
+    single = IS_ATOM(v);
+    m = single ? 1 : ops_count(v);
+    drop_obj(v);
 
-    if (is_single_record) {
-        // Single record: create a reordered list of atoms
-        reordered = LIST(tc);
+    if (m == 0)
+        return err_length(1, 0, 0, 0, 0, 0);
 
-        for (i = 0; i < tc; i++) {
-            // Find this table column in the input
-            j = __find_symbol_idx(input_cols, tcols[i]);
+    rows = LIST(p);
+    for (i = 0; i < p; i++)
+        AS_LIST(rows)[i] = NULL_OBJ;
 
-            if (j == NULL_I64) {
-                // Column not in input - use null with the correct type from table
-                col_type = AS_LIST(table_vals)[i]->type;
-                AS_LIST(reordered)[i] = null(col_type);
-            } else {
-                AS_LIST(reordered)[i] = clone_obj(AS_LIST(input_vals)[j]);
-            }
+    for (i = 0; i < p; i++) {
+        if (names != NULL_OBJ)
+            j = __find_symbol_idx(names, AS_SYMBOL(cols)[i]);
+        else
+            j = (i < l) ? i : NULL_I64;
+
+        if (j == NULL_I64) {
+            if (names != NULL_OBJ)
+                AS_LIST(rows)[i] = __nulls(AS_LIST(vals)[i], m);
+            continue;
         }
-    } else {
-        // Multiple records: create a reordered list of vectors
-        rec_count = AS_LIST(input_vals)[0]->len;
-        reordered = LIST(tc);
 
-        for (i = 0; i < tc; i++) {
-            // Find this table column in the input
-            j = __find_symbol_idx(input_cols, tcols[i]);
+        v = at_idx(input, j);
+        c = __conform(AS_LIST(vals)[i], v, single, m);
+        drop_obj(v);
 
-            if (j == NULL_I64) {
-                // Column not in input - use null vector with the correct type
-                col_type = AS_LIST(table_vals)[i]->type;
-                AS_LIST(reordered)[i] = nullv(col_type, rec_count);
-            } else {
-                AS_LIST(reordered)[i] = clone_obj(AS_LIST(input_vals)[j]);
-            }
+        if (IS_ERR(c)) {
+            drop_obj(rows);
+            return c;
         }
+
+        AS_LIST(rows)[i] = c;
     }
 
-    return reordered;
+    return rows;
+}
+
+/*
+ * Makes all the columns of a table exclusively owned
+ */
+obj_p __own_columns(obj_p tab) {
+    i64_t i, l;
+    obj_p res;
+
+    res = own_obj(&AS_LIST(tab)[1]);
+    l = AS_LIST(tab)[0]->len;
+    for (i = 0; i < l && !IS_ERR(res); i++)
+        res = own_obj(&AS_LIST(AS_LIST(tab)[1])[i]);
+
+    return res;
 }
 
+/*
+ * Place the element of a list or a dict is stored at (exclusively owned), NULL if there is no one
+ */
 obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     i64_t j;
     obj_p v, *p;
 
     switch (MTYPE2(obj->type, idx->type)) {
         case MTYPE2(TYPE_LIST, -TYPE_I64):
-            return &AS_LIST(obj)[idx->i64];
+            if (idx->i64 < 0 || idx->i64 >= obj->len)
+                return NULL;
+            p = &AS_LIST(obj)[idx->i64];
+            break;
         default:
-            if (obj->type == TYPE_DICT) {
-                j = find_obj_idx(AS_LIST(obj)[0], idx);
-                if (j == NULL_I64)
-                    return NULL;
-                else {
-                    if (AS_LIST(obj)[1]->type != TYPE_LIST)
-                        diverse_obj(AS_LIST(obj) + 1);
-
-                    p = AS_LIST(AS_LIST(obj)[1]) + j;
-                    v = cow_obj(*p);
-                    if (v != *p) {
-                        drop_obj(*p);
-                        *p = v;
-                    }
-
-                    return p;
-                }
-            }
+            if (obj->type != TYPE_DICT)
+                return NULL;
 
-            return NULL;
-    }
-}
+            j = find_obj_idx(AS_LIST(obj)[0], idx);
+            if (j == NULL_I64)
+                return NULL;
 
-obj_p dot_obj(obj_p obj, obj_p idx) {
-    i64_t i, l;
-    obj_p *ref;
-
-    switch (idx->type) {
-        case TYPE_NULL:
-            return obj;
-        case TYPE_LIST:
-            l = idx->len;
-            if (l < 2)
-                return err_value(0);
-
-            l--;  // skip last element
-
-            for (i = 0; i < l; i++) {
-                obj = cow_obj(obj);
-                obj = dot_obj(obj, AS_LIST(idx)[i]);
-                if (obj == NULL)
-                    return err_value(0);
+            v = own_obj(&AS_LIST(obj)[1]);
+            if (IS_ERR(v)) {
+                drop_obj(v);
+                return NULL;
             }
 
-            return obj;
+            if (AS_LIST(obj)[1]->type != TYPE_LIST)
+                diverse_obj(AS_LIST(obj) + 1);
 
-        default:
-            ref = at_obj_ref(cow_obj(obj), idx);
-            if (ref == NULL)
-                return err_value(0);
-            return *ref;
+            p = AS_LIST(AS_LIST(obj)[1]) + j;
     }
-}
-
-obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
-    obj_p v, *p, args[3], res;
 
-    // special case for set/let
-    if (func->type == TYPE_BINARY && (func->i64 == (i64_t)ray_set || func->i64 == (i64_t)ray_let))
-        return set_obj(obj, idx, clone_obj(val));
+    v = own_obj(p);
+    if (IS_ERR(v)) {
+        drop_obj(v);
+        return NULL;
+    }
 
-    // special case for concat
-    if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_concat) {
-        if (idx->type == TYPE_NULL)
-            return push_obj(obj, clone_obj(val));
+    return p;
+}
 
-        p = at_obj_ref(*obj, idx);
-        if (p == NULL)
-            return err_value(0);
-        if (IS_ERR(*p))
-            return *p;
+#define IS_BUILTIN(f, fn) ((f)->type == TYPE_BINARY && (f)->i64 == (i64_t)(fn))
 
-        return push_obj(p, clone_obj(val));
-    }
+/*
+ * What to store in place of an element: set, concat and remove take the value as it is,
+ * other functions are applied to the element (to the whole object, if there is no index) and the value.
+ */
+obj_p __alter_value(obj_p obj, obj_p func, obj_p idx, obj_p val) {
+    obj_p v, args[3], res;
 
-    // special case for remove
-    if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_remove)
-        return remove_obj(obj, val);
+    if (IS_BUILTIN(func, ray_set) || IS_BUILTIN(func, ray_let) || IS_BUILTIN(func, ray_concat) ||
+        IS_BUILTIN(func, ray_remove))
+        return clone_obj(val);
 
     // retrieve the object via indices
-    v = at_obj(*obj, idx);
+    v = (idx == NULL_OBJ) ? clone_obj(obj) : at_obj(obj, idx);
 
     if (IS_ERR(v))
         return v;
@@ -303,261 +350,196 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
     res = ray_apply(args, 3);
     drop_obj(v);
 
-    if (IS_ERR(res))
+    return res;
+}
+
+/*
+ * Store the value (which is consumed) into an exclusively owned object
+ */
+obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
+    obj_p *p, res;
+
+    // special case for concat
+    if (IS_BUILTIN(func, ray_concat)) {
+        p = (idx == NULL_OBJ) ? obj : at_obj_ref(*obj, idx);
+        if (p == NULL) {
+            drop_obj(val);
+            return err_value(0);
+        }
+
+        if (!IS_VECTOR(*p)) {
+            drop_obj(val);
+            return err_type(TYPE_LIST, (*p)->type, 0, 0);
+        }
+
+        return push_obj(p, val);
+    }
+
+    // special case for remove
+    if (IS_BUILTIN(func, ray_remove)) {
+        res = remove_obj(obj, val);
+        drop_obj(val);
         return res;
+    }
+
+    if (idx == NULL_OBJ && !IS_BUILTIN(func, ray_set) && !IS_BUILTIN(func, ray_let)) {
+        drop_obj(*obj);
+        *obj = val;
+        return val;
+    }
 
-    return set_obj(obj, idx, res);
+    return set_obj(obj, idx, val);
 }
 
 obj_p ray_alter(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur = NULL;
+    obj_p obj, res, val, idx, *cur = NULL;
 
-    if (n < 3)
+    if (n < 3 || n > 4)
         return err_arity(3, n, 0);
 
     if (x[1]->type < TYPE_LAMBDA || x[1]->type > TYPE_VARY)
         return err_type(0, 0, 0, 0);
 
+    obj = x[0];
     if (x[0]->type == -TYPE_SYMBOL) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        obj = cow_obj(x[0]);
+        obj = *cur;
     }
 
-    res = obj;
-    res = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
+    idx = (n == 4) ? x[2] : NULL_OBJ;
 
-    if (IS_ERR(res)) {
-        if (x[0]->type != -TYPE_SYMBOL)
-            drop_obj(obj);
+    // Get the value first: the function may rebind the variable
+    clone_obj(obj);
+    val = __alter_value(obj, x[1], idx, x[n - 1]);
+    drop_obj(obj);
+    if (IS_ERR(val))
+        return val;
 
+    res = __fetch(x[0], &obj, &cur);
+    if (IS_ERR(res)) {
+        drop_obj(val);
         return res;
     }
 
-    if (x[0]->type != -TYPE_SYMBOL)
-        return res;
-
-    // If the object was reallocated (e.g., by push_obj), update the reference
-    // Note: we don't drop *cur if obj == *cur originally, since they're the same object
-    // and res is already pointing to the (possibly reallocated) version
-    if (obj != *cur) {
-        // obj was a copy, so drop the original
-        drop_obj(*cur);
-        *cur = res;
-    } else if (res != obj) {
-        // obj was not a copy (cow returned same object), but it got reallocated
-        // So just update the pointer without dropping
-        *cur = res;
-    }
+    res = __alter(cur, x[1], idx, val);
 
-    return clone_obj(x[0]);
+    return __commit(x[0], cur, res);
 }
 
 obj_p ray_modify(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur, idx;
-
-    cur = NULL;
+    i64_t i, l;
+    obj_p obj, v, res, val, idx, *cur = NULL, *ref;
 
-    if (n < 4)
+    if (n != 4)
         return err_arity(4, n, 0);
 
     if (x[1]->type < TYPE_LAMBDA || x[1]->type > TYPE_VARY)
         return err_type(0, 0, 0, 0);
 
+    // The path: the last index is the one of the element to modify
+    l = 0;
+    idx = x[2];
+    if (x[2]->type == TYPE_LIST) {
+        l = x[2]->len - 1;
+        if (l < 1)
+            return err_value(0);
+        idx = AS_LIST(x[2])[l];
+    }
+
+    obj = x[0];
     if (x[0]->type == -TYPE_SYMBOL) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        obj = cow_obj(x[0]);
+        obj = *cur;
     }
 
-    res = dot_obj(obj, x[2]);
-    if (IS_ERR(res))
-        return res;
-
-    idx = ray_last(x[2]);
-    if (IS_ERR(idx))
-        return idx;
+    // Get the value first: the function may rebind the variable
+    clone_obj(obj);
+    for (i = 0; i < l; i++) {
+        v = at_obj(obj, AS_LIST(x[2])[i]);
+        drop_obj(obj);
+        if (IS_ERR(v))
+            return v;
+        obj = v;
+    }
 
-    res = __alter(&res, x[1], idx, x[3]);
-    drop_obj(idx);
+    val = __alter_value(obj, x[1], idx, x[3]);
+    drop_obj(obj);
+    if (IS_ERR(val))
+        return val;
 
-    if (IS_ERR(res))
+    res = __fetch(x[0], &obj, &cur);
+    if (IS_ERR(res)) {
+        drop_obj(val);
         return res;
+    }
 
-    if (x[0]->type != -TYPE_SYMBOL)
-        return obj;
-
-    if (cur != NULL && (*cur) != obj) {
-        drop_obj(*cur);
-        *cur = obj;
+    for (i = 0, ref = cur; i < l; i++) {
+        ref = at_obj_ref(*ref, AS_LIST(x[2])[i]);
+        if (ref == NULL) {
+            drop_obj(val);
+            return __commit(x[0], cur, err_value(0));
+        }
     }
 
-    return clone_obj(x[0]);
+    res = __alter(ref, x[1], idx, val);
+
+    return __commit(x[0], cur, res);
 }
 
 /*
  * inserts for tables
  */
-#define INSERT_ERROR(r)                   \
-    {                                     \
-        if (lst_allocated)                \
-            drop_obj(lst);                \
-        UNCOW_OBJ(obj, val, original, r); \
-    }
-
 obj_p ray_insert(obj_p *x, i64_t n) {
-    i64_t i, m, l;
-    obj_p lst, col, *val = NULL, obj, res, original;
-    b8_t need_drop, lst_allocated;
+    i64_t i, l, m;
+    obj_p obj, rows, res, *cols, *ref;
 
     if (n != 2)
         return err_arity(2, n, 0);
 
-    obj = __fetch(x[0], &val, &original);
+    res = __fetch(x[0], &obj, &ref);
 
-    if (IS_ERR(obj))
-        return obj;
+    if (IS_ERR(res))
+        return res;
 
-    if (obj->type != TYPE_TABLE) {
-        res = err_type(0, 0, 0, 0);
-        UNCOW_OBJ(obj, val, original, res);
-    }
+    obj = *ref;
+    if (obj->type != TYPE_TABLE)
+        return __commit(x[0], ref, err_type(TYPE_TABLE, obj->type, 0, 0));
 
     // Check integrity of the table with the new object
-    lst = x[1];
-    lst_allocated = B8_FALSE;
-
-    // Handle dict/table input: reorder columns to match table order
-    if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
-        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            res = err_type(0, 0, 0, 0);
-            UNCOW_OBJ(obj, val, original, res);
-        }
-
-        // Check that input doesn't have more columns than table
-        l = AS_LIST(lst)[0]->len;
-        if (l > AS_LIST(obj)[0]->len) {
-            res = err_length(0, 0, 0, 0, 0, 0);
-            UNCOW_OBJ(obj, val, original, res);
+    rows = __rows(obj, x[1]);
+    if (IS_ERR(rows))
+        return __commit(x[0], ref, rows);
+
+    res = __own_columns(obj);
+    if (!IS_ERR(res)) {
+        cols = AS_LIST(AS_LIST(obj)[1]);
+        l = rows->len;
+        m = ops_count(AS_LIST(rows)[0]);
+
+        // Insert the records now
+        for (i = 0; i < l && !IS_ERR(res); i++) {
+            if (AS_LIST(rows)[i] == NULL_OBJ)
+                AS_LIST(rows)[i] = __nulls(cols[i], m);
+            res = append_list(&cols[i], AS_LIST(rows)[i]);
         }
-
-        // Reorder columns to match table order (allows flexible column ordering)
-        res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res))
-            UNCOW_OBJ(obj, val, original, res);
-
-        lst = res;
-        lst_allocated = B8_TRUE;
-    }
-
-    switch (lst->type) {
-        case TYPE_LIST:
-            l = lst->len;
-            // With column reordering, we might have fewer columns than the table
-            // but not more. The missing columns should be filled with nulls.
-            if (l > AS_LIST(obj)[0]->len) {
-                res = err_length(0, 0, 0, 0, 0, 0);
-                INSERT_ERROR(res);
-            }
-
-            // There is one record to be inserted
-            if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Check all the elements of the list
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-                }
-
-                // Insert the record now
-                for (i = 0; i < l; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    need_drop = (col != AS_LIST(AS_LIST(obj)[1])[i]);
-                    res = push_obj(&col, clone_obj(AS_LIST(lst)[i]));
-                    if (IS_ERR(res)) {
-                        if (need_drop)
-                            drop_obj(col);
-                        INSERT_ERROR(res);
-                    }
-                    if (need_drop)
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-            } else {
-                // There are multiple records to be inserted
-                m = AS_LIST(lst)[0]->len;
-                if (m == 0) {
-                    res = err_length(0, 0, 0, 0, 0, 0);
-                    INSERT_ERROR(res);
-                }
-
-                // Check all the elements of the list
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-
-                    if (AS_LIST(lst)[i]->len != m) {
-                        res = err_length(0, 0, 0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-                }
-
-                // Insert all the records now
-                for (i = 0; i < l; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    need_drop = (col != AS_LIST(AS_LIST(obj)[1])[i]);
-                    res = append_list(&col, AS_LIST(lst)[i]);
-                    if (IS_ERR(res)) {
-                        if (need_drop)
-                            drop_obj(col);
-                        INSERT_ERROR(res);
-                    }
-                    if (need_drop)
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-            }
-
-            break;
-
-        default:
-            res = err_type(0, 0, 0, 0);
-            INSERT_ERROR(res);
     }
 
-    if (lst_allocated)
-        drop_obj(lst);
+    drop_obj(rows);
 
-    return __commit(x[0], obj, val);
+    return __commit(x[0], ref, res);
 }
-#undef INSERT_ERROR
 
 /*
  * update/inserts for tables
  */
-#define UPSERT_ERROR(r)    \
-    {                      \
-        if (lst_allocated) \
-            drop_obj(lst); \
-        drop_obj(obj);     \
-        return r;          \
-    }
-
 obj_p ray_upsert(obj_p *x, i64_t n) {
-    i64_t i, j, m, p, l, ll, keys;
-    i64_t row, *rows;
-    obj_p obj, k1, k2, idx, col, lst, *val = NULL, v, original, res;
-    b8_t lst_allocated;
+    i64_t i, j, l, m, keys;
+    i64_t row, *ids;
+    obj_p obj, k1, k2, idx, rows, res, v, *cols, *ref;
 
     if (n != 3)
         return err_arity(3, n, 0);
@@ -569,191 +551,102 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
     if (keys < 1)
         return err_domain(2, 0);  // keys must be >= 1
 
-    obj = __fetch(x[0], &val, &original);
-    if (IS_ERR(obj))
-        return obj;
+    res = __fetch(x[0], &obj, &ref);
 
-    if (obj->type != TYPE_TABLE) {
-        drop_obj(obj);
-        return err_type(0, 0, 0, 0);
-    }
-
-    p = AS_LIST(obj)[0]->len;
+    if (IS_ERR(res))
+        return res;
 
-    lst = x[2];
-    lst_allocated = B8_FALSE;
+    obj = *ref;
+    if (obj->type != TYPE_TABLE)
+        return __commit(x[0], ref, err_type(TYPE_TABLE, obj->type, 0, 0));
 
-    // Handle dict/table input: reorder columns to match table order
-    if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
-        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            drop_obj(obj);
-            return err_type(0, 0, 0, 0);
-        }
+    rows = __rows(obj, x[2]);
+    if (IS_ERR(rows))
+        return __commit(x[0], ref, rows);
 
-        // Check that input doesn't have more columns than table
-        l = AS_LIST(lst)[0]->len;
-        if (l > p) {
-            drop_obj(obj);
-            return err_length(0, 0, 0, 0, 0, 0);
-        }
+    // All the keys are to be given
+    l = rows->len;
+    if (keys > l || AS_LIST(rows)[keys - 1] == NULL_OBJ) {
+        drop_obj(rows);
+        return __commit(x[0], ref, err_length(keys, l, 0, 0, 0, 0));
+    }
 
-        // Reorder columns to match table order (allows flexible column ordering)
-        res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res)) {
-            drop_obj(obj);
-            return res;
-        }
+    res = __own_columns(obj);
+    if (IS_ERR(res)) {
+        drop_obj(rows);
+        return __commit(x[0], ref, res);
+    }
 
-        lst = res;
-        lst_allocated = B8_TRUE;
+    // Lookup the keys
+    if (keys == 1) {
+        k1 = at_idx(AS_LIST(obj)[1], 0);
+        k2 = at_idx(rows, 0);
+    } else {
+        k1 = ray_take(AS_LIST(obj)[1], x[1]);
+        k2 = ray_take(rows, x[1]);
     }
 
-    switch (lst->type) {
-        case TYPE_LIST:
-            l = ops_count(lst);
-
-            if (l == 0)
-                UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-
-            if (l > p)
-                UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-
-            // Check if this is a single record (atoms) or multiple records (vectors)
-            if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Single record case - validate all elements are atoms or compatible
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        UPSERT_ERROR(err_type(0, 0, 0, 0));
-                    }
-                }
-
-                // Build key for lookup
-                if (keys == 1) {
-                    k1 = at_idx(AS_LIST(obj)[1], 0);
-                    k2 = clone_obj(AS_LIST(lst)[0]);
-                } else {
-                    k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                    k2 = ray_take(lst, x[1]);
-                }
-
-                idx = index_upsert_obj(k2, k1, x[1]->i64);
-
-                drop_obj(k1);
-                drop_obj(k2);
-
-                if (IS_ERR(idx))
-                    UPSERT_ERROR(idx);
-
-                row = AS_I64(idx)[0];
-                drop_obj(idx);
-
-                // Process each column
-                for (i = 0; i < p; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    if (col != AS_LIST(AS_LIST(obj)[1])[i]) {
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                        AS_LIST(AS_LIST(obj)[1])[i] = col;
-                    }
-
-                    // Insert record
-                    if (row == NULL_I64) {
-                        v = (i < l) ? clone_obj(AS_LIST(lst)[i]) : null(AS_LIST(AS_LIST(obj)[1])[i]->type);
-                        push_obj(AS_LIST(AS_LIST(obj)[1]) + i, v);
-                    }
-                    // Update record (skip keys since they match, and only update provided columns)
-                    else if (i >= keys && i < l) {
-                        set_idx(AS_LIST(AS_LIST(obj)[1]) + i, row, clone_obj(AS_LIST(lst)[i]));
-                    }
-                }
-
-                if (lst_allocated)
-                    drop_obj(lst);
-                return __commit(x[0], obj, val);
-            }
+    m = ops_count(AS_LIST(rows)[0]);
+    idx = index_upsert_obj(k2, k1, keys);
 
-            // Multiple records case - validate the list contains vectors
-            ll = AS_LIST(lst)[0]->len;
-            for (i = 0; i < l; i++) {
-                if (!IS_VECTOR(AS_LIST(lst)[i]))
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
+    drop_obj(k1);
+    drop_obj(k2);
 
-                if (AS_LIST(lst)[i]->len != ll)
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-            }
-
-            if (keys == 1) {
-                k1 = at_idx(AS_LIST(obj)[1], 0);
-                k2 = at_idx(lst, 0);
-                m = ops_count(k2);
-            } else {
-                k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                k2 = ray_take(lst, x[1]);
-                m = ops_count(AS_LIST(k2)[0]);
-            }
+    if (IS_ERR(idx)) {
+        drop_obj(rows);
+        return __commit(x[0], ref, idx);
+    }
 
-            idx = index_upsert_obj(k2, k1, x[1]->i64);
+    cols = AS_LIST(AS_LIST(obj)[1]);
+    ids = AS_I64(idx);
 
-            drop_obj(k1);
-            drop_obj(k2);
+    // Process each column
+    for (i = 0; i < l && !IS_ERR(res); i++) {
+        for (j = 0; j < m && !IS_ERR(res); j++) {
+            row = ids[j];
+            v = AS_LIST(rows)[i];
 
-            if (IS_ERR(idx))
-                UPSERT_ERROR(idx);
+            // Insert record
+            if (row == NULL_I64) {
+                v = (v == NULL_OBJ) ? __nulls(cols[i], 1) : v;
+                k1 = at_idx(v, (v == AS_LIST(rows)[i]) ? j : 0);
+                if (v != AS_LIST(rows)[i])
+                    drop_obj(v);
+                res = push_obj(&cols[i], k1);
+            }
+            // Update record (we can skip the keys since they are matches, and only update provided columns)
+            else if (i >= keys && v != NULL_OBJ)
+                res = set_idx(&cols[i], row, at_idx(v, j));
+        }
+    }
 
-            // Check all the elements of the list
-            for (i = 0; i < l; i++) {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
-                }
+    drop_obj(idx);
+    drop_obj(rows);
 
-                if (AS_LIST(lst)[i]->len != m) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-                }
-            }
+    return __commit(x[0], ref, res);
+}
 
-            rows = AS_I64(idx);
-
-            // Process each column
-            for (i = 0; i < p; i++) {
-                col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                if (col != AS_LIST(AS_LIST(obj)[1])[i]) {
-                    drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-
-                for (j = 0; j < m; j++) {
-                    row = rows[j];
-
-                    // Insert record
-                    if (row == NULL_I64) {
-                        v = (i < l) ? at_idx(AS_LIST(lst)[i], j) : null(AS_LIST(AS_LIST(obj)[1])[i]->type);
-                        push_obj(AS_LIST(AS_LIST(obj)[1]) + i, v);
-                    }
-                    // Update record (we can skip the keys since they are matches, and only update provided columns)
-                    else if (i >= keys && i < l) {
-                        v = at_idx(AS_LIST(lst)[i], j);
-                        set_idx(AS_LIST(AS_LIST(obj)[1]) + i, row, v);
-                    }
-                }
-            }
+/*
+ * Check the values to be stored into len rows of a column (of count rows)
+ */
+obj_p __check_update(obj_p col, obj_p val, i64_t len, i64_t count) {
+    i64_t l;
 
-            drop_obj(idx);
+    if (!__suitable_types(col, val))
+        return err_type(col->type, val->type, 0, 0);
 
-            if (lst_allocated)
-                drop_obj(lst);
-            return __commit(x[0], obj, val);
+    // A value for each of the rows, or for each row of the table: the first ones are used then
+    l = ops_count(val);
+    if (!IS_ATOM(val) && col->type != TYPE_LIST && l != len && l != count)
+        return err_length(len, l, 0, 0, 0, 0);
 
-        default:
-            UPSERT_ERROR(err_type(0, 0, 0, 0));
-    }
+    return NULL_OBJ;
 }
-#undef UPSERT_ERROR
 
 obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p groupby) {
-    i64_t i, l, m, n;
-    i64_t j, *ids;
-    obj_p prm, obj, *val = NULL, gids, v, col, index, res, original;
+    i64_t i, j, l, m, n, count;
+    i64_t *ids;
+    obj_p prm, obj, gids = NULL_OBJ, v, index, res, tmp, *cols, *ref;
 
     // No filters nor groupings
     if (filters == NULL_OBJ && groupby == NULL_OBJ) {
@@ -763,176 +656,102 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
 
         return obj;
     }
-    // Groupings
-    else if (groupby != NULL_OBJ) {
-        obj = __fetch(tab, &val, &original);
-        if (IS_ERR(obj)) {
-            drop_obj(tab);
-            drop_obj(keys);
-            drop_obj(vals);
-            drop_obj(filters);
-            drop_obj(groupby);
-
-            return obj;
-        }
 
-        l = keys->len;
+    res = __fetch(tab, &tmp, &ref);
+    if (IS_ERR(res))
+        goto cleanup;
+
+    obj = *ref;
+    if (obj->type != TYPE_TABLE) {
+        res = __commit(tab, ref, err_type(TYPE_TABLE, obj->type, 0, 0));
+        goto cleanup;
+    }
 
+    // Ids of the rows to update by groups (the only one is the filter if there are no groupings)
+    if (groupby != NULL_OBJ) {
         index = index_group(groupby, filters);
+        if (IS_ERR(index)) {
+            res = __commit(tab, ref, index);
+            goto cleanup;
+        }
         gids = aggr_row(groupby, index);
         drop_obj(index);
-        drop_obj(groupby);
-        n = gids->len;
-
-        // Check each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
-            else {
-                for (m = 0; m < n; m++) {
-                    v = at_idx(AS_LIST(vals)[i], m);
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], v)) {
-                        res = err_type(0, 0, 0, 0);
-                        drop_obj(v);
-                        drop_obj(tab);
-                        drop_obj(keys);
-                        drop_obj(vals);
-                        drop_obj(filters);
-                        drop_obj(gids);
-                        UNCOW_OBJ(obj, val, original, res);
-                    }
-
-                    if (!__suitable_lengths(AS_LIST(AS_LIST(obj)[1])[j], obj)) {
-                        res = err_length(0, 0, 0, 0, 0, 0);
-                        drop_obj(v);
-                        drop_obj(tab);
-                        drop_obj(keys);
-                        drop_obj(vals);
-                        drop_obj(filters);
-                        drop_obj(gids);
-                        UNCOW_OBJ(obj, val, original, res);
-                    }
-
-                    drop_obj(v);
-                }
-            }
-        }
-
-        // Cow each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-
-            col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-            if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
-                drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-                AS_LIST(AS_LIST(obj)[1])[j] = col;
-            }
-        }
-
-        // Update by groups
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-
-            for (m = 0; m < n; m++) {
-                ids = AS_I64(AS_LIST(gids)[m]);
-                set_ids(AS_LIST(AS_LIST(obj)[1]) + j, ids, AS_LIST(gids)[m]->len, at_idx(AS_LIST(vals)[i], m));
-            }
+        if (IS_ERR(gids)) {
+            res = __commit(tab, ref, gids);
+            gids = NULL_OBJ;
+            goto cleanup;
         }
+    } else
+        gids = vn_list(1, clone_obj(filters));
 
-        drop_obj(keys);
-        drop_obj(vals);
-        drop_obj(filters);
-        drop_obj(gids);
+    l = keys->len;
+    n = gids->len;
+    count = ops_count(obj);
 
-        res = __commit(tab, obj, val);
-        drop_obj(tab);
+    // Check each column
+    for (i = 0; i < l; i++) {
+        j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
-        return res;
-    }
-    // Filters
-    else {
-        obj = __fetch(tab, &val, &original);
-        if (IS_ERR(obj)) {
-            drop_obj(tab);
-            drop_obj(keys);
-            drop_obj(vals);
-            drop_obj(filters);
-
-            return obj;
+        // There is a value for every group
+        if (groupby != NULL_OBJ && !IS_ATOM(AS_LIST(vals)[i]) && ops_count(AS_LIST(vals)[i]) < n) {
+            res = __commit(tab, ref, err_length(n, ops_count(AS_LIST(vals)[i]), 0, 0, 0, 0));
+            goto cleanup;
         }
 
-        l = keys->len;
-
-        // Check each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-
-            // Add new column
+        for (m = 0; m < n; m++) {
+            v = (groupby == NULL_OBJ) ? clone_obj(AS_LIST(vals)[i]) : at_idx(AS_LIST(vals)[i], m);
             if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
-            else {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], AS_LIST(vals)[i])) {
-                    res = err_type(0, 0, 0, 0);
-                    drop_obj(tab);
-                    drop_obj(keys);
-                    drop_obj(vals);
-                    drop_obj(filters);
-                    UNCOW_OBJ(obj, val, original, res);
-                }
-
-                // When using filters, allow:
-                // 1. Scalars (atoms) - will be applied to all filtered rows
-                // 2. Vectors matching filter length - one value per filtered row
-                // 3. Vectors matching full table length - will use first filter->len elements
-                i64_t vals_len = ops_count(AS_LIST(vals)[i]);
-                if (!IS_ATOM(AS_LIST(vals)[i]) && vals_len != filters->len &&
-                    vals_len != AS_LIST(AS_LIST(obj)[1])[j]->len) {
-                    res = err_length(0, 0, 0, 0, 0, 0);
-                    drop_obj(tab);
-                    drop_obj(keys);
-                    drop_obj(vals);
-                    drop_obj(filters);
-                    UNCOW_OBJ(obj, val, original, res);
-                }
+                // Add new column
+                prm = nullv(AS_LIST(vals)[i]->type, 0);
+                res = __check_update(prm, v, AS_LIST(gids)[m]->len, count);
+                drop_obj(prm);
+            } else
+                res = __check_update(AS_LIST(AS_LIST(obj)[1])[j], v, AS_LIST(gids)[m]->len, count);
+            drop_obj(v);
+
+            if (IS_ERR(res)) {
+                res = __commit(tab, ref, res);
+                goto cleanup;
             }
         }
+    }
 
-        // Cow each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+    // Cow each column
+    res = __own_columns(obj);
+    if (!IS_ERR(res))
+        res = own_obj(&AS_LIST(obj)[0]);
 
-            col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-            if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
-                drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-                AS_LIST(AS_LIST(obj)[1])[j] = col;
-            }
+    for (i = 0; i < l && !IS_ERR(res); i++) {
+        j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+
+        if (j == NULL_I64) {
+            j = AS_LIST(obj)[0]->len;
+            push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
+            push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, count));
         }
 
-        ids = AS_I64(filters);
+        cols = AS_LIST(AS_LIST(obj)[1]);
 
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-            set_ids(AS_LIST(AS_LIST(obj)[1]) + j, ids, filters->len, at_idx(vals, i));
+        for (m = 0; m < n && !IS_ERR(res); m++) {
+            ids = AS_I64(AS_LIST(gids)[m]);
+            if (groupby != NULL_OBJ)
+                res = set_ids(&cols[j], ids, AS_LIST(gids)[m]->len, at_idx(AS_LIST(vals)[i], m));
+            else
+                res = set_each(&cols[j], ids, AS_LIST(gids)[m]->len, clone_obj(AS_LIST(vals)[i]));
         }
+    }
 
-        drop_obj(keys);
-        drop_obj(vals);
-        drop_obj(filters);
+    res = __commit(tab, ref, res);
 
-        res = __commit(tab, obj, val);
-        drop_obj(tab);
+cleanup:
+    drop_obj(gids);
+    drop_obj(tab);
+    drop_obj(keys);
+    drop_obj(vals);
+    drop_obj(filters);
+    drop_obj(groupby);
 
-        return res;
-    }
+    return res;
 }
 
 obj_p ray_update(obj_p obj) {
-- 
2.43.0


From 9c46690c181d31a8b9dfdb82ddd44e9b19f0c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 20/51] fix: applying functions to lists modified the lists'
 elements in place

---
 core/iter.c | 144 +++++++++++++++++++++++++---------------------------
 1 file changed, 68 insertions(+), 76 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index b6cbaed..370f83a 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -43,6 +43,17 @@ static obj_p concat_parts(obj_p parts) {
     return res;
 }
 
+// Apply a function to an element of a list: the list keeps its reference, so the element is not reused as a result
+static obj_p map_unary_item(unary_f fn, i64_t attrs, obj_p x) {
+    obj_p a, res;
+
+    a = clone_obj(x);
+    res = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+    drop_obj(a);
+
+    return res;
+}
+
 obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
     i64_t i, l;
     obj_p res, item, a, *v;
@@ -54,7 +65,7 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
                 return NULL_OBJ;
 
             v = AS_LIST(x);
-            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[0]) : fn(v[0]);
+            item = map_unary_item(fn, attrs, v[0]);
 
             if (IS_ERR(item))
                 return item;
@@ -63,7 +74,7 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
             ins_obj(&res, 0, item);
 
             for (i = 1; i < l; i++) {
-                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[i]) : fn(v[i]);
+                item = map_unary_item(fn, attrs, v[i]);
                 if (IS_ERR(item)) {
                     res->len = i;
                     drop_obj(res);
@@ -113,7 +124,7 @@ obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end)
     if (l == 0)
         return NULL_OBJ;
 
-    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start]) : fn(v[start]);
+    item = map_unary_item(fn, attrs, v[start]);
     if (IS_ERR(item))
         return item;
 
@@ -121,7 +132,7 @@ obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end)
     ins_obj(&res, 0, item);
 
     for (i = 1; i < l; i++) {
-        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start + i]) : fn(v[start + i]);
+        item = map_unary_item(fn, attrs, v[start + i]);
         if (IS_ERR(item)) {
             res->len = i;
             drop_obj(res);
@@ -307,14 +318,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        a = at_idx(x, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, a, b);
 
-        if (xt != TYPE_LIST)
-            drop_obj(a);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(a);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -324,14 +333,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            a = at_idx(x, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, a, b);
 
-            if (xt != TYPE_LIST)
-                drop_obj(a);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(a);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -349,10 +356,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             return fn(x, y);
         }
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
+        a = at_idx(x, 0);
         item = map_binary_fn(fn, attrs, a, y);
-        if (xt != TYPE_LIST)
-            drop_obj(a);
+        drop_obj(a);
 
         if (IS_ERR(item))
             return item;
@@ -362,10 +368,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
+            a = at_idx(x, i);
             item = map_binary_fn(fn, attrs, a, y);
-            if (xt != TYPE_LIST)
-                drop_obj(a);
+            drop_obj(a);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -382,10 +387,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, x, b);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -395,10 +399,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, x, b);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -883,26 +886,23 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x2 = at_idx(x[1], i);
                     acc = v;
                     v = binary_call(f, acc, x2);  // Use accumulated value as first argument
                     drop_obj(acc);
 
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -914,21 +914,19 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[1]);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
+                    x1 = at_idx(x[0], i);
                     acc = v;
                     v = binary_call(f, acc, x1);  // Use accumulated value as first argument
                     drop_obj(acc);
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    drop_obj(x1);
 
                     if (IS_ERR(v))
                         return v;
@@ -940,21 +938,19 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[0]);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x2 = at_idx(x[1], i);
                     acc = v;
                     v = binary_call(f, acc, x2);  // Use accumulated value as first argument
                     drop_obj(acc);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -1222,7 +1218,7 @@ obj_p ray_fold_right(obj_p *x, i64_t n) {
 
 obj_p ray_scan(obj_p *x, i64_t n) {
     i64_t i, j, l;
-    obj_p f, v, x1, x2, res;
+    obj_p f, v, x1, x2, acc, res;
     i8_t xt, yt;
 
     if (n < 2)
@@ -1253,14 +1249,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1269,14 +1263,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, x1, x2);
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1295,10 +1287,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
@@ -1307,10 +1298,11 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, x1, v);
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    x1 = at_idx(x[0], i);
+                    acc = clone_obj(v);  // the previous result belongs to res
+                    v = binary_call(f, x1, acc);
+                    drop_obj(acc);
+                    drop_obj(x1);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1329,10 +1321,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1341,10 +1332,11 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    x2 = at_idx(x[1], i);
+                    acc = clone_obj(v);  // the previous result belongs to res
+                    v = binary_call(f, acc, x2);
+                    drop_obj(acc);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
-- 
2.43.0


From f164a162b9a41fe3ba602d605be4592841085506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 21/51] fix: queries: filtered grouping by many columns,
 grouping columns of other lengths and types, update by many columns, null
 where/by

---
 core/compose.c  |  9 ++++++
 core/index.c    | 52 ++++++++++++++++++++++++++-----
 core/ops.c      |  2 ++
 core/query.c    | 27 +++++++++++++++--
 core/query.h    |  3 +-
 core/rayforce.c | 12 ++------
 core/update.c   | 81 +++++++++++++++++++++++++++----------------------
 7 files changed, 129 insertions(+), 57 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 58025bf..e478978 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -349,6 +349,15 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_MAPCOMMON:
                 AS_LIST(lst)[i] = ray_value(AS_LIST(y)[i]);
                 break;
+            case TYPE_LAMBDA:
+            case TYPE_DICT:
+            case TYPE_TABLE:
+                // no vectors of those: a list of the same value
+                c = LIST(cl);
+                for (j = 0; j < cl; j++)
+                    AS_LIST(c)[j] = clone_obj(AS_LIST(y)[i]);
+                AS_LIST(lst)[i] = c;
+                break;
             default:
                 AS_LIST(lst)[i] = clone_obj(AS_LIST(y)[i]);
         }
diff --git a/core/index.c b/core/index.c
index 3f57748..8ba524e 100644
--- a/core/index.c
+++ b/core/index.c
@@ -74,10 +74,11 @@ i64_t __index_list_cmp_row(i64_t row1, i64_t row2, raw_p seed) {
         rc = rcols[i];
         
         // Inline comparison for common i64 types (avoid ops_eq_idx call overhead)
-        switch (lc->type) {
+        switch ((lc->type == rc->type) ? lc->type : TYPE_NULL) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
+            case TYPE_F64:  // the same bits, as in hashes: nulls are equal
                 if (AS_I64(lc)[r1] != AS_I64(rc)[r2])
                     return 1;
                 break;
@@ -106,6 +107,7 @@ i64_t __index_list_cmp_row(i64_t row1, i64_t row2, raw_p seed) {
 
 obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len, i64_t offset, b8_t resolve) {
     u8_t *u8v;
+    i16_t *i16v;
     i32_t *i32v;
     guid_t *g64v;
     i64_t i, *u64v;
@@ -140,6 +142,11 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 for (i = offset; i < len + offset; i++)
                     out[i] = hash_index_u64((i64_t)u8v[i], out[i]);
             break;
+        case TYPE_I16:
+            i16v = AS_I16(obj);
+            for (i = offset; i < len + offset; i++)
+                out[i] = hash_index_u64((i64_t)i16v[filter ? filter[i] : i], out[i]);
+            break;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -2383,7 +2390,7 @@ obj_p index_group_list_perfect_partial(i64_t len, i64_t offset, __perfect_hash_c
 obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     u64_t i, l, len, product;
     i64_t *xo, *indices;
-    obj_p ht, res, *values, v;
+    obj_p ht, gids, res, *values, v;
     index_scope_t *scopes, scope;
     pool_p pool;
     i64_t chunks, base_chunk;
@@ -2391,14 +2398,13 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     l = obj->len;
     i64_t multipliers[l];
-    UNUSED(v);  // May be unused in single-threaded path
 
     if (l == 0)
         return NULL_OBJ;
 
     values = AS_LIST(obj);
     indices = is_null(filter) ? NULL : AS_I64(filter);
-    len = indices ? filter->len : values[0]->len;
+    len = indices ? (u64_t)filter->len : (u64_t)ops_count(values[0]);
 
     // First, check if columns types are suitable for perfect hashing
     for (i = 0; i < l; i++) {
@@ -2431,9 +2437,11 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
-            case TYPE_ENUM:
                 scopes[i] = index_scope_i64(AS_I64(values[i]), indices, len);
                 break;
+            case TYPE_ENUM:
+                scopes[i] = index_scope_i64(AS_I64(ENUM_VAL(values[i])), indices, len);
+                break;
             default:
                 __builtin_unreachable();
         }
@@ -2442,8 +2450,9 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     // Precompute multipliers for each column
     // Use signed max to avoid overflow in scope.range (which is i64_t)
     for (i = 0, product = 1, scope = (index_scope_t){0, 0, 0}; i < l; i++) {
-        // Check for overflow - product must stay within signed i64 range
-        if (product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
+        // Check for overflow - product must stay within signed i64 range (there is no range if there are no rows)
+        if (scopes[i].range <= 0 || scopes[i].range == INF_I64 ||
+            product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
             heap_free(scopes);
             return NULL_OBJ;  // Overflow would occur
         }
@@ -2493,6 +2502,25 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     heap_free(scopes);
     res = index_group_i64_scoped(ht, NULL_OBJ, scope);
+
+    // Keys are calculated for the filtered rows only: turn them into group ids, since there is no source to filter
+    if (indices) {
+        if (index_group_type(res) == INDEX_TYPE_SHIFT) {
+            i64_t *ids = index_group_ids(res), shift = index_group_shift(res);
+
+            gids = I64(len);
+            for (i = 0; i < len; i++)
+                AS_I64(gids)[i] = ids[xo[i] - shift];
+
+            v = index_group_build(INDEX_TYPE_IDS, index_group_count(res), gids, i64(NULL_I64), NULL_OBJ,
+                                  NULL_OBJ, clone_obj(index_group_meta(res)));
+            drop_obj(res);
+            res = v;
+        }
+
+        AS_LIST(res)[5] = clone_obj(filter);
+    }
+
     drop_obj(ht);
 
     return res;
@@ -2816,6 +2844,14 @@ obj_p index_group_list(obj_p obj, obj_p filter) {
     if (ops_count(obj) == 1)
         return index_group(AS_LIST(obj)[0], filter);
 
+    // Every column has a value for each of the rows
+    for (i = 0; i < ops_count(obj); i++) {
+        if (!IS_VECTOR(AS_LIST(obj)[i]) && AS_LIST(obj)[i]->type != TYPE_MAPLIST)
+            return err_type(TYPE_LIST, AS_LIST(obj)[i]->type, 0, 0);
+        if (ops_count(AS_LIST(obj)[i]) != ops_count(AS_LIST(obj)[0]))
+            return err_length(ops_count(AS_LIST(obj)[0]), ops_count(AS_LIST(obj)[i]), 0, 0, 0, 0);
+    }
+
     // If the list values range is small, use perfect hashing
     res = index_group_list_perfect(obj, filter);
     if (!is_null(res)) {
@@ -2825,7 +2861,7 @@ obj_p index_group_list(obj_p obj, obj_p filter) {
 
     values = AS_LIST(obj);
     indices = is_null(filter) ? NULL : AS_I64(filter);
-    len = indices ? filter->len : values[0]->len;
+    len = indices ? filter->len : ops_count(values[0]);
 
     pool = pool_get();
     parts = pool_split_by(pool, len, 0);
diff --git a/core/ops.c b/core/ops.c
index a859406..2ca00d2 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -118,6 +118,8 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_C8, TYPE_C8):
             return AS_U8(a)[ai] == AS_U8(b)[bi];
+        case MTYPE2(TYPE_I16, TYPE_I16):
+            return AS_I16(a)[ai] == AS_I16(b)[bi];
         case MTYPE2(TYPE_I32, TYPE_I32):
         case MTYPE2(TYPE_DATE, TYPE_DATE):
         case MTYPE2(TYPE_TIME, TYPE_TIME):
diff --git a/core/query.c b/core/query.c
index ef1aa97..e55015e 100644
--- a/core/query.c
+++ b/core/query.c
@@ -38,13 +38,34 @@
 
 obj_p remap_filter(obj_p tab, obj_p index) { return filter_map(tab, index); }
 
+/*
+ * Index of the rows of a table (only of the filtered ones, if there is a filter) grouped by one or many columns
+ */
+obj_p group_index(obj_p tab, obj_p cols, b8_t many, obj_p filter) {
+    i64_t count;
+    obj_p col;
+
+    if (many && (cols->type != TYPE_LIST || cols->len == 0))
+        return err_type(TYPE_LIST, cols->type, 0, 0);
+
+    // A value for each row of the table
+    col = many ? AS_LIST(cols)[0] : cols;
+    if (IS_VECTOR(col) || col->type == TYPE_MAPLIST) {
+        count = ops_count(tab);
+        if (ops_count(col) != count)
+            return err_length(count, ops_count(col), 0, 0, 0, 0);
+    }
+
+    return many ? index_group_list(cols, filter) : index_group(cols, filter);
+}
+
 obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_p ctx) {
     i64_t i, l, n, *first_ids, *filter_ids;
     obj_p index, v, lst, res, src_col;
 
     switch (gkeys->type) {
         case -TYPE_SYMBOL:
-            index = index_group(cols, ctx->filter);
+            index = group_index(ctx->table, cols, B8_FALSE, ctx->filter);
             timeit_tick("build index");
 
             if (IS_ERR(index))
@@ -91,7 +112,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
 
             return res;
         case TYPE_SYMBOL:
-            index = index_group_list(cols, ctx->filter);
+            index = group_index(ctx->table, cols, B8_TRUE, ctx->filter);
             timeit_tick("build compound index");
 
             if (IS_ERR(index))
@@ -128,6 +149,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
 
                     if (IS_ERR(v)) {
                         lst->len = i;
+                        drop_obj(lst);
                         drop_obj(res);
                         drop_obj(index);
                         if (!is_null(actual_ids)) drop_obj(actual_ids);
@@ -145,6 +167,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
 
                     if (IS_ERR(v)) {
                         lst->len = i;
+                        drop_obj(lst);
                         drop_obj(res);
                         drop_obj(index);
                         return v;
diff --git a/core/query.h b/core/query.h
index 49cf1e5..3d3b532 100644
--- a/core/query.h
+++ b/core/query.h
@@ -42,7 +42,8 @@ typedef struct query_ctx_t {
 nil_t query_ctx_init(query_ctx_p ctx);
 nil_t query_ctx_destroy(query_ctx_p ctx);
 
-obj_p get_fields(obj_p obj);
+obj_p get_gvals(obj_p obj);
+obj_p group_index(obj_p tab, obj_p cols, b8_t many, obj_p filter);
 obj_p remap_filter(obj_p x, obj_p y);
 obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_p ctx);
 obj_p ray_select(obj_p obj);
diff --git a/core/rayforce.c b/core/rayforce.c
index 046eca3..66201a3 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1895,17 +1895,9 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
             }
 
             ids = find_obj_ids(AS_LIST(*obj)[0], idx);
-            if (IS_ERR(ids)) {
+            if (IS_ERR(ids) || ids == NULL_OBJ) {
                 drop_obj(val);
-                return ids;
-            }
-
-            for (i = 0; i < n; i++) {
-                if (AS_I64(ids)[i] == NULL_I64) {
-                    drop_obj(ids);
-                    drop_obj(val);
-                    return err_value(0);
-                }
+                return (ids == NULL_OBJ) ? err_value(0) : ids;
             }
 
             res = set_each(&AS_LIST(*obj)[1], AS_I64(ids), n, val);
diff --git a/core/update.c b/core/update.c
index 5329f51..b0ec642 100644
--- a/core/update.c
+++ b/core/update.c
@@ -632,7 +632,8 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 obj_p __check_update(obj_p col, obj_p val, i64_t len, i64_t count) {
     i64_t l;
 
-    if (!__suitable_types(col, val))
+    // Functions, tables and such are not values of columns
+    if ((!IS_ATOM(val) && !IS_VECTOR(val)) || !__suitable_types(col, val))
         return err_type(col->type, val->type, 0, 0);
 
     // A value for each of the rows, or for each row of the table: the first ones are used then
@@ -643,13 +644,16 @@ obj_p __check_update(obj_p col, obj_p val, i64_t len, i64_t count) {
     return NULL_OBJ;
 }
 
-obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p groupby) {
+/*
+ * Update columns of a table: groups is a list of the ids of rows by groups, if there are groupings
+ */
+obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p groups) {
     i64_t i, j, l, m, n, count;
     i64_t *ids;
-    obj_p prm, obj, gids = NULL_OBJ, v, index, res, tmp, *cols, *ref;
+    obj_p prm, obj, gids, v, res, tmp, *cols, *ref;
 
     // No filters nor groupings
-    if (filters == NULL_OBJ && groupby == NULL_OBJ) {
+    if (filters == NULL_OBJ && groups == NULL_OBJ) {
         prm = vn_list(4, tab, env_get_internal_function_by_id(SYMBOL_SET), keys, vals);
         obj = ray_alter(AS_LIST(prm), prm->len);
         drop_obj(prm);
@@ -657,6 +661,9 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         return obj;
     }
 
+    // Ids of the rows to update by groups (the only one is the filter if there are no groupings)
+    gids = (groups != NULL_OBJ) ? clone_obj(groups) : vn_list(1, clone_obj(filters));
+
     res = __fetch(tab, &tmp, &ref);
     if (IS_ERR(res))
         goto cleanup;
@@ -667,23 +674,6 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         goto cleanup;
     }
 
-    // Ids of the rows to update by groups (the only one is the filter if there are no groupings)
-    if (groupby != NULL_OBJ) {
-        index = index_group(groupby, filters);
-        if (IS_ERR(index)) {
-            res = __commit(tab, ref, index);
-            goto cleanup;
-        }
-        gids = aggr_row(groupby, index);
-        drop_obj(index);
-        if (IS_ERR(gids)) {
-            res = __commit(tab, ref, gids);
-            gids = NULL_OBJ;
-            goto cleanup;
-        }
-    } else
-        gids = vn_list(1, clone_obj(filters));
-
     l = keys->len;
     n = gids->len;
     count = ops_count(obj);
@@ -693,13 +683,13 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
         // There is a value for every group
-        if (groupby != NULL_OBJ && !IS_ATOM(AS_LIST(vals)[i]) && ops_count(AS_LIST(vals)[i]) < n) {
+        if (groups != NULL_OBJ && !IS_ATOM(AS_LIST(vals)[i]) && ops_count(AS_LIST(vals)[i]) < n) {
             res = __commit(tab, ref, err_length(n, ops_count(AS_LIST(vals)[i]), 0, 0, 0, 0));
             goto cleanup;
         }
 
         for (m = 0; m < n; m++) {
-            v = (groupby == NULL_OBJ) ? clone_obj(AS_LIST(vals)[i]) : at_idx(AS_LIST(vals)[i], m);
+            v = (groups == NULL_OBJ) ? clone_obj(AS_LIST(vals)[i]) : at_idx(AS_LIST(vals)[i], m);
             if (j == NULL_I64) {
                 // Add new column
                 prm = nullv(AS_LIST(vals)[i]->type, 0);
@@ -720,6 +710,8 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
     res = __own_columns(obj);
     if (!IS_ERR(res))
         res = own_obj(&AS_LIST(obj)[0]);
+    if (!IS_ERR(res))
+        res = NULL_OBJ;
 
     for (i = 0; i < l && !IS_ERR(res); i++) {
         j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
@@ -734,7 +726,7 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
 
         for (m = 0; m < n && !IS_ERR(res); m++) {
             ids = AS_I64(AS_LIST(gids)[m]);
-            if (groupby != NULL_OBJ)
+            if (groups != NULL_OBJ)
                 res = set_ids(&cols[j], ids, AS_LIST(gids)[m]->len, at_idx(AS_LIST(vals)[i], m));
             else
                 res = set_each(&cols[j], ids, AS_LIST(gids)[m]->len, clone_obj(AS_LIST(vals)[i]));
@@ -749,15 +741,15 @@ cleanup:
     drop_obj(keys);
     drop_obj(vals);
     drop_obj(filters);
-    drop_obj(groupby);
+    drop_obj(groups);
 
     return res;
 }
 
 obj_p ray_update(obj_p obj) {
     i64_t i, keyslen;
-    obj_p tabsym, keys = NULL_OBJ, vals = NULL_OBJ, filters = NULL_OBJ, bins = NULL_OBJ, groupby = NULL_OBJ, tab, sym,
-                  prm, val, res;
+    obj_p tabsym, keys = NULL_OBJ, vals = NULL_OBJ, filters = NULL_OBJ, groups = NULL_OBJ, bins, groupby, tab, sym, prm,
+          val, res;
     struct query_ctx_t ctx;
 
     if (obj->type != TYPE_DICT)
@@ -826,29 +818,46 @@ obj_p ray_update(obj_p obj) {
             filters = NULL_OBJ;
             goto cleanup;
         }
+
+        if (filters->type != TYPE_I64) {
+            res = err_type(TYPE_I64, filters->type, 0, 0);
+            goto cleanup;
+        }
     }
 
     // Apply groupping
     prm = at_sym(obj, "by", 2);
     if (prm != NULL_OBJ) {
-        groupby = eval(prm);
+        groupby = get_gvals(prm);
+        i = (prm->type == TYPE_DICT) ? ops_count(AS_LIST(prm)[1]) : 1;
         drop_obj(prm);
 
         if (IS_ERR(groupby)) {
             res = groupby;
-            groupby = NULL_OBJ;
             goto cleanup;
         }
 
-        bins = index_group(groupby, filters);
-        prm = group_map(tab, bins);
-        drop_obj(bins);
+        bins = group_index(tab, groupby, i > 1, filters);
+        drop_obj(groupby);
+
+        if (IS_ERR(bins)) {
+            res = bins;
+            goto cleanup;
+        }
 
-        if (IS_ERR(prm)) {
-            res = prm;
+        if (index_group_type(bins) == INDEX_TYPE_PARTEDCOMMON) {
+            drop_obj(bins);
+            res = err_type(TYPE_LIST, TYPE_MAPCOMMON, 0, 0);
             goto cleanup;
         }
 
+        prm = I64(0);
+        groups = aggr_row(prm, bins);
+        drop_obj(prm);
+
+        prm = group_map(tab, bins);
+        drop_obj(bins);
+
         // Replace table with grouped table for column resolution
         ctx.table = prm;
     } else if (filters != NULL_OBJ) {
@@ -910,7 +919,7 @@ obj_p ray_update(obj_p obj) {
     query_ctx_destroy(&ctx);
 
     // This one will take care of dropping all the arguments
-    return __update_table(tabsym, keys, vals, filters, groupby);
+    return __update_table(tabsym, keys, vals, filters, groups);
 
 cleanup:
     if (ctx.table != tab && ctx.table != NULL_OBJ)
@@ -922,6 +931,6 @@ cleanup:
     drop_obj(keys);
     drop_obj(vals);
     drop_obj(filters);
-    drop_obj(groupby);
+    drop_obj(groups);
     return res;
 }
-- 
2.43.0


From adc7627889b5ce9e19a1742097801fee9ee15c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 22/51] fix: first of enums by groups, keys of lists and
 records of other types, functions as values of updated columns

---
 core/aggr.c   |  2 +-
 core/ops.c    | 10 +++++++++-
 core/update.c | 17 ++++++++++++++---
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index e876b48..95ad64f 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -513,7 +513,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 return res;
             }
             case TYPE_ENUM: {
-                i64_t *in = AS_I64(val);
+                i64_t *in = AS_I64(ENUM_VAL(val));
                 res = I64(n);
                 i64_t *out = AS_I64(res);
                 if (filter_ids) {
diff --git a/core/ops.c b/core/ops.c
index 2ca00d2..51b996f 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -164,7 +164,15 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
             drop_obj(rv);
             return eq;
         default:
-            PANIC("type: %d", a->type);
+            // vectors of different types: compare values
+            if (a->type < 0 || b->type < 0)
+                return B8_FALSE;
+            lv = at_idx(a, ai);
+            rv = at_idx(b, bi);
+            eq = cmp_obj(lv, rv) == 0;
+            drop_obj(lv);
+            drop_obj(rv);
+            return eq;
     }
 }
 
diff --git a/core/update.c b/core/update.c
index b0ec642..a90f954 100644
--- a/core/update.c
+++ b/core/update.c
@@ -148,9 +148,15 @@ obj_p __conform(obj_p col, obj_p val, b8_t single, i64_t len) {
             return v;
     }
 
-    if (t == v->type || t == TYPE_LIST)
+    if (t == v->type)
         return v;
 
+    if (t == TYPE_LIST) {
+        res = ray_diverse(v);
+        drop_obj(v);
+        return res;
+    }
+
     if (!__suitable_types(col, v) || v->type != TYPE_F64) {
         res = err_type(t, v->type, 0, 0);
         drop_obj(v);
@@ -632,8 +638,7 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 obj_p __check_update(obj_p col, obj_p val, i64_t len, i64_t count) {
     i64_t l;
 
-    // Functions, tables and such are not values of columns
-    if ((!IS_ATOM(val) && !IS_VECTOR(val)) || !__suitable_types(col, val))
+    if (!__suitable_types(col, val))
         return err_type(col->type, val->type, 0, 0);
 
     // A value for each of the rows, or for each row of the table: the first ones are used then
@@ -682,6 +687,12 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
     for (i = 0; i < l; i++) {
         j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
+        // Functions, tables and such are not values of columns
+        if (!IS_ATOM(AS_LIST(vals)[i]) && !IS_VECTOR(AS_LIST(vals)[i])) {
+            res = __commit(tab, ref, err_type(TYPE_LIST, AS_LIST(vals)[i]->type, 0, 0));
+            goto cleanup;
+        }
+
         // There is a value for every group
         if (groups != NULL_OBJ && !IS_ATOM(AS_LIST(vals)[i]) && ops_count(AS_LIST(vals)[i]) < n) {
             res = __commit(tab, ref, err_length(n, ops_count(AS_LIST(vals)[i]), 0, 0, 0, 0));
-- 
2.43.0


From 81f9871292dc0ad2567abd131013f3ae8875cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 23/51] fix: comparisons with enums, mixed lists, and of dates
 with timestamps

---
 core/cmp.c | 311 ++++++++++++++++++++++++-----------------------------
 1 file changed, 138 insertions(+), 173 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..a42060c 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -32,6 +32,11 @@
 
 typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
 
+// Symbol an enum element stands for
+static inline i64_t enum_sym(obj_p domain, i64_t idx) {
+    return (idx >= 0 && idx < domain->len) ? AS_I64(domain)[idx] : NULL_I64;
+}
+
 #define __CMP_A_V(x, y, lt, rt, mt, op, ln, of, ov)                              \
     ({                                                                           \
         __BASE_##rt##_t *$rhs;                                                   \
@@ -241,7 +246,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, f64, f64, f64, op##F64, len, offset, res);              \
                                                                                                \
             case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):                                          \
-                return b8(op##F64(date_to_timestamp(x->i32), y->i64));                         \
+                return b8(op##I64(date_to_timestamp(x->i32), y->i64));                         \
             case MTYPE2(-TYPE_DATE, TYPE_TIMESTAMP):                                           \
                 return __CMP_A_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_DATE, -TYPE_TIMESTAMP):                                           \
@@ -249,7 +254,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_DATE, TYPE_TIMESTAMP):                                            \
                 return __CMP_V_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):                                          \
-                return b8(op##F64(x->i64, date_to_timestamp(y->i32)));                         \
+                return b8(op##I64(x->i64, date_to_timestamp(y->i32)));                         \
             case MTYPE2(-TYPE_TIMESTAMP, TYPE_DATE):                                           \
                 return __CMP_A_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_TIMESTAMP, -TYPE_DATE):                                           \
@@ -266,22 +271,19 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                                                                                                \
                 if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
                     drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
+                    return err_type(0, 0, 0, 0);                                               \
                 }                                                                              \
                                                                                                \
-                xi = AS_I64(sym);                                                              \
                 ei = AS_I64(e) + offset;                                                       \
                 si = y->i64;                                                                   \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
+                    out[i] = op##I64(enum_sym(sym, ei[i]), si);                                \
                                                                                                \
                 drop_obj(sym);                                                                 \
                 return res;                                                                    \
             case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
                 k = ray_key(y);                                                                \
                 sym = ray_get(k);                                                              \
                 drop_obj(k);                                                                   \
@@ -290,21 +292,60 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                                                                                                \
                 if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
                     drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
+                    return err_type(0, 0, 0, 0);                                               \
+                }                                                                              \
+                                                                                               \
+                ei = AS_I64(e) + offset;                                                       \
+                si = x->i64;                                                                   \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##I64(si, enum_sym(sym, ei[i]));                                \
+                                                                                               \
+                drop_obj(sym);                                                                 \
+                return res;                                                                    \
+            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
+                k = ray_key(x);                                                                \
+                sym = ray_get(k);                                                              \
+                drop_obj(k);                                                                   \
+                                                                                               \
+                e = ENUM_VAL(x);                                                               \
+                                                                                               \
+                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
+                    drop_obj(sym);                                                             \
+                    return err_type(0, 0, 0, 0);                                               \
                 }                                                                              \
                                                                                                \
-                xi = AS_I64(x);                                                                \
                 ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
+                xi = AS_I64(y) + offset;                                                       \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
+                    out[i] = op##I64(enum_sym(sym, ei[i]), xi[i]);                             \
                                                                                                \
                 drop_obj(sym);                                                                 \
                 return res;                                                                    \
             case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
+                k = ray_key(y);                                                                \
+                sym = ray_get(k);                                                              \
+                drop_obj(k);                                                                   \
+                                                                                               \
+                e = ENUM_VAL(y);                                                               \
+                                                                                               \
+                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
+                    drop_obj(sym);                                                             \
+                    return err_type(0, 0, 0, 0);                                               \
+                }                                                                              \
+                                                                                               \
+                ei = AS_I64(e) + offset;                                                       \
+                xi = AS_I64(x) + offset;                                                       \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##I64(xi[i], enum_sym(sym, ei[i]));                             \
+                                                                                               \
+                drop_obj(sym);                                                                 \
+                return res;                                                                    \
                                                                                                \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
@@ -332,6 +373,58 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
         }                                                                                      \
     }
 
+// Typed vector of a list all of whose elements are atoms of the given (I64 or F64) type, or null
+static obj_p list_as_vector(obj_p x, i8_t type) {
+    i64_t i, l;
+    obj_p vec;
+
+    if (type != -TYPE_I64 && type != -TYPE_F64)
+        return NULL_OBJ;
+
+    l = x->len;
+    if (l == 0)
+        return NULL_OBJ;
+
+    for (i = 0; i < l; i++)
+        if (AS_LIST(x)[i]->type != type)
+            return NULL_OBJ;
+
+    vec = vector(-type, l);
+    for (i = 0; i < l; i++) {
+        if (type == -TYPE_I64)
+            AS_I64(vec)[i] = AS_LIST(x)[i]->i64;
+        else
+            AS_F64(vec)[i] = AS_LIST(x)[i]->f64;
+    }
+
+    return vec;
+}
+
+// The same for a lazy list, without materializing its elements
+static obj_p maplist_as_vector(obj_p x, i8_t type) {
+    i64_t i, l, *offsets;
+    obj_p vec, key;
+
+    if (type != -TYPE_I64 && type != -TYPE_F64)
+        return NULL_OBJ;
+
+    key = MAPLIST_KEY(x);
+    offsets = AS_I64(MAPLIST_VAL(x));
+    l = MAPLIST_VAL(x)->len;
+    if (l == 0)
+        return NULL_OBJ;
+
+    for (i = 0; i < l; i++)
+        if (offsets[i] < 0 || offsets[i] + 1 + ISIZEOF(i64_t) > key->len || (i8_t)AS_U8(key)[offsets[i]] != type)
+            return NULL_OBJ;
+
+    vec = vector(-type, l);
+    for (i = 0; i < l; i++)
+        memcpy(AS_I64(vec) + i, AS_U8(key) + offsets[i] + 1, sizeof(i64_t));
+
+    return vec;
+}
+
 obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     pool_p pool = runtime_get()->pool;
     i64_t i, l, n;
@@ -359,7 +452,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
@@ -378,108 +471,19 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
 
     // Handle TYPE_MAPLIST (lazy list type)
     // Optimization: for MAPLIST comparison with atom, avoid full materialization
-    if (x->type == TYPE_MAPLIST && IS_ATOM(y) && y->type < 0) {
-        obj_p key = MAPLIST_KEY(x);
-        obj_p offsets = MAPLIST_VAL(x);
-        l = offsets->len;
-
-        // Check the type of the first element
-        if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
-
-            // If MAPLIST contains i64 atoms, extract directly to typed vector
-            if (elem_type == -TYPE_I64 && y->type == -TYPE_I64) {
-                obj_p vec = I64(l);
-                for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
-                        memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
-                    } else {
-                        AS_I64(vec)[i] = NULL_I64;
-                    }
-                }
-                res = cmp_map(op, vec, y);
-                drop_obj(vec);
-                return res;
-            }
-            // If MAPLIST contains f64 atoms, extract directly to typed vector
-            if (elem_type == -TYPE_F64 && y->type == -TYPE_F64) {
-                obj_p vec = F64(l);
-                for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
-                        memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
-                    } else {
-                        AS_F64(vec)[i] = NULL_F64;
-                    }
-                }
-                res = cmp_map(op, vec, y);
-                drop_obj(vec);
-                return res;
-            }
-        }
-        // Fall back to full materialization for other types
-        v = ray_value(x);
-        if (IS_ERR(v))
-            return v;
-        res = cmp_map(op, v, y);
-        drop_obj(v);
-        return res;
-    }
     if (x->type == TYPE_MAPLIST) {
-        v = ray_value(x);
+        v = IS_ATOM(y) ? maplist_as_vector(x, y->type) : NULL_OBJ;
+        if (v == NULL_OBJ)
+            v = ray_value(x);
         if (IS_ERR(v))
             return v;
         res = cmp_map(op, v, y);
         drop_obj(v);
         return res;
-    } else if (y->type == TYPE_MAPLIST && IS_ATOM(x) && x->type < 0) {
-        obj_p key = MAPLIST_KEY(y);
-        obj_p offsets = MAPLIST_VAL(y);
-        l = offsets->len;
-
-        if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
-
-            if (elem_type == -TYPE_I64 && x->type == -TYPE_I64) {
-                obj_p vec = I64(l);
-                for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
-                        memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
-                    } else {
-                        AS_I64(vec)[i] = NULL_I64;
-                    }
-                }
-                res = cmp_map(op, x, vec);
-                drop_obj(vec);
-                return res;
-            }
-            if (elem_type == -TYPE_F64 && x->type == -TYPE_F64) {
-                obj_p vec = F64(l);
-                for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
-                        memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
-                    } else {
-                        AS_F64(vec)[i] = NULL_F64;
-                    }
-                }
-                res = cmp_map(op, x, vec);
-                drop_obj(vec);
-                return res;
-            }
-        }
-        v = ray_value(y);
-        if (IS_ERR(v))
-            return v;
-        res = cmp_map(op, x, v);
-        drop_obj(v);
-        return res;
     } else if (y->type == TYPE_MAPLIST) {
-        v = ray_value(y);
+        v = IS_ATOM(x) ? maplist_as_vector(y, x->type) : NULL_OBJ;
+        if (v == NULL_OBJ)
+            v = ray_value(y);
         if (IS_ERR(v))
             return v;
         res = cmp_map(op, x, v);
@@ -489,38 +493,12 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
 
     // Handle TYPE_LIST (compare each element) - return TYPE_B8 vector
     // Optimization: if comparing with atom and list contains homogeneous atoms, convert to typed vector
-    if (x->type == TYPE_LIST && x->len > 0 && IS_ATOM(y) && y->type < 0) {
-        l = x->len;
-        obj_p first = AS_LIST(x)[0];
-        // Check if first element is an atom of same base type as y (or both numeric)
-        if (first != NULL_OBJ && first->type < 0) {
-            i8_t elem_type = -first->type;
-            i8_t y_type = -y->type;
-
-            // If element type matches y type, extract to typed vector and compare
-            if (elem_type == y_type || (elem_type == TYPE_I64 && y_type == TYPE_I64) ||
-                (elem_type == TYPE_F64 && y_type == TYPE_F64)) {
-                // Create typed vector from list elements
-                if (elem_type == TYPE_I64) {
-                    obj_p vec = I64(l);
-                    for (i = 0; i < l; i++) {
-                        obj_p elem = AS_LIST(x)[i];
-                        AS_I64(vec)[i] = (elem != NULL_OBJ && elem->type == -TYPE_I64) ? elem->i64 : NULL_I64;
-                    }
-                    res = cmp_map(op, vec, y);
-                    drop_obj(vec);
-                    return res;
-                } else if (elem_type == TYPE_F64) {
-                    obj_p vec = F64(l);
-                    for (i = 0; i < l; i++) {
-                        obj_p elem = AS_LIST(x)[i];
-                        AS_F64(vec)[i] = (elem != NULL_OBJ && elem->type == -TYPE_F64) ? elem->f64 : NULL_F64;
-                    }
-                    res = cmp_map(op, vec, y);
-                    drop_obj(vec);
-                    return res;
-                }
-            }
+    if (x->type == TYPE_LIST && IS_ATOM(y) && y->type < 0) {
+        v = list_as_vector(x, y->type);
+        if (v != NULL_OBJ) {
+            res = cmp_map(op, v, y);
+            drop_obj(v);
+            return res;
         }
         // Fall through to element-by-element comparison
     }
@@ -538,35 +516,12 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             drop_obj(v);
         }
         return res;
-    } else if (y->type == TYPE_LIST && y->len > 0 && IS_ATOM(x) && x->type < 0) {
-        l = y->len;
-        obj_p first = AS_LIST(y)[0];
-        if (first != NULL_OBJ && first->type < 0) {
-            i8_t elem_type = -first->type;
-            i8_t x_type = -x->type;
-
-            if (elem_type == x_type || (elem_type == TYPE_I64 && x_type == TYPE_I64) ||
-                (elem_type == TYPE_F64 && x_type == TYPE_F64)) {
-                if (elem_type == TYPE_I64) {
-                    obj_p vec = I64(l);
-                    for (i = 0; i < l; i++) {
-                        obj_p elem = AS_LIST(y)[i];
-                        AS_I64(vec)[i] = (elem != NULL_OBJ && elem->type == -TYPE_I64) ? elem->i64 : NULL_I64;
-                    }
-                    res = cmp_map(op, x, vec);
-                    drop_obj(vec);
-                    return res;
-                } else if (elem_type == TYPE_F64) {
-                    obj_p vec = F64(l);
-                    for (i = 0; i < l; i++) {
-                        obj_p elem = AS_LIST(y)[i];
-                        AS_F64(vec)[i] = (elem != NULL_OBJ && elem->type == -TYPE_F64) ? elem->f64 : NULL_F64;
-                    }
-                    res = cmp_map(op, x, vec);
-                    drop_obj(vec);
-                    return res;
-                }
-            }
+    } else if (y->type == TYPE_LIST && IS_ATOM(x) && x->type < 0) {
+        v = list_as_vector(y, x->type);
+        if (v != NULL_OBJ) {
+            res = cmp_map(op, x, v);
+            drop_obj(v);
+            return res;
         }
     }
     if (y->type == TYPE_LIST) {
@@ -631,14 +586,24 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     }
 
     if (IS_VECTOR(x) && IS_VECTOR(y)) {
-        if (x->len != y->len)
+        l = ops_count(x);
+
+        if (l != ops_count(y))
             return err_length(0, 0, 0, 0, 0, 0);
 
-        l = x->len;
+        // enums may be of different domains
+        if (x->type == TYPE_ENUM && y->type == TYPE_ENUM) {
+            v = ray_value(y);
+            if (IS_ERR(v))
+                return v;
+            res = cmp_map(op, x, v);
+            drop_obj(v);
+            return res;
+        }
     } else if (IS_VECTOR(x))
-        l = x->len;
+        l = ops_count(x);
     else if (IS_VECTOR(y))
-        l = y->len;
+        l = ops_count(y);
     else {
         return cmp_fn(x, y, 1, 0, NULL_OBJ);
     }
-- 
2.43.0


From d2c8637402b95ecc295ac2d60b4e1a27cda0ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 24/51] fix: find, take and raze of enums, elements of lazy
 lists

---
 core/compose.c  |  12 +++---
 core/items.c    | 100 ++++++++++++++++++++++++------------------------
 core/rayforce.c |   4 +-
 3 files changed, 60 insertions(+), 56 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index e478978..087ca45 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1170,6 +1170,10 @@ obj_p ray_raze(obj_p x) {
     type = v[0]->type;
     total = v[0]->len;
 
+    // elements of enums are not in the enum object itself
+    if (type == TYPE_ENUM)
+        all_same_vectors = 0;
+
     for (i = 1; i < n && all_same_vectors; i++) {
         if (v[i]->type != type)
             all_same_vectors = 0;
@@ -1193,10 +1197,8 @@ obj_p ray_raze(obj_p x) {
     // Slow path: flatten to LIST of atoms, then unify
     total = 0;
     for (i = 0; i < n; i++) {
-        if (v[i]->type == TYPE_LIST)
-            total += v[i]->len;
-        else if (IS_VECTOR(v[i]))
-            total += v[i]->len;
+        if (IS_VECTOR(v[i]))
+            total += ops_count(v[i]);
         else
             total++;
     }
@@ -1208,7 +1210,7 @@ obj_p ray_raze(obj_p x) {
             for (j = 0; j < v[i]->len; j++)
                 AS_LIST(res)[off++] = clone_obj(AS_LIST(v[i])[j]);
         } else if (IS_VECTOR(v[i])) {
-            for (j = 0; j < v[i]->len; j++)
+            for (j = 0; j < ops_count(v[i]); j++)
                 AS_LIST(res)[off++] = at_idx(v[i], j);
         } else {
             AS_LIST(res)[off++] = clone_obj(v[i]);
diff --git a/core/items.c b/core/items.c
index 0e45fcd..5c3c4c4 100644
--- a/core/items.c
+++ b/core/items.c
@@ -71,10 +71,21 @@ static inline obj_p at_vec_f64_by_i64(obj_p x, obj_p y) {
     return res;
 }
 
+// Element of a lazy list stored at the offset
+static obj_p maplist_at(obj_p key, i64_t offset) {
+    i64_t size;
+
+    if (offset < 0 || offset >= key->len)
+        return err_index(offset, key->len, 0, 0);
+
+    size = key->len - offset;
+
+    return de_raw(AS_U8(key) + offset, &size);
+}
+
 obj_p ray_at(obj_p x, obj_p y) {
-    i64_t i, j, yl, xl, n, size;
+    i64_t i, j, yl, xl, n;
     obj_p res, k, s, v, cols;
-    u8_t *buf;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_I64):
@@ -187,7 +198,7 @@ obj_p ray_at(obj_p x, obj_p y) {
 
             v = ENUM_VAL(x);
 
-            if (y->i64 >= (i64_t)v->len) {
+            if (y->i64 < 0 || y->i64 >= (i64_t)v->len) {
                 drop_obj(s);
                 return err_index(y->i64, v->len, 0, 0);
             }
@@ -243,10 +254,17 @@ obj_p ray_at(obj_p x, obj_p y) {
             res = SYMBOL(yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(v)[i] >= (i64_t)xl) {
+                j = AS_I64(y)[i];
+                if (j < 0 || j >= n) {
                     drop_obj(s);
                     drop_obj(res);
-                    return err_index(AS_I64(v)[i], xl, 0, 0);
+                    return err_index(j, n, 0, 0);
+                }
+
+                if (AS_I64(v)[j] < 0 || AS_I64(v)[j] >= (i64_t)xl) {
+                    drop_obj(s);
+                    drop_obj(res);
+                    return err_index(AS_I64(v)[j], xl, 0, 0);
                 }
 
                 AS_SYMBOL(res)[i] = AS_SYMBOL(s)[AS_I64(v)[AS_I64(y)[i]]];
@@ -260,36 +278,36 @@ obj_p ray_at(obj_p x, obj_p y) {
             k = MAPLIST_KEY(x);
             v = MAPLIST_VAL(x);
 
-            xl = k->len;
-            yl = v->len;
-
-            if (y->i64 >= (i64_t)v->len)
+            if (y->i64 < 0 || y->i64 >= (i64_t)v->len)
                 return err_index(y->i64, v->len, 0, 0);
 
-            buf = AS_U8(k) + AS_I64(v)[y->i64];
-
-            return de_raw(buf, &xl);
+            return maplist_at(k, AS_I64(v)[y->i64]);
 
         case MTYPE2(TYPE_MAPLIST, TYPE_I64):
             k = MAPLIST_KEY(x);
             v = MAPLIST_VAL(x);
 
-            size = k->len;
-
             n = v->len;
             yl = y->len;
 
             res = vector(TYPE_LIST, yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)n) {
+                j = AS_I64(y)[i];
+                if (j < 0 || j >= n) {
+                    res->len = i;
+                    drop_obj(res);
+                    return err_index(j, n, 0, 0);
+                }
+
+                cols = maplist_at(k, AS_I64(v)[j]);
+                if (IS_ERR(cols)) {
                     res->len = i;
                     drop_obj(res);
-                    return err_index(AS_I64(y)[i], n, 0, 0);
+                    return cols;
                 }
 
-                buf = AS_U8(k) + AS_I64(v)[AS_I64(y)[i]];
-                AS_LIST(res)[i] = de_raw(buf, &size);
+                AS_LIST(res)[i] = cols;
             }
 
             return res;
@@ -322,7 +340,7 @@ obj_p ray_find(obj_p x, obj_p y) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_TIMESTAMP):
             return index_find_i64(AS_I64(x), x->len, AS_I64(y), y->len);
         case MTYPE2(TYPE_ENUM, TYPE_ENUM):
-            return index_find_i64(AS_I64(ENUM_VAL(x)), x->len, AS_I64(ENUM_VAL(y)), y->len);
+            return index_find_i64(AS_I64(ENUM_VAL(x)), ENUM_VAL(x)->len, AS_I64(ENUM_VAL(y)), ENUM_VAL(y)->len);
         case MTYPE2(TYPE_F64, TYPE_F64):
             return index_find_i64((i64_t *)AS_F64(x), x->len, (i64_t *)AS_F64(y), y->len);
         case MTYPE2(TYPE_GUID, TYPE_GUID):
@@ -396,9 +414,8 @@ obj_p ray_filter(obj_p x, obj_p y) {
 }
 
 obj_p ray_take(obj_p from, obj_p count) {
-    i64_t i, j, f, l, m, n, size, start;
+    i64_t i, j, f, l, m, n, start;
     obj_p k, s, v, res;
-    u8_t *buf;
     int is_range = 0;
 
     // Check if count is a 2-element vector [start amount] for range take
@@ -636,17 +653,17 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
-            drop_obj(s);
             if (s->type != TYPE_SYMBOL) {
+                drop_obj(s);
                 drop_obj(k);
                 return res;
-            } else
-                return enumerate(k, res);
+            }
+            drop_obj(s);
+            return enumerate(k, res);
 
         case TYPE_MAPLIST:
             k = MAPLIST_KEY(from);
             s = MAPLIST_VAL(from);
-            n = k->len;
             l = s->len;
             if (is_range) {
                 if (start < 0)
@@ -659,42 +676,27 @@ obj_p ray_take(obj_p from, obj_p count) {
                     m = l - start;
             }
             res = vector(TYPE_LIST, m);
-            size = m;
 
             if (is_range) {
                 for (i = 0; i < m; i++) {
                     j = start + i;
-                    if (AS_I64(s)[j] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
+                    v = maplist_at(k, AS_I64(s)[j]);
+                    if (IS_ERR(v)) {
                         res->len = i;
                         drop_obj(res);
-                        return err_index(AS_I64(s)[j], n, 0, 0);
+                        return v;
                     }
+                    AS_LIST(res)[i] = v;
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    if (AS_I64(s)[j % l] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j % l];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
+                    v = maplist_at(k, AS_I64(s)[j % l]);
+                    if (IS_ERR(v)) {
                         res->len = i;
                         drop_obj(res);
-                        return err_index(AS_I64(s)[j % l], n, 0, 0);
+                        return v;
                     }
+                    AS_LIST(res)[i] = v;
                 }
             }
             return res;
@@ -1181,7 +1183,7 @@ obj_p ray_value(obj_p x) {
             res = SYMBOL(xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl)
+                if (AS_I64(e)[i] >= 0 && AS_I64(e)[i] < sl)
                     AS_SYMBOL(res)[i] = AS_SYMBOL(sym)[AS_I64(e)[i]];
                 else
                     AS_SYMBOL(res)[i] = NULL_I64;
diff --git a/core/rayforce.c b/core/rayforce.c
index 66201a3..0abe8e8 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -865,7 +865,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return NULL_OBJ;
         case TYPE_ENUM:
             if (idx < 0)
-                idx = obj->len + idx;
+                idx = ENUM_VAL(obj)->len + idx;
             if (idx >= 0 && idx < (i64_t)ENUM_VAL(obj)->len) {
                 k = ray_key(obj);
                 if (IS_ERR(k)) {
@@ -891,7 +891,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             v = MAPLIST_VAL(obj);
             size = k->len;
             if (idx < 0)
-                idx = obj->len + idx;
+                idx = v->len + idx;
             if (idx >= 0 && idx < (i64_t)v->len) {
                 buf = AS_U8(k) + AS_I64(v)[idx];
                 return de_raw(buf, &size);
-- 
2.43.0


From f781853e04c46f17db83a0d1ec3921e349442744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 25/51] fix: grouped first and last by rows, nulls in grouped
 sum, min and med, wide sums of i16, errors of parted partials

---
 core/aggr.c | 208 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 141 insertions(+), 67 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 95ad64f..49fb51b 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -184,7 +184,7 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
     ({                                                                                                               \
         i64_t $$i, $$j, $$l;                                                                                         \
         b8_t $$first;                                                                                                \
-        obj_p $$parts, $$res, $$filter, $$v, $$pfilter, $$pdata, $$pindex;                                           \
+        obj_p $$parts, $$res, $$filter, $$v, $$pfilter, $$pdata, $$pindex, $$err = NULL_OBJ;                         \
         $$l = val->len;                                                                                              \
         $$filter = index_group_filter(index);                                                                        \
         $$res = __v_##outcoerse(groups);                                                                             \
@@ -192,7 +192,11 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
         if (groups == 1 && $$filter == NULL_OBJ) {                                                                   \
             /* Aggregate all partitions into single result, no filter */                                             \
             for ($$i = 0; $$i < $$l; $$i++) {                                                                        \
-                $$parts = aggr_map(preaggr, AS_LIST(val)[$$i], AS_LIST(val)[$$i]->type, index);                      \
+                $$parts = aggr_map(preaggr, AS_LIST(val)[$$i], aggr_outype(preaggr, AS_LIST(val)[$$i]), index);      \
+                if (IS_ERR($$parts)) {                                                                               \
+                    $$err = $$parts;                                                                                 \
+                    break;                                                                                           \
+                }                                                                                                    \
                 $$v = AGGR_COLLECT($$parts, 1, incoerse, outcoerse, postaggr);                                       \
                 drop_obj($$parts);                                                                                   \
                 if ($$first) {                                                                                       \
@@ -219,13 +223,17 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
                 $$pdata = AS_LIST(val)[$$i];                                                                         \
                 if ($$pfilter->type == -TYPE_I64 && $$pfilter->i64 == -1) {                                          \
                     /* All rows match - use partition data as-is */                                                  \
-                    $$parts = aggr_map(preaggr, $$pdata, $$pdata->type, $$pindex);                                   \
+                    $$parts = aggr_map(preaggr, $$pdata, aggr_outype(preaggr, $$pdata), $$pindex);                   \
                 } else {                                                                                             \
                     /* Specific indices - filter data first */                                                       \
                     $$pdata = at_ids($$pdata, AS_I64($$pfilter), $$pfilter->len);                                    \
-                    $$parts = aggr_map(preaggr, $$pdata, $$pdata->type, $$pindex);                                   \
+                    $$parts = aggr_map(preaggr, $$pdata, aggr_outype(preaggr, $$pdata), $$pindex);                   \
                     drop_obj($$pdata);                                                                               \
                 }                                                                                                    \
+                if (IS_ERR($$parts)) {                                                                               \
+                    $$err = $$parts;                                                                                 \
+                    break;                                                                                           \
+                }                                                                                                    \
                 $$v = AGGR_COLLECT($$parts, 1, incoerse, outcoerse, postaggr);                                       \
                 drop_obj($$parts);                                                                                   \
                 if (groups == 1) {                                                                                   \
@@ -248,7 +256,11 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
             /* No filter or simple filter - one result per partition */                                              \
             for ($$i = 0, $$j = 0; $$i < $$l; $$i++) {                                                               \
                 if ($$filter == NULL_OBJ || AS_LIST($$filter)[$$i] != NULL_OBJ) {                                    \
-                    $$parts = aggr_map(preaggr, AS_LIST(val)[$$i], AS_LIST(val)[$$i]->type, index);                  \
+                    $$parts = aggr_map(preaggr, AS_LIST(val)[$$i], aggr_outype(preaggr, AS_LIST(val)[$$i]), index);  \
+                    if (IS_ERR($$parts)) {                                                                           \
+                        $$err = $$parts;                                                                             \
+                        break;                                                                                       \
+                    }                                                                                                \
                     $$v = AGGR_COLLECT($$parts, 1, incoerse, outcoerse, postaggr);                                   \
                     drop_obj($$parts);                                                                               \
                     memcpy(__AS_##outcoerse($$res) + $$j++, __AS_##incoerse($$v), __SIZE_OF_##outcoerse);            \
@@ -256,9 +268,23 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
                 }                                                                                                    \
             }                                                                                                        \
         }                                                                                                            \
+        if ($$err != NULL_OBJ) {                                                                                     \
+            $$res->len = 0;                                                                                          \
+            drop_obj($$res);                                                                                         \
+            $$res = $$err;                                                                                           \
+        }                                                                                                            \
         $$res;                                                                                                       \
     })
 
+obj_p aggr_sum_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5);
+
+static i8_t aggr_outype(raw_p aggr, obj_p val) {
+    // sums of i16 are i64
+    if (aggr == (raw_p)aggr_sum_partial && val->type == TYPE_I16)
+        return TYPE_I64;
+    return val->type;
+}
+
 static obj_p aggr_map_other(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     pool_p pool = runtime_get()->pool;
     i64_t i, l, n, group_count, group_len, out_len, chunk;
@@ -279,6 +305,8 @@ static obj_p aggr_map_other(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
         argv[3] = index;
         argv[4] = (raw_p)vector(outype, out_len);
         res = pool_call_task_fn(aggr, 5, argv);
+        if (IS_ERR(res))
+            return res;
         return vn_list(1, res);
     }
 
@@ -313,6 +341,8 @@ static obj_p aggr_map_parted(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
         argv[3] = index;
         argv[4] = vector(outype, out_len);
         res = pool_call_task_fn(aggr, 5, argv);
+        if (IS_ERR(res))
+            return res;
         return vn_list(1, res);
     }
 
@@ -438,6 +468,36 @@ obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
     }
 }
 
+// Row number of the first element of each group
+static obj_p aggr_first_rows(obj_p index) {
+    i64_t i, l, n, x, y, shift;
+    i64_t *group_ids, *source, *filter, *rows;
+    obj_p res;
+    b8_t by_source;
+
+    n = index_group_count(index);
+    l = index_group_len(index);
+    group_ids = index_group_ids(index);
+    filter = index_group_filter_ids(index);
+    by_source = index_group_type(index) == INDEX_TYPE_SHIFT;
+    source = by_source ? index_group_source(index) : NULL;
+    shift = by_source ? index_group_shift(index) : 0;
+
+    res = I64(n);
+    rows = AS_I64(res);
+    for (i = 0; i < n; i++)
+        rows[i] = NULL_I64;
+
+    for (i = 0; i < l; i++) {
+        x = filter != NULL ? filter[i] : i;
+        y = by_source ? group_ids[source[x] - shift] : group_ids[i];
+        if (rows[y] == NULL_I64)
+            rows[y] = x;
+    }
+
+    return res;
+}
+
 obj_p aggr_first(obj_p val, obj_p index) {
     i64_t i, j, n, l;
     i64_t *xo, *xe, *first_ids, *filter_ids;
@@ -576,6 +636,15 @@ obj_p aggr_first(obj_p val, obj_p index) {
         }
     }
 
+    // No precomputed indices: find the first row of each group
+    if (IS_VECTOR(val) &&
+        (index_group_type(index) == INDEX_TYPE_IDS || index_group_type(index) == INDEX_TYPE_SHIFT)) {
+        obj_p rows = aggr_first_rows(index);
+        res = at_ids(val, AS_I64(rows), n);
+        drop_obj(rows);
+        return res;
+    }
+
     // Slow path: iterate through all rows
     switch (val->type) {
         case TYPE_U8:
@@ -906,7 +975,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i16, i16, if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -916,7 +985,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i32, i32, if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i32, i32, if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -927,7 +996,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
             drop_obj(parts);
             if (val->type == TYPE_ENUM) {
                 ek = ray_key(val);
@@ -958,7 +1027,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, f64, f64, if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
             drop_obj(parts);
             return res;
         case TYPE_GUID:
@@ -966,7 +1035,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, guid, guid,
-                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                               if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                    memcpy($out[$y], $in[$x], sizeof(guid_t)));
             drop_obj(parts);
             return res;
@@ -974,7 +1043,11 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, list, list, if ($out[$y] == NULL_OBJ) $out[$y] = clone_obj($in[$x]));
+            res = AGGR_COLLECT(
+                parts, n, list, list, if ($in[$x] != NULL_OBJ) {
+                    drop_obj($out[$y]);
+                    $out[$y] = clone_obj($in[$x]);
+                });
             drop_obj(parts);
             return res;
         case TYPE_PARTEDLIST:
@@ -1054,22 +1127,22 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
-                              if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, f64, f64,
-                              if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+                              if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, guid, guid,
-                              if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                              if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i32, i32,
-                              if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
-                              if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1081,21 +1154,22 @@ obj_p aggr_sum_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 
     switch (val->type) {
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = 0, $out[$y] = ADDI16($out[$y], $in[$x]),
-                      $out[$y] = NULL_I16);
+            // i16 sums are wider than the values
+            AGGR_ITER(index, len, offset, val, res, i16, i64, $out[$y] = 0, $out[$y] = FOLD_ADDI16($out[$y], $in[$x]),
+                      $out[$y] = NULL_I64);
             return res;
         case TYPE_I64:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = ADDI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = ADDF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = ADDI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
@@ -1112,38 +1186,37 @@ obj_p aggr_sum(obj_p val, obj_p index) {
 
     switch (val->type) {
         case TYPE_I16:
-            parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
+            parts = aggr_map((raw_p)aggr_sum_partial, val, TYPE_I64, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, $out[$y] = ADDI16($out[$y], $in[$x]));
-            res->type = val->type;
+            res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_I64:
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = ADDI64($out[$y], $in[$x]));
+            res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_F64:
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = ADDF64($out[$y], $in[$x]));
+            res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = ADDI64($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
         case TYPE_PARTEDF64:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, f64, f64, $out[$y] = ADDF64($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, f64, f64, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i32, i32, $out[$y] = ADDI32($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i32, i32, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]));
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i16, i16, $out[$y] = ADDI16($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1238,24 +1311,25 @@ obj_p aggr_min_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 
     switch (val->type) {
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = INF_I16, $out[$y] = MINI16($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = NULL_I16, $out[$y] = MINI16($out[$y], $in[$x]),
                       $out[$y] = NULL_I16);
             return res;
         case TYPE_I64:
         case TYPE_TIMESTAMP:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = INF_I64, $out[$y] = MINI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = NULL_I64, $out[$y] = MINI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = INF_F64, $out[$y] = MINF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64, $out[$y] = MINF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
         case TYPE_TIME:
         case TYPE_DATE:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = INF_I32, $out[$y] = MINI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = NULL_I32, $out[$y] = MINI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
+            destroy_partial_result(res);
             return err_type(0, 0, 0, 0);
     }
 }
@@ -2133,57 +2207,57 @@ obj_p aggr_avg(obj_p val, obj_p index) {
 }
 
 // Partial function for median - computes median for each collected group
+// median of a sorted (nulls first) group
+#define AGGR_MED_SORTED(Vals, Len, Isnull)                                                                   \
+    ({                                                                                                       \
+        i64_t $n = 0, $l, $m;                                                                                \
+        while ($n < (Len) && Isnull((Vals)[$n]))                                                             \
+            $n++;                                                                                            \
+        $l = (Len) - $n;                                                                                     \
+        $m = $n + $l / 2;                                                                                    \
+        $l == 0 ? NULL_F64                                                                                   \
+                : ($l % 2 == 0 ? ((f64_t)(Vals)[$m - 1] + (f64_t)(Vals)[$m]) / 2.0 : (f64_t)(Vals)[$m]);     \
+    })
+#define AGGR_NOTNULL(x) ((nil_t)(x), B8_FALSE)
+#define AGGR_NULL_I16(x) ((x) == NULL_I16)
+#define AGGR_NULL_I64(x) ((x) == NULL_I64)
+
 obj_p aggr_med_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5) {
     i64_t len = (i64_t)arg1, offset = (i64_t)arg2;
     obj_p collected = (obj_p)arg3, res = (obj_p)arg5;
     UNUSED(arg4);
 
-    i64_t i, l;
-    i64_t *xisort;
-    f64_t *xfsort;
-    f64_t med;
+    i64_t i;
     f64_t *fo = AS_F64(res);
     obj_p grp, sorted;
 
     for (i = offset; i < offset + len; i++) {
         grp = AS_LIST(collected)[i];
-        l = grp->len;
-
-        if (l == 0) {
-            fo[i] = NULL_F64;
-            continue;
-        }
 
         switch (grp->type) {
+            case TYPE_U8:
+                sorted = ray_asc(grp);
+                fo[i] = AGGR_MED_SORTED(AS_U8(sorted), sorted->len, AGGR_NOTNULL);
+                break;
+            case TYPE_I16:
+                sorted = ray_asc(grp);
+                fo[i] = AGGR_MED_SORTED(AS_I16(sorted), sorted->len, AGGR_NULL_I16);
+                break;
             case TYPE_I64:
-            case TYPE_TIMESTAMP: {
-                i64_t mid = l / 2;
+            case TYPE_TIMESTAMP:
                 sorted = ray_asc(grp);
-                xisort = AS_I64(sorted);
-                if (l % 2 == 0)
-                    med = ((f64_t)xisort[mid - 1] + (f64_t)xisort[mid]) / 2.0;
-                else
-                    med = (f64_t)xisort[mid];
-                drop_obj(sorted);
-                fo[i] = med;
+                fo[i] = AGGR_MED_SORTED(AS_I64(sorted), sorted->len, AGGR_NULL_I64);
                 break;
-            }
-            case TYPE_F64: {
-                i64_t mid = l / 2;
+            case TYPE_F64:
                 sorted = ray_asc(grp);
-                xfsort = AS_F64(sorted);
-                if (l % 2 == 0)
-                    med = (xfsort[mid - 1] + xfsort[mid]) / 2.0;
-                else
-                    med = xfsort[mid];
-                drop_obj(sorted);
-                fo[i] = med;
+                fo[i] = AGGR_MED_SORTED(AS_F64(sorted), sorted->len, ISNANF64);
                 break;
-            }
             default:
-                fo[i] = NULL_F64;
-                break;
+                drop_obj(res);
+                return err_type(TYPE_LIST, grp->type, 0, 0);
         }
+
+        drop_obj(sorted);
     }
 
     return res;
@@ -2203,7 +2277,7 @@ static obj_p aggr_map_med(obj_p collected, obj_p index) {
 
     res = F64(n);
 
-    if (l == 1) {
+    if (l <= 1) {
         argv[0] = (raw_p)n;
         argv[1] = (raw_p)0;
         argv[2] = collected;
-- 
2.43.0


From 7f7ddb1bfd18962a78554af4001e0a687d350fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 26/51] fix: tasks past the end of the data when chunks rounded
 to pages leave executors without work

---
 core/index.c | 6 ++++++
 core/pool.c  | 8 ++++++++
 core/pool.h  | 1 +
 3 files changed, 15 insertions(+)

diff --git a/core/index.c b/core/index.c
index 8ba524e..ac076f4 100644
--- a/core/index.c
+++ b/core/index.c
@@ -284,6 +284,7 @@ nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrow
     pool = pool_get();
     chunks = pool_split_by(pool, nrows, 0);
     base_chunk = pool_chunk_aligned(nrows, chunks, sizeof(i64_t));
+    chunks = pool_chunks_count(nrows, base_chunk);
 
     // Initialize hashes
     for (i = 0; i < nrows; i++)
@@ -362,6 +363,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
 
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i32_t));
+    chunks = pool_chunks_count(len, base_chunk);
 
     if (chunks == 1)
         index_scope_partial_i32(len, values, indices, 0, &min, &max);
@@ -423,6 +425,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
 
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = pool_chunks_count(len, base_chunk);
 
     if (chunks == 1)
         index_scope_partial_i64(len, values, indices, 0, &min, &max);
@@ -2103,6 +2106,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
                 hk[i] = NULL_I64;
         } else {
             base_chunk = pool_chunk_aligned(scope.range, chunks, sizeof(i64_t));
+            chunks = pool_chunks_count(scope.range, base_chunk);
             pool_prepare(pool);
             for (i = 0; i < chunks - 1; i++)
                 pool_add_task(pool, (raw_p)fill_null_i64, 3, hk, base_chunk, i * base_chunk);
@@ -2154,6 +2158,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
         pool = pool_get();
         chunks = pool_split_by(pool, len, 0);
         base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+        chunks = pool_chunks_count(len, base_chunk);
         if (chunks == 1)
             index_group_i64_scoped_partial(values, indices, hk, len, 0, scope.min, hv);
         else {
@@ -2487,6 +2492,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     pool = pool_get();
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = pool_chunks_count(len, base_chunk);
 
     if (chunks == 1) {
         index_group_list_perfect_partial(len, 0, &ctx);
diff --git a/core/pool.c b/core/pool.c
index 9450dcd..a2e0020 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -506,6 +506,14 @@ i64_t pool_chunk_aligned(i64_t total_len, i64_t num_workers, i64_t elem_size) {
     return pages_per_chunk * elems_per_page;
 }
 
+// Number of chunks of a given size that cover total_len (rounding chunks up to pages may leave workers without one)
+i64_t pool_chunks_count(i64_t total_len, i64_t chunk) {
+    if (total_len <= chunk)
+        return 1;
+
+    return (total_len + chunk - 1) / chunk;
+}
+
 nil_t pool_map(i64_t total_len, pool_map_fn fn, void *ctx) {
     pool_p pool;
     i64_t i, n, chunk;
diff --git a/core/pool.h b/core/pool.h
index cac2f16..bf5febd 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -103,6 +103,7 @@ i64_t pool_split_by(pool_p pool, i64_t input_len, i64_t groups_len);
 i64_t pool_split_by_mem(pool_p pool, i64_t input_len, i64_t groups_len, i64_t type_size);
 i64_t pool_get_executors_count(pool_p pool);
 i64_t pool_chunk_aligned(i64_t total_len, i64_t num_workers, i64_t elem_size);
+i64_t pool_chunks_count(i64_t total_len, i64_t chunk);
 
 typedef obj_p (*pool_map_fn)(i64_t len, i64_t offset, void *ctx);
 nil_t pool_map(i64_t total_len, pool_map_fn fn, void *ctx);
-- 
2.43.0


From 2cf08f61f8f08c76d11b1d26db831c11a2596538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 27/51] fix: pmap inside of a parallel task, failed modify
 converts the values of a dict

---
 core/iter.c   | 8 ++++----
 core/update.c | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 370f83a..d9ac636 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -156,8 +156,8 @@ obj_p pmap_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_unary_fn(fn, attrs, x);  // Fallback when pool not initialized
+    if (pool == NULL || rc_sync_get())
+        return map_unary_fn(fn, attrs, x);  // Fallback when pool not initialized or is running already
     num_chunks = pool_get_executors_count(pool);
 
     // Limit chunks to number of elements
@@ -570,8 +570,8 @@ obj_p pmap_lambda(obj_p f, obj_p *x, i64_t n) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_lambda(f, x, n);  // Fallback when pool not initialized
+    if (pool == NULL || rc_sync_get())
+        return map_lambda(f, x, n);  // Fallback when pool not initialized or is running already
     num_chunks = pool_get_executors_count(pool);
 
     // Limit chunks to number of elements
diff --git a/core/update.c b/core/update.c
index a90f954..509f23b 100644
--- a/core/update.c
+++ b/core/update.c
@@ -309,15 +309,16 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
             if (j == NULL_I64)
                 return NULL;
 
+            // Elements of a vector have nothing inside
+            if (AS_LIST(obj)[1]->type != TYPE_LIST)
+                return NULL;
+
             v = own_obj(&AS_LIST(obj)[1]);
             if (IS_ERR(v)) {
                 drop_obj(v);
                 return NULL;
             }
 
-            if (AS_LIST(obj)[1]->type != TYPE_LIST)
-                diverse_obj(AS_LIST(obj) + 1);
-
             p = AS_LIST(AS_LIST(obj)[1]) + j;
     }
 
-- 
2.43.0


From 71821096ed17ece58e51af7f446d97ec5d77e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 28/51] fix: heaps merged free blocks with those of other
 heaps, shrinking foreign blocks overflowed, file backed pools

---
 core/heap.c | 143 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 82 insertions(+), 61 deletions(-)

diff --git a/core/heap.c b/core/heap.c
index 4eb09e2..973a1cb 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -173,6 +173,18 @@ block_p heap_add_pool(i64_t size) {
     return block;
 }
 
+// Close and delete the file of a pool
+static nil_t heap_close_file(i64_t fd) {
+    i64_t res;
+    c8_t filename[128];
+
+    // Get filename before closing - ignore errors as file may already be gone
+    res = fs_get_fname_by_fd(fd, filename, sizeof(filename));
+    fs_fclose(fd);
+    if (res == 0)
+        fs_fdelete(filename);
+}
+
 nil_t heap_remove_pool(block_p block, i64_t size) {
     heap_p heap = VM->heap;  // Cache heap pointer
     mmap_free(block, size);
@@ -186,9 +198,12 @@ inline __attribute__((always_inline)) nil_t heap_insert_block(heap_p heap, block
 
     block->prev = NULL;
     block->next = heap->freelist[order];
-    block->used = 0;
     block->order = order;
 
+    // Heaps working in parallel look at the blocks next to theirs: those see the owner no later than that it is free
+    __atomic_store_n(&block->heap_id, (u16_t)heap->id, __ATOMIC_RELAXED);
+    __atomic_store_n(&block->used, 0, __ATOMIC_RELEASE);
+
     if (heap->freelist[order] != NULL)
         heap->freelist[order]->prev = block;
     else
@@ -197,6 +212,12 @@ inline __attribute__((always_inline)) nil_t heap_insert_block(heap_p heap, block
     heap->freelist[order] = block;
 }
 
+// Mark block as used by the heap
+inline __attribute__((always_inline)) nil_t heap_take_block(heap_p heap, block_p block) {
+    __atomic_store_n(&block->used, 1, __ATOMIC_RELAXED);
+    __atomic_store_n(&block->heap_id, (u16_t)heap->id, __ATOMIC_RELAXED);
+}
+
 inline __attribute__((always_inline)) nil_t heap_remove_block(heap_p heap, block_p block, i64_t order) {
     if (block->prev)
         block->prev->next = block->next;
@@ -222,6 +243,30 @@ inline __attribute__((always_inline)) nil_t heap_split_block(heap_p heap, block_
     }
 }
 
+// Put block to the freelist, merged with its buddies as far as they are free in the same heap
+static nil_t heap_coalesce_block(heap_p heap, block_p block, i64_t order) {
+    block_p buddy;
+
+    for (; block->pool_order != order; order++) {
+        // calculate buddy and prefetch its metadata
+        buddy = BUDDYOF(block, order);
+        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
+
+        // buddy is used, or belongs to another heap, or is of different order, so we can't merge
+        if (__atomic_load_n(&buddy->used, __ATOMIC_ACQUIRE) ||
+            __atomic_load_n(&buddy->heap_id, __ATOMIC_RELAXED) != (u16_t)heap->id || buddy->order != order)
+            break;
+
+        // merge blocks: remove buddy from its freelist.
+        heap_remove_block(heap, buddy, order);
+
+        // check if buddy is lower address than block (means it is of higher order), if so, swap them
+        block = (buddy < block) ? buddy : block;
+    }
+
+    heap_insert_block(heap, block, order);
+}
+
 // Flush slab caches back to freelists for coalescing
 static nil_t heap_flush_slabs(heap_p heap) {
     i64_t i;
@@ -230,8 +275,7 @@ static nil_t heap_flush_slabs(heap_p heap) {
     for (i = 0; i < SLAB_ORDERS; i++) {
         while (heap->slabs[i].count > 0) {
             block = heap->slabs[i].stack[--heap->slabs[i].count];
-            // heap_insert_block will set used=0
-            heap_insert_block(heap, block, SLAB_ORDER_MIN + i);
+            heap_coalesce_block(heap, block, SLAB_ORDER_MIN + i);
         }
     }
 }
@@ -279,8 +323,7 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
             block = heap->slabs[idx].stack[--heap->slabs[idx].count];
             // Note: block->order, pool_order, and backed should already be valid
             // from when the block was first allocated. Just update used and heap_id.
-            block->used = 1;
-            block->heap_id = heap->id;
+            heap_take_block(heap, block);
             return BLOCK2RAW(block);
         }
     }
@@ -300,10 +343,7 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
                 return NULL;
 
             block->order = order;
-            block->used = 1;
-            block->heap_id = heap->id;
-
-            heap->memstat.system += size;
+            heap_take_block(heap, block);
 
             return BLOCK2RAW(block);
         }
@@ -313,6 +353,13 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
         if (UNLIKELY(block == NULL))
             return NULL;
 
+        // blocks of this pool are told by their addresses, so the file is not needed anymore
+        if (UNLIKELY(block->backed)) {
+            heap_close_file((i64_t)block->pool);
+            block->pool = block;
+            block->backed = B8_FALSE;
+        }
+
         i = MAX_BLOCK_ORDER;
         heap_insert_block(heap, block, i);
     } else
@@ -330,18 +377,16 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
     heap_split_block(heap, block, order, i);
 
     block->order = order;
-    block->used = 1;
-    block->heap_id = heap->id;
+    heap_take_block(heap, block);
     block->backed = B8_FALSE;
 
     return BLOCK2RAW(block);
 }
 
 __attribute__((hot)) nil_t heap_free(raw_p ptr) {
-    block_p block, buddy;
-    i64_t fd, res;
+    block_p block;
+    i64_t fd;
     i64_t order;
-    c8_t filename[64];
     heap_p heap = VM->heap;  // Cache heap pointer
 
     if (UNLIKELY(ptr == NULL || ptr == NULL_OBJ))
@@ -366,11 +411,7 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
     if (UNLIKELY(block->backed)) {
         fd = (i64_t)block->pool;
         heap_remove_pool(block, BSIZEOF(order));
-        // Get filename before closing - ignore errors as file may already be gone
-        res = fs_get_fname_by_fd(fd, filename, sizeof(filename));
-        fs_fclose(fd);
-        if (res == 0)
-            fs_fdelete(filename);
+        heap_close_file(fd);
 
         return;
     }
@@ -391,25 +432,7 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
         return;
     }
 
-    for (;; order++) {
-        // check if we are at the root block (no buddies left)
-        if (block->pool_order == order)
-            return heap_insert_block(heap, block, order);
-
-        // calculate buddy and prefetch its metadata
-        buddy = BUDDYOF(block, order);
-        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
-
-        // buddy is used, or buddy is of different order, so we can't merge
-        if (buddy->used || buddy->order != order)
-            return heap_insert_block(heap, block, order);
-
-        // merge blocks: remove buddy from its freelist.
-        heap_remove_block(heap, buddy, order);
-
-        // check if buddy is lower address than block (means it is of higher order), if so, swap them
-        block = (buddy < block) ? buddy : block;
-    }
+    heap_coalesce_block(heap, block, order);
 }
 
 __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
@@ -438,7 +461,7 @@ __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
             return NULL;
         }
 
-        memcpy(new_ptr, ptr, old_size - sizeof(struct obj_t));
+        memcpy(new_ptr, ptr, (cap < old_size ? cap : old_size) - sizeof(struct obj_t));
         heap_free(ptr);
 
         return new_ptr;
@@ -488,13 +511,16 @@ i64_t heap_gc(nil_t) {
 
 nil_t heap_borrow(heap_p heap) {
     i64_t i, j, half;
+    block_p block;
     heap_p h = VM->heap;  // Cache heap pointer (source heap)
 
     // Transfer half of slab cache entries to worker (improves small object alloc)
     for (i = 0; i < SLAB_ORDERS; i++) {
         half = h->slabs[i].count / 2;
         for (j = 0; j < half; j++) {
-            heap->slabs[i].stack[heap->slabs[i].count++] = h->slabs[i].stack[--h->slabs[i].count];
+            block = h->slabs[i].stack[--h->slabs[i].count];
+            block->heap_id = heap->id;
+            heap->slabs[i].stack[heap->slabs[i].count++] = block;
         }
     }
 
@@ -510,6 +536,7 @@ nil_t heap_borrow(heap_p heap) {
 
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
+        heap->freelist[i]->heap_id = heap->id;
         heap->avail |= BSIZEOF(i);
     }
 
@@ -525,13 +552,14 @@ nil_t heap_borrow(heap_p heap) {
 
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
+        heap->freelist[i]->heap_id = heap->id;
         heap->avail |= BSIZEOF(i);
     }
 }
 
 nil_t heap_merge(heap_p heap) {
     i64_t i;
-    block_p block, next, last;
+    block_p block, next;
     heap_p h = VM->heap;  // Cache heap pointer (destination heap)
 
     // Transfer slab caches back to main heap (if room), else flush to freelist
@@ -543,7 +571,7 @@ nil_t heap_merge(heap_p heap) {
         // Flush remaining to main heap's freelist
         while (heap->slabs[i].count > 0) {
             block = heap->slabs[i].stack[--heap->slabs[i].count];
-            heap_insert_block(h, block, SLAB_ORDER_MIN + i);
+            heap_coalesce_block(h, block, SLAB_ORDER_MIN + i);
         }
     }
 
@@ -557,27 +585,20 @@ nil_t heap_merge(heap_p heap) {
     }
     heap->foreign_blocks = NULL;
 
-    // Merge freelists: O(1) prepend by finding tail, linking to main head
+    // Merge freelists: blocks come back to their buddies
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
-        if (heap->freelist[i] == NULL)
-            continue;
-
-        // Find tail of worker's freelist
-        last = heap->freelist[i];
-        while (last->next != NULL)
-            last = last->next;
-
-        // Link: worker_tail -> main_head, main_head = worker_head
-        last->next = h->freelist[i];
-        if (h->freelist[i] != NULL)
-            h->freelist[i]->prev = last;
-
-        h->freelist[i] = heap->freelist[i];
-        heap->freelist[i] = NULL;
+        while (heap->freelist[i] != NULL) {
+            block = heap->freelist[i];
+            heap_remove_block(heap, block, i);
+            heap_coalesce_block(h, block, i);
+        }
     }
 
-    h->avail |= heap->avail;
-    heap->avail = 0;
+    // Pools belong to the main heap from now on
+    h->memstat.system += heap->memstat.system;
+    h->memstat.heap += heap->memstat.heap;
+    heap->memstat.system = 0;
+    heap->memstat.heap = 0;
 }
 
 memstat_t heap_memstat(nil_t) {
@@ -591,7 +612,7 @@ memstat_t heap_memstat(nil_t) {
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
         block = h->freelist[i];
         while (block) {
-            h->memstat.free += BLOCKSIZE(i);
+            h->memstat.free += BSIZEOF(i);
             block = block->next;
         }
     }
-- 
2.43.0


From 6d86e76661989df36d161a3e58269153c03f44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:24 +0000
Subject: [PATCH 29/51] fix: executors missed the end of the pool and touched
 its queues between runs

---
 core/pool.c | 32 ++++++++++++++++++++++----------
 core/pool.h |  3 +++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/core/pool.c b/core/pool.c
index a2e0020..bc55a9c 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -168,7 +168,7 @@ obj_p pool_call_task_fn(raw_p fn, i64_t argc, raw_p argv[]) {
 raw_p executor_run(raw_p arg) {
     executor_t *executor = (executor_t *)arg;
     task_data_t data;
-    i64_t i, tasks_count;
+    i64_t i, tasks_count, run_id = 0;
     obj_p res;
     vm_p vm;
 
@@ -181,13 +181,19 @@ raw_p executor_run(raw_p arg) {
 
     for (;;) {
         mutex_lock(&executor->pool->mutex);
-        cond_wait(&executor->pool->run, &executor->pool->mutex);
+
+        // Take part in a run at most once, and only while it is going on: the queues belong to main thread otherwise
+        while (executor->pool->state != RUN_STATE_STOPPED &&
+               (!executor->pool->running || executor->pool->run_id == run_id))
+            cond_wait(&executor->pool->run, &executor->pool->mutex);
 
         if (executor->pool->state == RUN_STATE_STOPPED) {
             mutex_unlock(&executor->pool->mutex);
             break;
         }
 
+        run_id = executor->pool->run_id;
+        executor->pool->active_count++;
         tasks_count = executor->pool->tasks_count;
         mutex_unlock(&executor->pool->mutex);
 
@@ -205,12 +211,11 @@ raw_p executor_run(raw_p arg) {
             mpmc_push(executor->pool->result_queue, data);
         }
 
-        if (i > 0) {
-            mutex_lock(&executor->pool->mutex);
-            executor->pool->done_count += i;
-            cond_signal(&executor->pool->done);
-            mutex_unlock(&executor->pool->mutex);
-        }
+        mutex_lock(&executor->pool->mutex);
+        executor->pool->done_count += i;
+        executor->pool->active_count--;
+        cond_signal(&executor->pool->done);
+        mutex_unlock(&executor->pool->mutex);
     }
 
     vm_destroy(__VM);
@@ -228,6 +233,9 @@ pool_p pool_create(i64_t thread_count) {
     pool->executors_count = thread_count;
     pool->done_count = 0;
     pool->tasks_count = 0;
+    pool->active_count = 0;
+    pool->running = 0;
+    pool->run_id = 0;
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->state = RUN_STATE_RUNNING;
@@ -380,6 +388,8 @@ obj_p pool_run(pool_p pool) {
 
     tasks_count = pool->tasks_count;
     executors_count = pool->executors_count;
+    pool->running = 1;
+    pool->run_id++;
 
     // wake up needed executors
     if (executors_count < tasks_count) {
@@ -408,10 +418,12 @@ obj_p pool_run(pool_p pool) {
 
     pool->done_count += i;
 
-    // wait for all tasks to be done
-    while (pool->done_count < tasks_count)
+    // wait for all tasks to be done (and for executors, which found no task left)
+    while (pool->done_count < tasks_count || pool->active_count > 0)
         cond_wait(&pool->done, &pool->mutex);
 
+    pool->running = 0;
+
     // collect results
     res = LIST(tasks_count);
 
diff --git a/core/pool.h b/core/pool.h
index bf5febd..3ac41db 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -87,6 +87,9 @@ typedef struct pool_t {
     i64_t done_count;        // Number of done VMs
     i64_t executors_count;   // Number of executors
     i64_t tasks_count;       // Number of tasks
+    i64_t active_count;      // Number of executors taking part in the current run
+    i64_t running;           // Tasks are being executed
+    i64_t run_id;            // Number of the last run
     mpmc_p task_queue;       // Pool's task queue
     mpmc_p result_queue;     // Pool's result queue
     executor_t executors[];  // Array of executors
-- 
2.43.0


From 941d2255bb80b54822b6effa78a0ae076bd8a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 30/51] fix: details of errors raised by tasks of other
 executors were lost

---
 core/pool.c | 24 +++++++++++++++++-------
 core/pool.h |  1 +
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/pool.c b/core/pool.c
index bc55a9c..228b90e 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -208,6 +208,8 @@ raw_p executor_run(raw_p arg) {
             // execute task
             res = pool_call_task_fn(data.fn, data.argc, data.argv);
             data.result = res;
+            if (IS_ERR(res))
+                data.err = __VM->err;
             mpmc_push(executor->pool->result_queue, data);
         }
 
@@ -375,9 +377,10 @@ nil_t pool_add_task(pool_p pool, raw_p fn, i64_t argc, ...) {
 }
 
 obj_p pool_run(pool_p pool) {
-    i64_t i, n, tasks_count, executors_count;
+    i64_t i, n, tasks_count, executors_count, failed = NULL_I64;
     obj_p e, res;
     task_data_t data;
+    err_t err;
 
     if (pool == NULL)
         PANIC("pool is NULL");
@@ -411,6 +414,8 @@ obj_p pool_run(pool_p pool) {
         // execute task
         res = pool_call_task_fn(data.fn, data.argc, data.argv);
         data.result = res;
+        if (IS_ERR(res))
+            data.err = __VM->err;
         mpmc_push(pool->result_queue, data);
     }
 
@@ -432,6 +437,12 @@ obj_p pool_run(pool_p pool) {
         if (data.id < 0 || data.id >= (i64_t)tasks_count)
             PANIC("corrupted: %lld", data.id);
 
+        // details of an error belong to the VM of its executor, keep those of the first one
+        if (IS_ERR(data.result) && (failed == NULL_I64 || data.id < failed)) {
+            failed = data.id;
+            err = data.err;
+        }
+
         ins_obj(&res, data.id, data.result);
     }
 
@@ -446,12 +457,11 @@ obj_p pool_run(pool_p pool) {
     mutex_unlock(&pool->mutex);
 
     // Check res for errors
-    for (i = 0; i < tasks_count; i++) {
-        if (IS_ERR(AS_LIST(res)[i])) {
-            e = clone_obj(AS_LIST(res)[i]);
-            drop_obj(res);
-            return e;
-        }
+    if (failed != NULL_I64) {
+        e = clone_obj(AS_LIST(res)[failed]);
+        drop_obj(res);
+        __VM->err = err;
+        return e;
     }
 
     return res;
diff --git a/core/pool.h b/core/pool.h
index 3ac41db..9172ead 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -49,6 +49,7 @@ typedef struct {
     i64_t argc;
     raw_p argv[8];
     obj_p result;
+    err_t err;  // Details of the error if result is an error
 } task_data_t;
 
 typedef struct cell_t {
-- 
2.43.0


From 89965968880c2518201abaca2f54adca8f1029b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 31/51] fix: runs of tasks nested in tasks hanged, windows of
 an empty table crashed

---
 core/aggr.c | 24 ++++++++++++------------
 core/pool.c |  3 ++-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 49fb51b..7eebe5c 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -369,9 +369,12 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     out_len = group_count;
 
     n = pool_get_executors_count(pool);
+    if (n > group_count)
+        n = group_count;
+
     res = vector(outype, out_len);
 
-    if (n == 1) {
+    if (n <= 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
         argv[2] = val;
@@ -381,9 +384,6 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
@@ -2037,9 +2037,12 @@ static obj_p aggr_map_avg_window(obj_p val, obj_p index) {
     out_len = group_count;
 
     n = pool_get_executors_count(pool);
+    if (n > group_count)
+        n = group_count;
+
     res = vn_list(2, F64(out_len), I64(out_len));
 
-    if (n == 1) {
+    if (n <= 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
         argv[2] = val;
@@ -2049,9 +2052,6 @@ static obj_p aggr_map_avg_window(obj_p val, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
@@ -2888,9 +2888,12 @@ static obj_p aggr_map_dev_window(obj_p val, obj_p index) {
     out_len = group_count;
 
     n = pool_get_executors_count(pool);
+    if (n > group_count)
+        n = group_count;
+
     res = vn_list(3, F64(out_len), F64(out_len), I64(out_len));
 
-    if (n == 1) {
+    if (n <= 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
         argv[2] = val;
@@ -2900,9 +2903,6 @@ static obj_p aggr_map_dev_window(obj_p val, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
diff --git a/core/pool.c b/core/pool.c
index 228b90e..e71afef 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -506,7 +506,8 @@ i64_t pool_split_by(pool_p pool, i64_t input_len, i64_t groups_len) {
 }
 
 i64_t pool_get_executors_count(pool_p pool) {
-    if (pool == NULL)
+    // A task of a run can't start another one: all the executors are busy with it
+    if (pool == NULL || rc_sync_get())
         return 1;
     else
         return pool->executors_count;
-- 
2.43.0


From f8e4a81e228291a480481c868af73948d6ae7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 32/51] fix: executors calling a lambda for the first time
 raced to compile it

---
 core/cc.c   | 21 ++++++++++++++++-----
 core/eval.c |  4 ++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 8f6c740..31d95d2 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -30,6 +30,7 @@
 #include "nfo.h"
 #include "env.h"
 #include "error.h"
+#include "atomic.h"
 
 // Add location info from compiler context when a compile error occurs
 static nil_t cc_error_add_loc(cc_ctx_t *cc) {
@@ -445,7 +446,7 @@ obj_p cc_compile(obj_p lambda) {
     lambda_p fn = AS_LAMBDA(lambda);
     obj_p body = fn->body;
     obj_p result;
-    i64_t body_len;
+    i64_t body_len, rounds = 0;
     obj_p *body_exprs;
 
     // Initialize compiler context
@@ -508,10 +509,20 @@ obj_p cc_compile(obj_p lambda) {
         return result;
     }
 
-    // Store compiled bytecode, constants, and debug info in lambda
-    fn->bc = cc.bc;
-    fn->consts = cc.consts;
-    fn->dbg = cc.dbg;
+    // Store compiled bytecode, constants, and debug info in lambda. Several executors may have compiled it at once:
+    // the first one stores, with bytecode as the last, others drop theirs
+    result = NULL_OBJ;
+    if (__atomic_compare_exchange_n(&fn->consts, &result, cc.consts, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+        fn->dbg = cc.dbg;
+        __atomic_store_n(&fn->bc, cc.bc, __ATOMIC_RELEASE);
+    } else {
+        while (__atomic_load_n(&fn->bc, __ATOMIC_ACQUIRE) == NULL_OBJ)
+            backoff_spin(&rounds);
+
+        drop_obj(cc.bc);
+        drop_obj(cc.consts);
+        drop_obj(cc.dbg);
+    }
 
     // Don't pre-create env dict - let runtime handle it via amend()
     // env_names was just for compile-time offset lookups (args)
diff --git a/core/eval.c b/core/eval.c
index 2e33fe4..cf67a7a 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -526,7 +526,7 @@ OP_CALLF:
     }
 callf:
     // Compile if not already compiled
-    if (UNLIKELY(AS_LAMBDA(x)->bc == NULL_OBJ)) {
+    if (UNLIKELY(__atomic_load_n(&AS_LAMBDA(x)->bc, __ATOMIC_ACQUIRE) == NULL_OBJ)) {
         r = cc_compile(x);
         if (UNLIKELY(IS_ERR(r))) {
             drop_obj(x);
@@ -683,7 +683,7 @@ obj_p call(obj_p fn, i64_t arity) {
         return err_limit(VM_STACK_SIZE);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
-    if (lam->bc == NULL_OBJ) {
+    if (__atomic_load_n(&lam->bc, __ATOMIC_ACQUIRE) == NULL_OBJ) {
         res = cc_compile(fn);
         if (IS_ERR(res))
             return res;
-- 
2.43.0


From 3bc30756d72d50ceab39d89fb08a2bde07fa481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 33/51] fix: memory released by the last owner was not ordered
 after the accesses of other executors

---
 core/pool.c     | 6 +++---
 core/rayforce.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/pool.c b/core/pool.c
index e71afef..e2bb914 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -176,8 +176,8 @@ raw_p executor_run(raw_p arg) {
     vm = vm_create(executor->id, executor->pool);
     vm->rc_sync = 1;  // Enable atomic RC for worker threads
 
-    __atomic_store_n(&executor->heap, vm->heap, __ATOMIC_RELAXED);
-    __atomic_store_n(&executor->vm, vm, __ATOMIC_RELAXED);
+    __atomic_store_n(&executor->heap, vm->heap, __ATOMIC_RELEASE);
+    __atomic_store_n(&executor->vm, vm, __ATOMIC_RELEASE);
 
     for (;;) {
         mutex_lock(&executor->pool->mutex);
@@ -271,7 +271,7 @@ pool_p pool_create(i64_t thread_count) {
 
     // Wait for worker threads to initialize
     for (i = 1; i < thread_count; i++) {
-        while (__atomic_load_n(&pool->executors[i].vm, __ATOMIC_RELAXED) == NULL)
+        while (__atomic_load_n(&pool->executors[i].vm, __ATOMIC_ACQUIRE) == NULL)
             backoff_spin(&rounds);
     }
 
diff --git a/core/rayforce.c b/core/rayforce.c
index 0abe8e8..dfa0c01 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2987,7 +2987,7 @@ nil_t __attribute__((hot)) drop_obj(obj_p obj) {
         obj->rc--;
         rc = obj->rc;
     } else
-        rc = __atomic_sub_fetch(&obj->rc, 1, __ATOMIC_RELAXED);
+        rc = __atomic_sub_fetch(&obj->rc, 1, __ATOMIC_ACQ_REL);
 
     if (rc > 0)
         return;
@@ -3151,7 +3151,7 @@ obj_p cow_obj(obj_p obj) {
     if (LIKELY(!VM->rc_sync))
         rc = obj->rc;
     else
-        rc = __atomic_load_n(&obj->rc, __ATOMIC_RELAXED);
+        rc = __atomic_load_n(&obj->rc, __ATOMIC_ACQUIRE);
 
     // we only own the reference, so we can freely modify it
     if (rc == 1)
@@ -3164,7 +3164,7 @@ obj_p cow_obj(obj_p obj) {
 u32_t rc_obj(obj_p obj) {
     if (LIKELY(!VM->rc_sync))
         return obj->rc;
-    return __atomic_load_n(&obj->rc, __ATOMIC_RELAXED);
+    return __atomic_load_n(&obj->rc, __ATOMIC_ACQUIRE);
 }
 
 str_p type_name(i8_t type) { return str_from_symbol(env_get_typename_by_type(&runtime_get()->env, type)); }
-- 
2.43.0


From 700d1d181eb5ebf6356f45af8ff76ff66c327eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:31 +0000
Subject: [PATCH 34/51] fix: comparisons of long enum and guid vectors by
 several executors

---
 core/cmp.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index a42060c..2e8c535 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -282,7 +282,7 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                     out[i] = op##I64(enum_sym(sym, ei[i]), si);                                \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
                 k = ray_key(y);                                                                \
                 sym = ray_get(k);                                                              \
@@ -303,7 +303,7 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                     out[i] = op##I64(si, enum_sym(sym, ei[i]));                                \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
                 k = ray_key(x);                                                                \
                 sym = ray_get(k);                                                              \
@@ -324,7 +324,7 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                     out[i] = op##I64(enum_sym(sym, ei[i]), xi[i]);                             \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
                 k = ray_key(y);                                                                \
                 sym = ray_get(k);                                                              \
@@ -345,25 +345,25 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                     out[i] = op##I64(xi[i], enum_sym(sym, ei[i]));                             \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
                                                                                                \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[offset + i]);                  \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
-                return res;                                                                    \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[0]);                  \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[offset + i]);         \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
             case MTYPE2(TYPE_NULL, TYPE_NULL):                                                 \
-- 
2.43.0


From d9f240c7f5c1c4736bdec83bc0f02fdfa2e03cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:31 +0000
Subject: [PATCH 35/51] fix: reading files cut short or with damaged headers
 crashed

---
 core/unary.c | 331 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 184 insertions(+), 147 deletions(-)

diff --git a/core/unary.c b/core/unary.c
index 744c363..ee2e07e 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -1,147 +1,184 @@
-/*
- *   Copyright (c) 2023 Anton Kundenko <singaraiona@gmail.com>
- *   All rights reserved.
-
- *   Permission is hereby granted, free of charge, to any person obtaining a copy
- *   of this software and associated documentation files (the "Software"), to deal
- *   in the Software without restriction, including without limitation the rights
- *   to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- *   copies of the Software, and to permit persons to whom the Software is
- *   furnished to do so, subject to the following conditions:
-
- *   The above copyright notice and this permission notice shall be included in all
- *   copies or substantial portions of the Software.
-
- *   THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- *   IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
- *   FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
- *   AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
- *   LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
- *   OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
- *   SOFTWARE.
- */
-
-#include <time.h>
-#include "unary.h"
-#include "runtime.h"
-#include "eval.h"
-#include "format.h"
-#include "fs.h"
-#include "ops.h"
-#include "serde.h"
-#include "compose.h"
-#include "error.h"
-#include "string.h"
-#include "fdmap.h"
-#include "iter.h"
-
-obj_p unary_call(obj_p f, obj_p x) {
-    unary_f fn;
-
-    if (f->attrs & FN_ATOMIC)
-        return map_unary(f, x);
-
-    fn = (unary_f)f->i64;
-    return fn(x);
-}
-
-obj_p ray_get(obj_p x) {
-    i64_t fd;
-    obj_p res, col, keys, s, v, *sym, path, fdmap;
-    i64_t sz, size;
-
-    switch (x->type) {
-        case -TYPE_SYMBOL:
-            sym = resolve(x->i64);
-            if (sym == NULL)
-                return err_type(0, 0, 0, 0);
-
-            return clone_obj(*sym);
-        case TYPE_C8:
-            if (x->len == 0)
-                return err_type(0, 0, 0, 0);
-
-            path = cstring_from_obj(x);
-            fd = fs_fopen(AS_C8(path), ATTR_RDWR);
-
-            if (fd == -1) {
-                res = err_os();
-                drop_obj(path);
-                return res;
-            }
-
-            size = fs_fsize(fd);
-
-            if (size < ISIZEOF(struct obj_t)) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
-
-            res = (obj_p)mmap_file(fd, NULL, size, 0);
-
-            if (res == NULL) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
-
-            if (IS_EXTERNAL_SERIALIZED(res)) {
-                sz = size - ISIZEOF(struct obj_t);
-                v = de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
-                mmap_free(res, size);
-                fs_fclose(fd);
-                drop_obj(path);
-                return v;
-            } else if (IS_EXTERNAL_COMPOUND(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else if (IS_EXTERNAL_SIMPLE(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                return res;
-            }
-
-            drop_obj(path);
-
-            // anymap needs additional nested mapping of dependencies
-            if (res->type == TYPE_MAPLIST) {
-                s = cstring_from_str("#", 1);
-                col = ray_concat(x, s);
-                keys = ray_get(col);
-                drop_obj(s);
-                drop_obj(col);
-
-                if (keys->type != TYPE_U8) {
-                    drop_obj(keys);
-                    mmap_free(res, size);
-                    return err_type(0, 0, 0, 0);
-                }
-
-                ((obj_p)((str_p)res - RAY_PAGE_SIZE))->obj = keys;
-            }
-            return clone_obj(res);  // increment ref count
-
-        default:
-            return err_type(0, 0, 0, 0);
-    }
-}
-
-obj_p ray_resolve(obj_p x) {
-    if (x->type != -TYPE_SYMBOL)
-        return err_type(0, 0, 0, 0);
-
-    obj_p *res = resolve(x->i64);
-
-    return (res == NULL) ? NULL_OBJ : clone_obj(*res);
-}
-
-obj_p ray_is_null(obj_p x) { return b8(is_null(x)); }
+/*
+ *   Copyright (c) 2023 Anton Kundenko <singaraiona@gmail.com>
+ *   All rights reserved.
+
+ *   Permission is hereby granted, free of charge, to any person obtaining a copy
+ *   of this software and associated documentation files (the "Software"), to deal
+ *   in the Software without restriction, including without limitation the rights
+ *   to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ *   copies of the Software, and to permit persons to whom the Software is
+ *   furnished to do so, subject to the following conditions:
+
+ *   The above copyright notice and this permission notice shall be included in all
+ *   copies or substantial portions of the Software.
+
+ *   THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ *   IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+ *   FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+ *   AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+ *   LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+ *   OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+ *   SOFTWARE.
+ */
+
+#include <time.h>
+#include "unary.h"
+#include "runtime.h"
+#include "eval.h"
+#include "format.h"
+#include "fs.h"
+#include "ops.h"
+#include "serde.h"
+#include "compose.h"
+#include "error.h"
+#include "string.h"
+#include "fdmap.h"
+#include "iter.h"
+
+obj_p unary_call(obj_p f, obj_p x) {
+    unary_f fn;
+
+    if (f->attrs & FN_ATOMIC)
+        return map_unary(f, x);
+
+    fn = (unary_f)f->i64;
+    return fn(x);
+}
+
+// Does the file of the given size, mapped at base, hold the whole object it starts with?
+static b8_t is_stored_obj(obj_p base, obj_p obj, i64_t size) {
+    i64_t header;
+
+    if (IS_EXTERNAL_COMPOUND(base)) {
+        header = RAY_PAGE_SIZE + ISIZEOF(struct obj_t);
+
+        return size >= header && (obj->type == TYPE_ENUM || obj->type == TYPE_MAPLIST) && obj->len >= 0 &&
+               obj->len <= (size - header) / ISIZEOF(i64_t) && obj->mmod == MMOD_EXTERNAL_COMPOUND &&
+               (obj->type == TYPE_MAPLIST || memchr(AS_C8(base), '\0', RAY_PAGE_SIZE - ISIZEOF(struct obj_t)) != NULL);
+    }
+
+    if (!IS_EXTERNAL_SIMPLE(base))
+        return B8_FALSE;
+
+    switch (obj->type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+        case TYPE_I16:
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_I64:
+        case TYPE_TIMESTAMP:
+        case TYPE_F64:
+        case TYPE_GUID:
+            return obj->len >= 0 && obj->len <= (size - ISIZEOF(struct obj_t)) / size_of_type(obj->type);
+        default:
+            return B8_FALSE;
+    }
+}
+
+obj_p ray_get(obj_p x) {
+    i64_t fd;
+    obj_p res, col, keys, s, v, *sym, path, fdmap;
+    i64_t sz, size;
+
+    switch (x->type) {
+        case -TYPE_SYMBOL:
+            sym = resolve(x->i64);
+            if (sym == NULL)
+                return err_type(0, 0, 0, 0);
+
+            return clone_obj(*sym);
+        case TYPE_C8:
+            if (x->len == 0)
+                return err_type(0, 0, 0, 0);
+
+            path = cstring_from_obj(x);
+            fd = fs_fopen(AS_C8(path), ATTR_RDWR);
+
+            if (fd == -1) {
+                res = err_os();
+                drop_obj(path);
+                return res;
+            }
+
+            size = fs_fsize(fd);
+
+            if (size < ISIZEOF(struct obj_t)) {
+                res = err_type(0, 0, 0, 0);
+                drop_obj(path);
+                fs_fclose(fd);
+                return res;
+            }
+
+            res = (obj_p)mmap_file(fd, NULL, size, 0);
+
+            if (res == NULL) {
+                res = err_type(0, 0, 0, 0);
+                drop_obj(path);
+                fs_fclose(fd);
+                return res;
+            }
+
+            if (IS_EXTERNAL_SERIALIZED(res)) {
+                sz = size - ISIZEOF(struct obj_t);
+                v = de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
+                mmap_free(res, size);
+                fs_fclose(fd);
+                drop_obj(path);
+                return v;
+            }
+
+            // the file may be cut short, or be anything else: what the header promises must be there
+            v = (obj_p)((str_p)res + (IS_EXTERNAL_COMPOUND(res) ? RAY_PAGE_SIZE : 0));
+            if (!is_stored_obj(res, v, size)) {
+                mmap_free(res, size);
+                fs_fclose(fd);
+                drop_obj(path);
+                return err_type(0, 0, 0, 0);
+            }
+
+            // anymap needs additional nested mapping of dependencies
+            if (v->type == TYPE_MAPLIST) {
+                s = cstring_from_str("#", 1);
+                col = ray_concat(x, s);
+                keys = ray_get(col);
+                drop_obj(s);
+                drop_obj(col);
+
+                if (keys->type != TYPE_U8) {
+                    drop_obj(keys);
+                    mmap_free(res, size);
+                    fs_fclose(fd);
+                    drop_obj(path);
+                    return err_type(0, 0, 0, 0);
+                }
+
+                res->obj = keys;
+            }
+
+            fdmap = fdmap_create();
+            fdmap_add_fd(&fdmap, res, fd, size);
+            res = v;
+            res->rc = 0;  // nobody else owns the private mapping
+            runtime_fdmap_push(runtime_get(), res, fdmap);
+            drop_obj(path);
+
+            return clone_obj(res);  // increment ref count
+
+        default:
+            return err_type(0, 0, 0, 0);
+    }
+}
+
+obj_p ray_resolve(obj_p x) {
+    if (x->type != -TYPE_SYMBOL)
+        return err_type(0, 0, 0, 0);
+
+    obj_p *res = resolve(x->i64);
+
+    return (res == NULL) ? NULL_OBJ : clone_obj(*res);
+}
+
+obj_p ray_is_null(obj_p x) { return b8(is_null(x)); }
-- 
2.43.0


From 0fd3e8252323fd2595a8c1db3f69afd845e9431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:31 +0000
Subject: [PATCH 36/51] fix: stored null symbols, elements of lazy lists, torn
 splayed tables, replay of journals from their start

---
 core/aggr.c     |  6 +++---
 core/compose.c  | 49 ++++++++++++++++++++++++++++++++-----------------
 core/io.c       | 26 ++++++++++++++++----------
 core/items.c    | 21 +++++++++++++++------
 core/rayforce.c |  8 +++++---
 5 files changed, 71 insertions(+), 39 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 7eebe5c..fbbbf46 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -599,7 +599,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 xe = AS_SYMBOL(sym);
                 xo = AS_SYMBOL(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = (xo[i] >= 0 && xo[i] < sym->len) ? xe[xo[i]] : NULL_I64;
                 drop_obj(sym);
                 res->type = TYPE_SYMBOL;
                 return res;
@@ -705,7 +705,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 xe = AS_SYMBOL(sym);
                 xo = AS_SYMBOL(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = (xo[i] >= 0 && xo[i] < sym->len) ? xe[xo[i]] : NULL_I64;
 
                 drop_obj(sym);
                 res->type = TYPE_SYMBOL;
@@ -1017,7 +1017,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
                 xe = AS_SYMBOL(sym);
                 xo = AS_I64(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = (xo[i] >= 0 && xo[i] < sym->len) ? xe[xo[i]] : NULL_I64;
 
                 drop_obj(sym);
             }
diff --git a/core/compose.c b/core/compose.c
index 087ca45..bf169e9 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -435,7 +435,8 @@ obj_p ray_enum(obj_p x, obj_p y) {
                 return err_type(TYPE_SYMBOL, s ? s->type : 0, 0, 0);
             }
 
-            v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
+            // none of the symbols is found in an empty domain
+            v = (s->len == 0) ? nullv(TYPE_I64, y->len) : index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
             drop_obj(s);
 
             if (IS_ERR(v)) {
@@ -500,6 +501,25 @@ obj_p ray_concat(obj_p x, obj_p y) {
     i64_t i, xl, yl;
     obj_p vec, kx, kxy, ix, iy, dx, dy;
 
+    // enumerations and lazy lists are concatenated by their values
+    if (x->type == TYPE_ENUM || x->type == TYPE_MAPLIST) {
+        dx = ray_value(x);
+        if (IS_ERR(dx))
+            return dx;
+        vec = ray_concat(dx, y);
+        drop_obj(dx);
+        return vec;
+    }
+
+    if (y->type == TYPE_ENUM || y->type == TYPE_MAPLIST) {
+        dy = ray_value(y);
+        if (IS_ERR(dy))
+            return dy;
+        vec = ray_concat(x, dy);
+        drop_obj(dy);
+        return vec;
+    }
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_B8, -TYPE_B8):
             vec = B8(2);
@@ -926,22 +946,12 @@ obj_p ray_distinct(obj_p x) {
             res = enumerate(ray_key(x), res);
             return res;
         case TYPE_MAPLIST: {
-            // MAPLIST has key (mmaped symbol file) and value (byte offsets)
-            // Get distinct indices, then expand to actual values
-            obj_p val = MAPLIST_VAL(x);
-            obj_p key = MAPLIST_KEY(x);
-            i64_t sl = key->len;
-            l = val->len;
-            obj_p distinct_idx = index_distinct_i64(AS_I64(val), l);
-            i64_t dl = distinct_idx->len;
-            res = LIST(dl);
-            for (i64_t i = 0; i < dl; i++) {
-                i64_t offset = AS_I64(distinct_idx)[i];
-                u8_t *buf = AS_U8(key) + offset;
-                i64_t size = sl;
-                AS_LIST(res)[i] = de_raw(buf, &size);
-            }
-            drop_obj(distinct_idx);
+            // every element has an offset of its own, so the elements themselves are to be compared
+            obj_p values = ray_value(x);
+            if (IS_ERR(values))
+                return values;
+            res = ray_distinct(values);
+            drop_obj(values);
             return res;
         }
         case TYPE_MAPCOMMON:
@@ -1132,6 +1142,11 @@ obj_p ray_group(obj_p x) {
     k = aggr_first(x, index);
     drop_obj(index);
 
+    if (IS_ERR(k)) {
+        drop_obj(v);
+        return k;
+    }
+
     return dict(k, v);
 }
 
diff --git a/core/io.c b/core/io.c
index 5fa332d..f3e71f1 100644
--- a/core/io.c
+++ b/core/io.c
@@ -235,16 +235,10 @@ obj_p ray_read(obj_p x) {
             if (map == NULL)
                 return err_os();
 
-            // Validate minimum file size for header
-            if (size < (i64_t)sizeof(struct ipc_header_t)) {
-                mmap_free(map, size);
-                return err_os();
-            }
-
             sz = size;
 
             while (sz > 0) {
-                cur = map + sz;
+                cur = map + (size - sz);
                 val = de_raw(cur, &sz);
 
                 if (IS_ERR(val)) {
@@ -352,9 +346,9 @@ obj_p ray_write(obj_p x, obj_p y) {
                 return err_type(0, y->type, 0, 0);
             buf = U8(size);
             size = ser_raw(AS_U8(buf), y);
-            fs_fwrite(x->i32, AS_C8(buf), size);
+            size = fs_fwrite(x->i32, AS_C8(buf), size);
             drop_obj(buf);
-            return NULL_OBJ;
+            return (size == -1) ? err_os() : NULL_OBJ;
         case -TYPE_I64:
             // send ipc msg
             if (x->i64 < 0)
@@ -1105,6 +1099,8 @@ obj_p distinct_syms(obj_p *x, i64_t n) {
     for (i = 0, h = 0; i < n; i++) {
         a = *(x + i);
         for (j = 0; j < l; j++) {
+            if (AS_SYMBOL(a)[j] == NULL_I64)
+                continue;
             p = ht_oa_tab_next(&set, AS_SYMBOL(a)[j]);
             if (AS_SYMBOL(AS_LIST(set)[0])[p] == NULL_I64) {
                 AS_SYMBOL(AS_LIST(set)[0])[p] = AS_SYMBOL(a)[j];
@@ -1222,7 +1218,8 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
 
     sym = distinct_syms(AS_LIST(cols), cols->len);
 
-    if (sym->len > 0) {
+    // a table of null symbols only (or without rows) needs the symfile as well to be read back
+    if (cols->len > 0) {
         switch (symfile->type) {
             case TYPE_NULL:
                 s = cstring_from_str("sym", 3);
@@ -1355,6 +1352,15 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
 
         if (val->type == TYPE_ENUM)
             syms_present = B8_TRUE;
+
+        // columns of an interrupted or foreign write do not make a table
+        if (i > 0 && ops_count(val) != ops_count(AS_LIST(vals)[0])) {
+            vals->len = i + 1;
+            drop_obj(vals);
+            drop_obj(keys);
+
+            return err_length(0, 0, 0, 0, 0, 0);
+        }
     }
 
     // read symbol data (if any) if sym is not present in current env
diff --git a/core/items.c b/core/items.c
index 5c3c4c4..2948800 100644
--- a/core/items.c
+++ b/core/items.c
@@ -261,6 +261,12 @@ obj_p ray_at(obj_p x, obj_p y) {
                     return err_index(j, n, 0, 0);
                 }
 
+                // null symbols are not enumerated
+                if (AS_I64(v)[j] == NULL_I64) {
+                    AS_SYMBOL(res)[i] = NULL_I64;
+                    continue;
+                }
+
                 if (AS_I64(v)[j] < 0 || AS_I64(v)[j] >= (i64_t)xl) {
                     drop_obj(s);
                     drop_obj(res);
@@ -1200,13 +1206,12 @@ obj_p ray_value(obj_p x) {
             xl = e->len;
             sl = k->len;
 
-            size = sl;
-
             res = vector(TYPE_LIST, xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl) {
+                if (AS_I64(e)[i] >= 0 && AS_I64(e)[i] < sl) {
                     buf = AS_U8(k) + AS_I64(e)[i];
+                    size = sl - AS_I64(e)[i];
                     v = de_raw(buf, &size);
 
                     if (IS_ERR(v)) {
@@ -1240,11 +1245,15 @@ obj_p ray_value(obj_p x) {
                 n = ops_count(AS_LIST(x)[i]);
                 k = MAPLIST_KEY(AS_LIST(x)[i]);
                 v = MAPLIST_VAL(AS_LIST(x)[i]);
-                size = k->len;
 
                 for (j = 0; j < n; j++) {
-                    buf = AS_U8(k) + AS_I64(v)[j];
-                    objptr[j] = de_raw(buf, &size);
+                    e = maplist_at(k, AS_I64(v)[j]);
+                    if (IS_ERR(e)) {
+                        res->len = objptr + j - AS_LIST(res);
+                        drop_obj(res);
+                        return e;
+                    }
+                    objptr[j] = e;
                 }
 
                 objptr += n;
diff --git a/core/rayforce.c b/core/rayforce.c
index dfa0c01..f534c5d 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1128,7 +1128,7 @@ static obj_p at_ids_partial(obj_p obj, i64_t ids[], i64_t len, i64_t offset, obj
 }
 
 obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
-    i64_t i, xl, chunk;
+    i64_t i, idx, xl, chunk;
     i64_t mapid, m, n;
     obj_p k, v, cols, res, out;
     pool_p pool;
@@ -1205,8 +1205,10 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             }
 
             res = SYMBOL(len);
-            for (i = 0; i < len; i++)
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(obj))[ids[i]]];
+            for (i = 0; i < len; i++) {
+                idx = AS_I64(ENUM_VAL(obj))[ids[i]];
+                AS_I64(res)[i] = (idx >= 0 && idx < v->len) ? AS_I64(v)[idx] : NULL_I64;
+            }
 
             drop_obj(v);
 
-- 
2.43.0


From c8d38a7b6d2164a7f5e1a21e05754547c11b4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 37/51] fix: enumerations were looked up in columns and locals
 of the same name

---
 core/aggr.c     |  8 ++++----
 core/cmp.c      |  8 ++++----
 core/compose.c  |  4 ++--
 core/index.c    |  2 +-
 core/items.c    |  8 ++++----
 core/rayforce.c |  8 ++++----
 core/unary.c    | 14 ++++++++++++++
 core/unary.h    |  1 +
 8 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index fbbbf46..abf18aa 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -585,7 +585,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 }
                 // Convert enum indices to symbol values
                 ek = ray_key(val);
-                sym = ray_get(ek);
+                sym = enum_domain(ek);
                 drop_obj(ek);
                 if (IS_ERR(sym)) {
                     drop_obj(res);
@@ -688,7 +688,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
 
             if (val->type == TYPE_ENUM) {
                 ek = ray_key(val);
-                sym = ray_get(ek);
+                sym = enum_domain(ek);
                 drop_obj(ek);
 
                 if (IS_ERR(sym)) {
@@ -1000,7 +1000,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             drop_obj(parts);
             if (val->type == TYPE_ENUM) {
                 ek = ray_key(val);
-                sym = ray_get(ek);
+                sym = enum_domain(ek);
                 drop_obj(ek);
 
                 if (IS_ERR(sym)) {
@@ -3131,7 +3131,7 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             if (IS_ERR(k))
                 return k;
 
-            v = ray_get(k);
+            v = enum_domain(k);
             drop_obj(k);
 
             if (IS_ERR(v))
diff --git a/core/cmp.c b/core/cmp.c
index 2e8c535..d2b2d7d 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -264,7 +264,7 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                                                                                                \
             case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                              \
                 k = ray_key(x);                                                                \
-                sym = ray_get(k);                                                              \
+                sym = enum_domain(k);                                                              \
                 drop_obj(k);                                                                   \
                                                                                                \
                 e = ENUM_VAL(x);                                                               \
@@ -285,7 +285,7 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                 return NULL_OBJ;                                                               \
             case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
                 k = ray_key(y);                                                                \
-                sym = ray_get(k);                                                              \
+                sym = enum_domain(k);                                                              \
                 drop_obj(k);                                                                   \
                                                                                                \
                 e = ENUM_VAL(y);                                                               \
@@ -306,7 +306,7 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
                 k = ray_key(x);                                                                \
-                sym = ray_get(k);                                                              \
+                sym = enum_domain(k);                                                              \
                 drop_obj(k);                                                                   \
                                                                                                \
                 e = ENUM_VAL(x);                                                               \
@@ -327,7 +327,7 @@ static inline i64_t enum_sym(obj_p domain, i64_t idx) {
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
                 k = ray_key(y);                                                                \
-                sym = ray_get(k);                                                              \
+                sym = enum_domain(k);                                                              \
                 drop_obj(k);                                                                   \
                                                                                                \
                 e = ENUM_VAL(y);                                                               \
diff --git a/core/compose.c b/core/compose.c
index bf169e9..6c60e61 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -425,7 +425,7 @@ obj_p ray_enum(obj_p x, obj_p y) {
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_SYMBOL, TYPE_SYMBOL):
-            s = ray_get(x);
+            s = enum_domain(x);
 
             if (IS_ERR(s))
                 return s;
@@ -967,7 +967,7 @@ obj_p ray_distinct(obj_p x) {
             obj_p key = ray_key(first_part);
             if (IS_ERR(key))
                 return key;
-            obj_p domain = ray_get(key);
+            obj_p domain = enum_domain(key);
             drop_obj(key);
             if (IS_ERR(domain))
                 return domain;
diff --git a/core/index.c b/core/index.c
index ac076f4..f6cfc87 100644
--- a/core/index.c
+++ b/core/index.c
@@ -209,7 +209,7 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 // because they access global state. The caller should ensure this is
                 // called from a single thread, or the symbol array should be pre-resolved.
                 k = ray_key(obj);
-                v = ray_get(k);
+                v = enum_domain(k);
                 drop_obj(k);
                 u64v = (i64_t *)AS_SYMBOL(v);
                 ids = AS_I64(ENUM_VAL(obj));
diff --git a/core/items.c b/core/items.c
index 2948800..4609f70 100644
--- a/core/items.c
+++ b/core/items.c
@@ -193,7 +193,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             return cols;
         case MTYPE2(TYPE_ENUM, -TYPE_I64):
             k = ray_key(x);
-            s = ray_get(k);
+            s = enum_domain(k);
             drop_obj(k);
 
             v = ENUM_VAL(x);
@@ -223,7 +223,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             k = ray_key(x);
             v = ENUM_VAL(x);
 
-            s = ray_get(k);
+            s = enum_domain(k);
             drop_obj(k);
 
             if (IS_ERR(s))
@@ -637,7 +637,7 @@ obj_p ray_take(obj_p from, obj_p count) {
 
         case TYPE_ENUM:
             k = ray_key(from);
-            s = ray_get(k);
+            s = enum_domain(k);
             v = ENUM_VAL(from);
             l = v->len;
             if (is_range) {
@@ -1166,7 +1166,7 @@ obj_p ray_value(obj_p x) {
     switch (x->type) {
         case TYPE_ENUM:
             k = ray_key(x);
-            sym = at_obj(runtime_get()->env.variables, k);
+            sym = enum_domain(k);
             drop_obj(k);
 
             e = ENUM_VAL(x);
diff --git a/core/rayforce.c b/core/rayforce.c
index f534c5d..17c1f62 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -872,7 +872,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
                     // If key lookup fails, return raw index value
                     return i64(AS_I64(ENUM_VAL(obj))[idx]);
                 }
-                v = ray_get(k);
+                v = enum_domain(k);
                 drop_obj(k);
                 if (IS_ERR(v) || v->type != TYPE_SYMBOL) {
                     // If symbol file not found, return raw index value
@@ -1010,7 +1010,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
                         // If key lookup fails, return raw index value
                         return i64(raw_idx);
                     }
-                    v = ray_get(k);
+                    v = enum_domain(k);
                     drop_obj(k);
                     if (IS_ERR(v) || v->type != TYPE_SYMBOL) {
                         // If symbol file not found, return raw index value
@@ -1192,7 +1192,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             if (IS_ERR(k))
                 return k;
 
-            v = ray_get(k);
+            v = enum_domain(k);
             drop_obj(k);
 
             if (IS_ERR(v))
@@ -1301,7 +1301,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             if (IS_ERR(k))
                 return k;
 
-            v = ray_get(k);
+            v = enum_domain(k);
             drop_obj(k);
 
             if (IS_ERR(v))
diff --git a/core/unary.c b/core/unary.c
index ee2e07e..c0d6f30 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -172,6 +172,20 @@ obj_p ray_get(obj_p x) {
     }
 }
 
+// Enumerations refer to their domain by name: the global of that name is meant,
+// not a column or a local variable which happens to have the same name where the enumeration is used
+obj_p enum_domain(obj_p name) {
+    obj_p res;
+
+    res = at_obj(runtime_get()->env.variables, name);
+    if (res->type == TYPE_SYMBOL)
+        return res;
+
+    drop_obj(res);
+
+    return ray_get(name);
+}
+
 obj_p ray_resolve(obj_p x) {
     if (x->type != -TYPE_SYMBOL)
         return err_type(0, 0, 0, 0);
diff --git a/core/unary.h b/core/unary.h
index a43ea17..0f1b441 100644
--- a/core/unary.h
+++ b/core/unary.h
@@ -29,6 +29,7 @@
 
 obj_p unary_call(obj_p f, obj_p x);
 obj_p ray_get(obj_p x);
+obj_p enum_domain(obj_p name);
 obj_p ray_resolve(obj_p x);
 obj_p ray_time(obj_p x);
 obj_p ray_is_null(obj_p x);
-- 
2.43.0


From 0b90c41a6317314d6c87659db135eafc61f5f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:36 +0000
Subject: [PATCH 38/51] fix: joins crashed on columns of different types, inner
 join with an empty table kept all rows, windows were not validated and read
 64 bit times as 32 bit ones

---
 core/aggr.c  | 130 +++++++++++++++++++++++++--------------------------
 core/index.c |  40 +++++++++++++++-
 core/join.c  |  15 ++++--
 3 files changed, 114 insertions(+), 71 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index abf18aa..3355f51 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -36,7 +36,7 @@
 #include "pool.h"
 #include "order.h"
 
-i64_t indexr_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
+i64_t indexr_bin_i64_(i64_t val, i64_t vals[], i64_t offset, i64_t len) {
     i64_t left, right, mid, idx;
     left = 0, right = len - 1, idx = 0;
     vals += offset;
@@ -53,7 +53,7 @@ i64_t indexr_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
     return idx + offset;
 }
 
-i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
+i64_t indexl_bin_i64_(i64_t val, i64_t vals[], i64_t offset, i64_t len) {
     i64_t left, right, mid, idx;
     left = 0, right = len - 1, idx = 0;
     vals += offset;
@@ -138,17 +138,17 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
                     if ($rn != NULL_OBJ) {                                                             \
                         $fi = AS_I64($rn)[0];                                                          \
                         $ti = AS_I64($rn)[1];                                                          \
-                        $kl = AS_I32(AS_LIST(AS_LIST(Index)[4])[0])[$i];                               \
-                        $kr = AS_I32(AS_LIST(AS_LIST(Index)[4])[1])[$i];                               \
+                        $kl = AS_I64(AS_LIST(AS_LIST(Index)[4])[0])[$i];                               \
+                        $kr = AS_I64(AS_LIST(AS_LIST(Index)[4])[1])[$i];                               \
                         if ($it == 0) {                                                                \
-                            $li = indexr_bin_i32_($kl, AS_I32(AS_LIST(Index)[3]), $fi, $ti - $fi + 1); \
+                            $li = indexr_bin_i64_($kl, AS_I64(AS_LIST(Index)[3]), $fi, $ti - $fi + 1); \
                         } else {                                                                       \
-                            $li = indexl_bin_i32_($kl, AS_I32(AS_LIST(Index)[3]), $fi, $ti - $fi + 1); \
+                            $li = indexl_bin_i64_($kl, AS_I64(AS_LIST(Index)[3]), $fi, $ti - $fi + 1); \
                         }                                                                              \
-                        $ri = indexr_bin_i32_($kr, AS_I32(AS_LIST(Index)[3]), $fi, $ti - $fi + 1);     \
+                        $ri = indexr_bin_i64_($kr, AS_I64(AS_LIST(Index)[3]), $fi, $ti - $fi + 1);     \
                     }                                                                                  \
-                    if ($rn == NULL_OBJ || AS_I32(AS_LIST(Index)[3])[$li] > $kr ||                     \
-                        ($it == 1 && AS_I32(AS_LIST(Index)[3])[$ri] < $kl)) {                          \
+                    if ($rn == NULL_OBJ || AS_I64(AS_LIST(Index)[3])[$li] > $kr ||                     \
+                        ($it == 1 && AS_I64(AS_LIST(Index)[3])[$ri] < $kl)) {                          \
                         Null;                                                                          \
                     } else {                                                                           \
                         for ($x = $li; $x <= $ri; ++$x) {                                              \
@@ -1626,17 +1626,17 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -1720,17 +1720,17 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -1816,17 +1816,17 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -1910,17 +1910,17 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -2436,17 +2436,17 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
@@ -2543,17 +2543,17 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
@@ -2650,17 +2650,17 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
@@ -2759,17 +2759,17 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                         if (rn != NULL_OBJ) {
                             fi = AS_I64(rn)[0];
                             ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
+                            kl = AS_I64(AS_LIST(AS_LIST(index)[4])[0])[i];
+                            kr = AS_I64(AS_LIST(AS_LIST(index)[4])[1])[i];
                             if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexr_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                                li = indexl_bin_i64_(kl, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                             }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
+                            ri = indexr_bin_i64_(kr, AS_I64(AS_LIST(index)[3]), fi, ti - fi + 1);
                         }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (rn == NULL_OBJ || AS_I64(AS_LIST(index)[3])[li] > kr ||
+                            (it == 1 && AS_I64(AS_LIST(index)[3])[ri] < kl)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
diff --git a/core/index.c b/core/index.c
index f6cfc87..240964d 100644
--- a/core/index.c
+++ b/core/index.c
@@ -3315,6 +3315,17 @@ obj_p index_asof_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol) {
     __index_list_ctx_t ctx;
     pool_p pool;
 
+    switch (lxcol->type) {
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_I64:
+        case TYPE_TIMESTAMP:
+            break;
+        default:
+            return err_type(TYPE_I64, lxcol->type, 0, 0);
+    }
+
     // asof-join requires at least 2 keys: grouping key(s) + temporal asof key
     // Single-key asof-join is not supported (needs time component)
     if (lcols->len == 0)
@@ -3409,6 +3420,29 @@ obj_p index_window_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol,
     __index_list_ctx_t ctx;
     pool_p pool;
 
+    switch (lxcol->type) {
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_I64:
+        case TYPE_TIMESTAMP:
+            break;
+        default:
+            return err_type(TYPE_I64, lxcol->type, 0, 0);
+    }
+
+    // windows are a pair of bounds for each row of the left table
+    if (windows->len != 2)
+        return err_length(2, windows->len, 2, 0, 0, 0);
+
+    for (i = 0; i < 2; i++) {
+        v = AS_LIST(windows)[i];
+        if (v->type != lxcol->type)
+            return err_type(lxcol->type, v->type, 2, 0);
+        if (v->len != lxcol->len)
+            return err_length(lxcol->len, v->len, 2, 0, 0, 0);
+    }
+
     ll = ops_count(ltab);
     rl = ops_count(rtab);
     ht = ht_oa_create(rl, TYPE_I64);
@@ -3459,6 +3493,8 @@ obj_p index_window_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol,
 
     drop_obj(ht);
 
-    return index_group_build(INDEX_TYPE_WINDOW, ll, clone_obj(lxcol), clone_obj(rxcol), clone_obj(windows), index,
-                             i64(jtype));
+    // aggregates look up the bounds of the windows among 64 bit values
+    v = vn_list(2, cast_obj(TYPE_I64, AS_LIST(windows)[0]), cast_obj(TYPE_I64, AS_LIST(windows)[1]));
+
+    return index_group_build(INDEX_TYPE_WINDOW, ll, clone_obj(lxcol), cast_obj(TYPE_I64, rxcol), v, index, i64(jtype));
 }
\ No newline at end of file
diff --git a/core/join.c b/core/join.c
index 366cb95..800ba2a 100644
--- a/core/join.c
+++ b/core/join.c
@@ -129,6 +129,7 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
         col = select_column(c1, c2, AS_I64(idx), len);
         if (IS_ERR(col)) {
             drop_obj(cols);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
@@ -213,9 +214,6 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[2]->type, 0, 0);
 
-    if (ops_count(x[1]) == 0 || ops_count(x[2]) == 0)
-        return clone_obj(x[1]);
-
     k1 = ray_at(x[1], x[0]);
     if (IS_ERR(k1))
         return k1;
@@ -226,7 +224,10 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return k2;
     }
 
-    idx = index_inner_join_obj(k1, k2, x[0]->len);
+    if (ops_count(x[1]) == 0 || ops_count(x[2]) == 0)
+        idx = vn_list(2, I64(0), I64(0));
+    else
+        idx = index_inner_join_obj(k1, k2, x[0]->len);
     drop_obj(k1);
     drop_obj(k2);
 
@@ -284,6 +285,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         if (IS_ERR(col)) {
             drop_obj(cols);
             drop_obj(idx);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
@@ -414,6 +416,11 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     drop_obj(wjkl);
     drop_obj(wjkr);
 
+    if (IS_ERR(idx)) {
+        drop_obj(jtab);
+        return idx;
+    }
+
     rtab = group_map(jtab, idx);
 
     // Use query context for column resolution during aggregation
-- 
2.43.0


From 2fd67791cc18b3186437788ee8e86ecd5650766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 39/51] fix: CSV fields that were empty or not numbers gave
 uninitialized values, quoted fields and last lines without newline were
 misread, separators and numbers written so that they did not read back

---
 core/io.c | 482 +++++++++++++++++++++++++++---------------------------
 core/io.h |   9 +-
 2 files changed, 245 insertions(+), 246 deletions(-)

diff --git a/core/io.c b/core/io.c
index f3e71f1..5dd2e46 100644
--- a/core/io.c
+++ b/core/io.c
@@ -57,88 +57,95 @@ static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
     return new_offsets;
 }
 
+static b8_t line_index_push(line_index_t *idx, i64_t offset) {
+    if (idx->count >= idx->capacity) {
+        idx->offsets = grow_offsets(idx->offsets, &idx->capacity, idx->count);
+        if (idx->offsets == NULL)
+            return B8_FALSE;
+    }
+
+    idx->offsets[idx->count++] = offset;
+
+    return B8_TRUE;
+}
+
 // Build line offset index in single pass with SIMD acceleration
-// Returns number of lines, allocates line_offsets_out array
-// line_offsets[i] = byte offset where line i starts (line 0 is first data line after header)
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
-    i64_t capacity;
-    i64_t line_count = 0;
-    i64_t *offsets;
-    i64_t pos = 0;
+// Returns number of lines (the last one may have no newline), fills idx
+// idx->offsets[i] = byte offset where line i starts, idx->offsets[lines] = end of the last line
+// Newlines inside of quoted fields do not end lines
+i64_t io_build_line_index(str_p buf, i64_t size, c8_t sep, line_index_t *idx) {
+    i64_t i, p, pos = 0, quote = -1;
+    b8_t quoted = B8_FALSE;
+    c8_t c;
 
     // Estimate initial capacity based on average line length (~50 bytes typical for CSV)
     // Add 10% buffer to reduce reallocations
-    capacity = (size / 40) + 1024;
-    if (capacity < 1024)
-        capacity = 1024;
-
-    offsets = (i64_t *)heap_mmap(capacity * sizeof(i64_t));
-    if (offsets == NULL)
+    idx->count = 0;
+    idx->capacity = (size / 40) + 1024;
+    idx->offsets = (i64_t *)heap_mmap(idx->capacity * sizeof(i64_t));
+    if (idx->offsets == NULL)
         return -1;
 
     // First line starts at offset 0
-    offsets[line_count++] = 0;
+    idx->offsets[idx->count++] = 0;
 
-    // SIMD newline scanning - process 32 bytes at a time
-    v32u8 newline_vec = (v32u8){'\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n',
-                                 '\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n',
-                                 '\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n',
-                                 '\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n'};
+    // SIMD scanning for newlines and quotes - process 32 bytes at a time
+    v32u8 newline_vec = (v32u8){0} + '\n';
+    v32u8 quote_vec = (v32u8){0} + '"';
 
-    // Process chunks of 32 bytes with prefetch
-    while (pos + 32 <= size) {
-        // Prefetch ahead for better cache utilization
-        __builtin_prefetch(buf + pos + 512, 0, 0);
+    while (pos < size) {
+        u32_t mask = 0;
 
-        // Load 32 bytes (unaligned load is fine on modern CPUs)
-        v32u8 chunk;
-        memcpy(&chunk, buf + pos, 32);
+        if (pos + 32 <= size) {
+            // Prefetch ahead for better cache utilization
+            __builtin_prefetch(buf + pos + 512, 0, 0);
 
-        // Compare with newline - result is 0xFF where match, 0x00 elsewhere
-        v32u8 cmp = (chunk == newline_vec);
+            // Load 32 bytes (unaligned load is fine on modern CPUs)
+            v32u8 chunk;
+            memcpy(&chunk, buf + pos, 32);
 
-        // Extract comparison result as bitmask (one bit per byte)
-        // GCC/Clang generate movmskb on x86, equivalent on ARM
-        u32_t mask = 0;
-        for (int i = 0; i < 32; i++) {
-            if (((u8_t *)&cmp)[i])
-                mask |= (1u << i);
-        }
+            // Compare - result is 0xFF where match, 0x00 elsewhere
+            v32u8 cmp = (v32u8)((chunk == newline_vec) | (chunk == quote_vec));
 
-        // Process each newline found in this chunk
-        while (mask) {
-            int bit = __builtin_ctz(mask);  // Find lowest set bit
-            i64_t newline_pos = pos + bit;
-
-            // Grow array if needed
-            if (line_count >= capacity) {
-                offsets = grow_offsets(offsets, &capacity, line_count);
-                if (offsets == NULL)
-                    return -1;
+            // Extract comparison result as bitmask (one bit per byte)
+            // GCC/Clang generate movmskb on x86, equivalent on ARM
+            for (i = 0; i < 32; i++) {
+                if (((u8_t *)&cmp)[i])
+                    mask |= (1u << i);
+            }
+        } else {
+            // Handle remaining bytes with scalar code
+            for (i = 0; i < size - pos; i++) {
+                if (buf[pos + i] == '\n' || buf[pos + i] == '"')
+                    mask |= (1u << i);
             }
+        }
 
-            offsets[line_count++] = newline_pos + 1;  // Store offset of next line
-            mask &= mask - 1;  // Clear lowest set bit
+        while (mask) {
+            p = pos + __builtin_ctz(mask);  // Find lowest set bit
+            mask &= mask - 1;               // Clear lowest set bit
+
+            if (buf[p] == '"') {
+                if (quoted) {
+                    quoted = B8_FALSE;
+                    quote = p;
+                } else {
+                    // a quote opens a field only at its start, or continues it right after another one
+                    c = (p > 0) ? buf[p - 1] : '\n';
+                    quoted = c == sep || c == '\n' || (quote >= 0 && quote == p - 1);
+                }
+            } else if (!quoted && !line_index_push(idx, p + 1))
+                return -1;
         }
 
         pos += 32;
     }
 
-    // Handle remaining bytes with scalar code
-    while (pos < size) {
-        if (buf[pos] == '\n') {
-            if (line_count >= capacity) {
-                offsets = grow_offsets(offsets, &capacity, line_count);
-                if (offsets == NULL)
-                    return -1;
-            }
-            offsets[line_count++] = pos + 1;
-        }
-        pos++;
-    }
+    // the last line without a newline
+    if (size > 0 && idx->offsets[idx->count - 1] < size && !line_index_push(idx, size))
+        return -1;
 
-    *line_offsets_out = offsets;
-    return line_count - 1;  // Number of actual lines (excluding the sentinel offset)
+    return idx->count - 1;  // Number of actual lines (excluding the sentinel offset)
 }
 
 obj_p ray_hopen(obj_p *x, i64_t n) {
@@ -360,104 +367,59 @@ obj_p ray_write(obj_p x, obj_p y) {
     }
 }
 
-obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
+// Fields that are empty or are not values of the type of the column are nulls
+obj_p parse_csv_field(i8_t type, str_p start, i64_t len, i64_t row, obj_p out) {
     b8_t num_b8 = 0;
-    i64_t n, num_i64 = 0;  // Initialize to avoid uninitialized value
+    i32_t num_i32;
+    i64_t num_i64;
 
     switch (type) {
         case TYPE_B8:
-            if (start == NULL || end == NULL) {
-                AS_B8(out)[row] = 0;
-                break;
-            }
-            b8_from_str(start, end - start, &num_b8);
+            b8_from_str(start, len, &num_b8);
             AS_B8(out)[row] = num_b8;
             break;
         case TYPE_U8:
-            if (start == NULL || end == NULL) {
-                AS_U8(out)[row] = 0;
-                break;
-            }
-            i64_from_str(start, end - start, &num_i64);
+            num_i64 = 0;
+            i64_from_str(start, len, &num_i64);
             AS_U8(out)[row] = (u8_t)num_i64;
             break;
         case TYPE_I16:
-            if (start == NULL || end == NULL) {
-                AS_I16(out)[row] = NULL_I16;
-                break;
-            }
-            i64_from_str(start, end - start, &num_i64);
+            num_i64 = NULL_I16;
+            i64_from_str(start, len, &num_i64);
             AS_I16(out)[row] = (i16_t)num_i64;
             break;
         case TYPE_I32:
-            if (start == NULL || end == NULL) {
-                AS_I32(out)[row] = NULL_I32;
-                break;
-            }
-            i32_from_str(start, end - start, &AS_I32(out)[row]);
+            num_i32 = NULL_I32;
+            i32_from_str(start, len, &num_i32);
+            AS_I32(out)[row] = num_i32;
             break;
         case TYPE_DATE:
-            if (start == NULL || end == NULL) {
-                AS_DATE(out)[row] = NULL_I32;
-                break;
-            }
-            AS_DATE(out)[row] = date_into_i32(date_from_str(start, end - start));
+            AS_DATE(out)[row] = len ? date_into_i32(date_from_str(start, len)) : NULL_I32;
             break;
         case TYPE_TIME:
-            if (start == NULL || end == NULL) {
-                AS_TIME(out)[row] = NULL_I32;
-                break;
-            }
-            AS_TIME(out)[row] = time_into_i32(time_from_str(start, end - start));
+            AS_TIME(out)[row] = len ? time_into_i32(time_from_str(start, len)) : NULL_I32;
             break;
         case TYPE_I64:
-            if (start == NULL || end == NULL) {
-                AS_I64(out)[row] = NULL_I64;
-                break;
-            }
-            i64_from_str(start, end - start, &num_i64);
+            num_i64 = NULL_I64;
+            i64_from_str(start, len, &num_i64);
             AS_I64(out)[row] = num_i64;
             break;
         case TYPE_TIMESTAMP:
-            if (start == NULL || end == NULL) {
-                AS_TIMESTAMP(out)[row] = NULL_I64;
-                break;
-            }
-            AS_TIMESTAMP(out)[row] = timestamp_into_i64(timestamp_from_str(start, end - start));
+            AS_TIMESTAMP(out)[row] = len ? timestamp_into_i64(timestamp_from_str(start, len)) : NULL_I64;
             break;
         case TYPE_F64:
-            if (start == NULL || end == NULL) {
-                AS_F64(out)[row] = NULL_F64;
-                break;
-            }
-            f64_from_str(start, end - start, &AS_F64(out)[row]);
+            AS_F64(out)[row] = NULL_F64;
+            f64_from_str(start, len, &AS_F64(out)[row]);
             break;
         case TYPE_SYMBOL:
-            if (start == NULL || end == NULL) {
-                AS_SYMBOL(out)[row] = 0;
-                break;
-            }
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-
-            AS_SYMBOL(out)[row] = symbols_intern(start, n);
+            AS_SYMBOL(out)[row] = symbols_intern(start, len);
             break;
         case TYPE_C8:
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-            AS_LIST(out)[row] = string_from_str(start, n);
+            AS_LIST(out)[row] = string_from_str(start, len);
             break;
         case TYPE_GUID:
-            if (start == NULL || end == NULL) {
-                memcpy(AS_GUID(out)[row], NULL_GUID, sizeof(guid_t));
-                break;
-            }
-            if (guid_from_str(start, end - start, AS_GUID(out)[row]) == -1) {
+            if (guid_from_str(start, len, AS_GUID(out)[row]) == -1)
                 memcpy(AS_GUID(out)[row], NULL_GUID, sizeof(guid_t));
-                break;
-            }
             break;
         default:
             return err_type(TYPE_LIST, type, 0, 0);
@@ -466,14 +428,34 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
     return NULL_OBJ;
 }
 
+// A quoted field holding quotes (they are doubled)
+static obj_p parse_csv_escaped(i8_t type, str_p start, i64_t len, i64_t row, obj_p out) {
+    i64_t i, n;
+    obj_p str, res;
+
+    str = C8(len);
+    for (i = 0, n = 0; i < len; i++, n++) {
+        AS_C8(str)[n] = start[i];
+        if (start[i] == '"')
+            i++;
+    }
+
+    res = parse_csv_field(type, AS_C8(str), n, row, out);
+    drop_obj(str);
+
+    return res;
+}
+
 obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row, obj_p cols, c8_t sep) {
-    i64_t i, len;
+    i64_t i;
     str_p prev, pos;
+    b8_t escaped;
     obj_p res;
 
     for (i = 0, pos = start; i < cnt; i++) {
-        if (pos == NULL || end == NULL) {
-            res = parse_csv_field(types[i], NULL, NULL, row, AS_LIST(cols)[i]);
+        // the rest of fields are absent
+        if (pos >= end) {
+            res = parse_csv_field(types[i], end, 0, row, AS_LIST(cols)[i]);
 
             if (!is_null(res))
                 return res;
@@ -481,43 +463,45 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
             continue;
         }
 
-        len = end - pos;
         prev = pos;
 
         // quoted field?
-        if (len > 0 && *prev == '"') {
+        if (*prev == '"') {
             prev++;
-            pos = (str_p)memchr(prev, '"', len - 1);
+            escaped = B8_FALSE;
+
+            for (pos = prev; pos < end; pos++) {
+                if (*pos != '"')
+                    continue;
+                if (pos + 1 == end || pos[1] != '"')
+                    break;
+                escaped = B8_TRUE;
+                pos++;
+            }
 
-            if (pos == NULL)
+            // a closing quote ends the field
+            if (pos >= end || (pos + 1 < end && pos[1] != sep) || (pos + 1 == end && i < cnt - 1))
                 return err_length(0, 0, 0, 0, 0, 0);
 
-            res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
-            pos += 2;  // skip quote and comma
+            res = escaped ? parse_csv_escaped(types[i], prev, pos - prev, row, AS_LIST(cols)[i])
+                          : parse_csv_field(types[i], prev, pos - prev, row, AS_LIST(cols)[i]);
 
             if (!is_null(res))
                 return res;
 
-            continue;
-        }
-
-        if (len == 0) {
-            res = parse_csv_field(types[i], NULL, NULL, row, AS_LIST(cols)[i]);
-
-            if (!is_null(res))
-                return res;
+            pos += 2;  // skip quote and separator
 
             continue;
         }
 
-        pos = (str_p)memchr(pos, sep, len);
+        pos = (str_p)memchr(pos, sep, end - pos);
         if (pos == NULL) {
             if (i < cnt - 1)
                 return err_length(0, 0, 0, 0, 0, 0);
             pos = end;
         }
 
-        res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
+        res = parse_csv_field(types[i], prev, pos - prev, row, AS_LIST(cols)[i]);
 
         if (!is_null(res))
             return res;
@@ -528,40 +512,29 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
     return NULL_OBJ;
 }
 
-obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_t lines, i64_t start_line, obj_p cols,
-                      c8_t sep) {
-    i64_t i, j, k, l;
+// offsets are those of the lines to be parsed
+obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t offsets[], i64_t lines, i64_t start_line,
+                      obj_p cols, c8_t sep) {
+    i64_t i;
     str_p line_end, prev;
-    obj_p res = NULL_OBJ;
+    obj_p res;
+
+    for (i = 0; i < lines; i++) {
+        prev = buf + offsets[i];
+        line_end = buf + offsets[i + 1];
 
-    for (i = 0, prev = buf; i < lines; i++) {
         // Prefetch next cache lines for better memory access patterns
-        if (i + 1 < lines)
-            __builtin_prefetch(prev + 256, 0, 1);
-
-        line_end = (str_p)memchr(prev, '\n', buf + size - prev);
-        if (line_end == NULL) {
-            line_end = buf + size;  // Handle last line without newline
-            if (line_end > prev && *(line_end - 1) == '\r')
-                line_end--;  // Handle carriage return
-        }
+        __builtin_prefetch(prev + 256, 0, 1);
 
-        res = parse_csv_line(types, num_types, prev, line_end, start_line + i, cols, sep);
+        if (line_end > prev && *(line_end - 1) == '\n')
+            line_end--;
+        if (line_end > prev && *(line_end - 1) == '\r')
+            line_end--;  // Handle carriage return
 
-        if (res != NULL_OBJ) {
-            l = cols->len;
-            for (j = 0; j < l; j++) {
-                // Need to free allocated objects in case of compound type
-                if (AS_LIST(cols)[j]->type == TYPE_LIST) {
-                    for (k = 0; k < i; k++) {
-                        drop_obj(AS_LIST(AS_LIST(cols)[j])[k]);
-                    }
-                }
-                return res;
-            }
-        }
+        res = parse_csv_line(types, num_types, prev, line_end, start_line + i, cols, sep);
 
-        prev = line_end + 1;  // Move past the newline
+        if (!is_null(res))
+            return res;
     }
 
     return NULL_OBJ;  // Success
@@ -570,14 +543,13 @@ obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep) {
     obj_p err, res = NULL_OBJ;
-    i64_t i, l, batch_size, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
-    str_p batch_start, batch_end;
+    i64_t i, l, num_batches, lines_per_batch, start_line, end_line;
     pool_p pool = runtime_get()->pool;
 
     num_batches = pool_split_by(pool, total_lines, 0);
 
     if (num_batches == 1)
-        return parse_csv_range(types, num_types, buf, size, total_lines, 0, cols, sep);
+        return parse_csv_range(types, num_types, buf, line_offsets, total_lines, 0, cols, sep);
 
     pool_prepare(pool);
 
@@ -596,23 +568,16 @@ obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t tot
         end_line = start_line + lines_per_batch;
         if (end_line > total_lines)
             end_line = total_lines;
-        lines_in_batch = end_line - start_line;
-
-        // O(1) batch boundary lookup using line offset index
-        batch_start = buf + line_offsets[start_line];
-        batch_end = buf + line_offsets[end_line];  // end_line offset points to start of next batch
-
-        // Handle edge case for last batch
-        if (end_line >= total_lines)
-            batch_end = buf + size;
 
-        batch_size = batch_end - batch_start;
-        pool_add_task(pool, (raw_p)parse_csv_range, 8, types, num_types, batch_start, batch_size, lines_in_batch,
-                      start_line, cols, sep);
+        pool_add_task(pool, (raw_p)parse_csv_range, 8, types, num_types, buf, line_offsets + start_line,
+                      end_line - start_line, start_line, cols, sep);
     }
 
     res = pool_run(pool);
 
+    if (IS_ERR(res))
+        return res;
+
     l = res->len;
     for (i = 0; i < l; i++) {
         if (IS_ERR(AS_LIST(res)[i])) {
@@ -665,8 +630,9 @@ i64_t io_symbol_from_str_trimmed(str_p src, i64_t len) {
 
 obj_p ray_read_csv(obj_p *x, i64_t n) {
     i64_t fd, size;
-    i64_t i, l, len, lines, line_index_capacity;
-    i64_t *line_offsets = NULL;
+    i64_t i, j, l, len, lines;
+    i64_t *line_offsets;
+    line_index_t index;
     str_p buf, prev, pos, line;
     obj_p types, names, cols, path, res;
     i8_t type;
@@ -702,6 +668,11 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 if (type < 0)
                     type = -type;
 
+                if (type < TYPE_B8 || type > TYPE_C8) {
+                    drop_obj(types);
+                    return err_type(TYPE_LIST, type, 1, 0);
+                }
+
                 types->raw[i] = type;
             }
 
@@ -729,25 +700,24 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             if (buf == NULL) {
                 drop_obj(types);
                 fs_fclose(fd);
+                drop_obj(path);
                 return err_os();
             }
 
             // Build line offset index in single pass (replaces separate line counting + batch scanning)
-            lines = io_build_line_index(buf, size, &line_offsets);
+            lines = io_build_line_index(buf, size, sep, &index);
+            line_offsets = index.offsets;
 
             if (lines <= 0 || line_offsets == NULL) {
                 drop_obj(types);
                 fs_fclose(fd);
                 mmap_free(buf, size);
                 drop_obj(path);
+                if (line_offsets != NULL)
+                    heap_unmap(line_offsets, index.capacity * sizeof(i64_t));
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
-            // Calculate capacity for cleanup (next power of 2 >= lines+1)
-            line_index_capacity = 1024;
-            while (line_index_capacity < lines + 2)
-                line_index_capacity *= 2;
-
             // parse header (line 0)
             pos = buf + line_offsets[1];  // End of header line
             if (pos > buf && *(pos - 1) == '\n')
@@ -767,7 +737,8 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                         drop_obj(names);
                         fs_fclose(fd);
                         mmap_free(buf, size);
-                        heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
+                        drop_obj(path);
+                        heap_unmap(line_offsets, index.capacity * sizeof(i64_t));
                         return err_length(0, 0, 0, 0, 0, 0);
                     }
 
@@ -788,7 +759,7 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 fs_fclose(fd);
                 mmap_free(buf, size);
                 drop_obj(path);
-                heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
+                heap_unmap(line_offsets, index.capacity * sizeof(i64_t));
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
@@ -807,9 +778,11 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             // allocate columns
             cols = LIST(l);
             for (i = 0; i < l; i++) {
-                if (AS_C8(types)[i] == TYPE_C8)
+                if (AS_C8(types)[i] == TYPE_C8) {
                     AS_LIST(cols)[i] = LIST(lines);
-                else
+                    for (j = 0; j < lines; j++)
+                        AS_LIST(AS_LIST(cols)[i])[j] = NULL_OBJ;
+                } else
                     AS_LIST(cols)[i] = vector(AS_C8(types)[i], lines);
             }
 
@@ -821,14 +794,10 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             fs_fclose(fd);
             mmap_free(buf, size);
             drop_obj(path);
-            heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
+            heap_unmap(line_offsets, index.capacity * sizeof(i64_t));
 
             if (!is_null(res)) {
                 drop_obj(names);
-                l = cols->len;
-                for (i = 0; i < l; i++)
-                    AS_LIST(cols)[i]->len = 0;
-
                 drop_obj(cols);
                 return res;
             }
@@ -839,16 +808,40 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
     }
 }
 
-static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
+// Fields holding separators, quotes or newlines are quoted, their quotes are doubled
+static i64_t csv_str_into(lit_p s, i64_t n, c8_t sep, obj_p *dst) {
+    i64_t i, m;
+
+    for (i = 0; i < n; i++)
+        if (s[i] == sep || s[i] == '"' || s[i] == '\n' || s[i] == '\r')
+            break;
+
+    if (i == n)
+        return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+
+    m = str_fmt_into(dst, -1, "\"");
+    for (i = 0; i < n; i++)
+        m += str_fmt_into(dst, -1, (s[i] == '"') ? "\"\"" : "%c", s[i]);
+    m += str_fmt_into(dst, -1, "\"");
+
+    return m;
+}
+
+static i64_t csv_field_to_str(obj_p col, i64_t row, c8_t sep, obj_p *dst) {
     i64_t n;
-    str_p s;
-    obj_p str_obj;
+    i32_t prec;
+    c8_t num[32];
+    obj_p str_obj, val;
 
     switch (col->type) {
         case TYPE_B8:
             return AS_B8(col)[row] ? str_fmt_into(dst, -1, "true") : str_fmt_into(dst, -1, "false");
         case TYPE_U8:
             return str_fmt_into(dst, -1, "%u", AS_U8(col)[row]);
+        case TYPE_I16:
+            if (AS_I16(col)[row] == NULL_I16)
+                return 0;
+            return str_fmt_into(dst, -1, "%d", AS_I16(col)[row]);
         case TYPE_I32:
             if (AS_I32(col)[row] == NULL_I32)
                 return 0;
@@ -884,47 +877,46 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
         case TYPE_F64:
             if (ISNANF64(AS_F64(col)[row]))
                 return 0;
-            return str_fmt_into(dst, -1, "%g", AS_F64(col)[row]);
+            // the shortest form that is read back as the same number
+            for (prec = 15; prec <= 17; prec++) {
+                snprintf(num, sizeof(num), "%.*g", prec, AS_F64(col)[row]);
+                if (strtod(num, NULL) == AS_F64(col)[row])
+                    break;
+            }
+            return str_fmt_into(dst, -1, "%s", num);
         case TYPE_SYMBOL:
             if (AS_SYMBOL(col)[row] == NULL_I64)
                 return 0;
-            s = str_from_symbol(AS_SYMBOL(col)[row]);
-            return str_fmt_into(dst, -1, "%s", s);
+            return csv_str_into(str_from_symbol(AS_SYMBOL(col)[row]), SYMBOL_STRLEN(AS_SYMBOL(col)[row]), sep, dst);
         case TYPE_C8:
-            // String type - output with quotes if it contains separator or quotes
-            s = AS_C8(col);
-            n = col->len;
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            return csv_str_into(AS_C8(col) + row, 1, sep, dst);
         case TYPE_LIST:
-            // List of strings
+            // List of strings, other values as they are printed
             str_obj = AS_LIST(col)[row];
             if (str_obj == NULL_OBJ || str_obj->type == TYPE_NULL)
                 return 0;
-            s = AS_C8(str_obj);
-            n = str_obj->len;
-            // Check if we need to quote (contains separator, newline, or quote)
-            {
-                i64_t i;
-                b8_t need_quote = B8_FALSE;
-                for (i = 0; i < n; i++) {
-                    if (s[i] == ',' || s[i] == '"' || s[i] == '\n' || s[i] == '\r') {
-                        need_quote = B8_TRUE;
-                        break;
-                    }
-                }
-                if (need_quote) {
-                    i64_t m = str_fmt_into(dst, -1, "\"");
-                    for (i = 0; i < n; i++) {
-                        if (s[i] == '"')
-                            m += str_fmt_into(dst, -1, "\"\"");
-                        else
-                            m += str_fmt_into(dst, -1, "%c", s[i]);
-                    }
-                    m += str_fmt_into(dst, -1, "\"");
-                    return m;
-                }
-            }
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            if (str_obj->type == TYPE_C8)
+                return csv_str_into(AS_C8(str_obj), str_obj->len, sep, dst);
+            val = obj_fmt(str_obj, B8_FALSE);
+            n = val->len;
+            if (n > 0 && AS_C8(val)[n - 1] == '\0')
+                n--;
+            n = csv_str_into(AS_C8(val), n, sep, dst);
+            drop_obj(val);
+            return n;
+        case TYPE_ENUM:
+        case TYPE_MAPLIST:
+            // columns of stored tables
+            str_obj = at_idx(col, row);
+            val = (str_obj->type == -TYPE_SYMBOL) ? vector(TYPE_SYMBOL, 1) : LIST(1);
+            if (val->type == TYPE_SYMBOL) {
+                AS_SYMBOL(val)[0] = str_obj->i64;
+                drop_obj(str_obj);
+            } else
+                AS_LIST(val)[0] = str_obj;
+            n = csv_field_to_str(val, 0, sep, dst);
+            drop_obj(val);
+            return n;
         case TYPE_GUID:
             if (memcmp(AS_GUID(col)[row], NULL_GUID, sizeof(guid_t)) == 0)
                 return 0;
@@ -987,7 +979,7 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
 
             // Write header row
             for (i = 0; i < l; i++) {
-                str_fmt_into(&buf, -1, "%s", str_from_symbol(AS_SYMBOL(names)[i]));
+                csv_str_into(str_from_symbol(AS_SYMBOL(names)[i]), SYMBOL_STRLEN(AS_SYMBOL(names)[i]), sep, &buf);
                 if (i < l - 1)
                     str_fmt_into(&buf, -1, "%c", sep);
             }
@@ -997,7 +989,7 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
             for (j = 0; j < rows; j++) {
                 for (i = 0; i < l; i++) {
                     col = AS_LIST(cols)[i];
-                    csv_field_to_str(col, j, &buf);
+                    csv_field_to_str(col, j, sep, &buf);
                     if (i < l - 1)
                         str_fmt_into(&buf, -1, "%c", sep);
                 }
diff --git a/core/io.h b/core/io.h
index 3ee9e67..dae2270 100644
--- a/core/io.h
+++ b/core/io.h
@@ -43,6 +43,13 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile);
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep);
 i64_t io_symbol_from_str_trimmed(str_p src, i64_t len);
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out);
+// Start of lines of a CSV file
+typedef struct line_index_t {
+    i64_t *offsets;
+    i64_t capacity;
+    i64_t count;
+} line_index_t;
+
+i64_t io_build_line_index(str_p buf, i64_t size, c8_t sep, line_index_t *idx);
 
 #endif  // IO_H
-- 
2.43.0


From 260612b439dabac09dbd28800acf46f611df9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:40 +0000
Subject: [PATCH 40/51] fix: casts of nulls gave other values, casts to B8 cut
 numbers to a byte, text that is no number was cast to uninitialized values,
 malformed dates were not null

Handlers of try got the message with a trailing NUL.
---
 core/date.c     |   3 ++
 core/eval.c     |   2 +-
 core/rayforce.c | 130 ++++++++++++++++++++++++++++++------------------
 3 files changed, 86 insertions(+), 49 deletions(-)

diff --git a/core/date.c b/core/date.c
index 5371770..5d20ab0 100644
--- a/core/date.c
+++ b/core/date.c
@@ -125,6 +125,9 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 i32_t date_into_i32(datestruct_t dt) {
     i64_t leap, mdays, yy, mm, dd, ydays;
 
+    if (dt.null)
+        return NULL_I32;
+
     yy = (dt.year > 0) ? dt.year - 1 : 0;
     ydays = years_by_days(yy);
     leap = leap_year(dt.year);
diff --git a/core/eval.c b/core/eval.c
index cf67a7a..25ad1e7 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -1069,7 +1069,7 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
                     return err_arity(1, AS_LAMBDA(fn)->args->len, 0);
                 }
                 // Push error message as string for catch handler
-                vm_stack_push(str_fmt(-1, "%s", err_msg(res)));
+                vm_stack_push(vn_c8("%s", err_msg(res)));
                 drop_obj(res);
                 fn = clone_obj(fn);
                 res = call(fn, 1);
diff --git a/core/rayforce.c b/core/rayforce.c
index 17c1f62..bfc4150 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2443,12 +2443,30 @@ i64_t find_raw(obj_p obj, raw_p val) {
     }
 }
 
+static b8_t is_null_atom(obj_p obj) {
+    switch (obj->type) {
+        case -TYPE_I16:
+            return obj->i16 == NULL_I16;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            return obj->i32 == NULL_I32;
+        case -TYPE_I64:
+        case -TYPE_TIMESTAMP:
+            return obj->i64 == NULL_I64;
+        case -TYPE_F64:
+            return ISNANF64(obj->f64);
+        default:
+            return B8_FALSE;
+    }
+}
+
 obj_p cast_obj(i8_t type, obj_p obj) {
     obj_p v, res;
     u8_t* g;
-    i32_t num_i32;
-    i64_t i, l, num_i64;
-    f64_t num_f64;
+    i32_t num_i32 = NULL_I32;
+    i64_t i, l, num_i64 = NULL_I64;
+    f64_t num_f64 = NULL_F64;
     lit_p str;
 
     // Do nothing if the type is the same
@@ -2458,21 +2476,24 @@ obj_p cast_obj(i8_t type, obj_p obj) {
     if (IS_VECTOR(obj) && obj->len == 0)
         return vector(type, 0);
 
+    if (type == -TYPE_SYMBOL && is_null_atom(obj))
+        return null(TYPE_SYMBOL);
+
     switch (MTYPE2(type, obj->type)) {
         // B8 atom conversions
         case MTYPE2(-TYPE_B8, -TYPE_U8):
             return b8(obj->u8 != 0);
         case MTYPE2(-TYPE_B8, -TYPE_I16):
-            return b8(obj->i16 != 0);
+            return b8(i64_to_b8(i16_to_i64(obj->i16)));
         case MTYPE2(-TYPE_B8, -TYPE_I32):
         case MTYPE2(-TYPE_B8, -TYPE_DATE):
         case MTYPE2(-TYPE_B8, -TYPE_TIME):
-            return b8(obj->i32 != 0);
+            return b8(i64_to_b8(i32_to_i64(obj->i32)));
         case MTYPE2(-TYPE_B8, -TYPE_I64):
         case MTYPE2(-TYPE_B8, -TYPE_TIMESTAMP):
-            return b8(obj->i64 != 0);
+            return b8(i64_to_b8(obj->i64));
         case MTYPE2(-TYPE_B8, -TYPE_F64):
-            return b8(obj->f64 != 0.0);
+            return b8(obj->f64 != 0.0 && !ISNANF64(obj->f64));
 
         // U8 atom conversions
         case MTYPE2(-TYPE_U8, -TYPE_B8):
@@ -2487,7 +2508,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_U8, -TYPE_TIMESTAMP):
             return u8(obj->i64);
         case MTYPE2(-TYPE_U8, -TYPE_F64):
-            return u8((u8_t)obj->f64);
+            return u8((u8_t)f64_to_i64(obj->f64));
 
         // C8 atom conversions
         case MTYPE2(-TYPE_C8, -TYPE_B8):
@@ -2516,12 +2537,12 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I16, -TYPE_I32):
         case MTYPE2(-TYPE_I16, -TYPE_DATE):
         case MTYPE2(-TYPE_I16, -TYPE_TIME):
-            return i16(obj->i32);
+            return i16(i32_to_i16(obj->i32));
         case MTYPE2(-TYPE_I16, -TYPE_I64):
         case MTYPE2(-TYPE_I16, -TYPE_TIMESTAMP):
-            return i16(obj->i64);
+            return i16(i64_to_i16(obj->i64));
         case MTYPE2(-TYPE_I16, -TYPE_F64):
-            return i16((i16_t)obj->f64);
+            return i16(i64_to_i16(f64_to_i64(obj->f64)));
 
         // I32 atom conversions
         case MTYPE2(-TYPE_I32, -TYPE_B8):
@@ -2529,15 +2550,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I32, -TYPE_U8):
             return i32(obj->u8);
         case MTYPE2(-TYPE_I32, -TYPE_I16):
-            return i32(obj->i16);
+            return i32(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_I32, -TYPE_I64):
         case MTYPE2(-TYPE_I32, -TYPE_TIMESTAMP):
-            return i32(obj->i64);
+            return i32(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_I32, -TYPE_TIME):
         case MTYPE2(-TYPE_I32, -TYPE_DATE):
             return i32(obj->i32);
         case MTYPE2(-TYPE_I32, -TYPE_F64):
-            return i32((i32_t)obj->f64);
+            return i32(i64_to_i32(f64_to_i64(obj->f64)));
 
         // I64 atom conversions
         case MTYPE2(-TYPE_I64, -TYPE_B8):
@@ -2545,15 +2566,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I64, -TYPE_U8):
             return i64(obj->u8);
         case MTYPE2(-TYPE_I64, -TYPE_I16):
-            return i64(obj->i16);
+            return i64(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_I64, -TYPE_I32):
         case MTYPE2(-TYPE_I64, -TYPE_TIME):
         case MTYPE2(-TYPE_I64, -TYPE_DATE):
-            return i64(obj->i32);
+            return i64(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_I64, -TYPE_TIMESTAMP):
             return i64(obj->i64);
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return i64((i64_t)obj->f64);
+            return i64(f64_to_i64(obj->f64));
 
         // F64 atom conversions
         case MTYPE2(-TYPE_F64, -TYPE_B8):
@@ -2561,14 +2582,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_F64, -TYPE_U8):
             return f64((f64_t)obj->u8);
         case MTYPE2(-TYPE_F64, -TYPE_I16):
-            return f64((f64_t)obj->i16);
+            return f64(i16_to_f64(obj->i16));
         case MTYPE2(-TYPE_F64, -TYPE_I32):
         case MTYPE2(-TYPE_F64, -TYPE_DATE):
         case MTYPE2(-TYPE_F64, -TYPE_TIME):
-            return f64((f64_t)obj->i32);
+            return f64(i32_to_f64(obj->i32));
         case MTYPE2(-TYPE_F64, -TYPE_I64):
         case MTYPE2(-TYPE_F64, -TYPE_TIMESTAMP):
-            return f64((f64_t)obj->i64);
+            return f64(i64_to_f64(obj->i64));
 
         // DATE atom conversions
         case MTYPE2(-TYPE_DATE, -TYPE_B8):
@@ -2576,15 +2597,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_DATE, -TYPE_U8):
             return adate(obj->u8);
         case MTYPE2(-TYPE_DATE, -TYPE_I16):
-            return adate(obj->i16);
+            return adate(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_DATE, -TYPE_I32):
         case MTYPE2(-TYPE_DATE, -TYPE_TIME):
             return adate(obj->i32);
         case MTYPE2(-TYPE_DATE, -TYPE_I64):
         case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):
-            return adate((i32_t)obj->i64);
+            return adate(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_DATE, -TYPE_F64):
-            return adate((i32_t)obj->f64);
+            return adate(i64_to_i32(f64_to_i64(obj->f64)));
 
         // TIME atom conversions
         case MTYPE2(-TYPE_TIME, -TYPE_B8):
@@ -2592,15 +2613,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIME, -TYPE_U8):
             return atime(obj->u8);
         case MTYPE2(-TYPE_TIME, -TYPE_I16):
-            return atime(obj->i16);
+            return atime(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
         case MTYPE2(-TYPE_TIME, -TYPE_DATE):
             return atime(obj->i32);
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
         case MTYPE2(-TYPE_TIME, -TYPE_TIMESTAMP):
-            return atime((i32_t)obj->i64);
+            return atime(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
-            return atime((i32_t)obj->f64);
+            return atime(i64_to_i32(f64_to_i64(obj->f64)));
 
         // TIMESTAMP atom conversions
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_B8):
@@ -2608,15 +2629,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_U8):
             return timestamp((i64_t)obj->u8);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I16):
-            return timestamp((i64_t)obj->i16);
+            return timestamp(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I32):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp((i64_t)obj->i32);
+            return timestamp(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(obj->i64);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_F64):
-            return timestamp((i64_t)obj->f64);
+            return timestamp(f64_to_i64(obj->f64));
 
         // SYMBOL atom conversions
         case MTYPE2(-TYPE_SYMBOL, -TYPE_B8):
@@ -2654,7 +2675,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_SYMBOL, -TYPE_TIMESTAMP):
         case MTYPE2(-TYPE_SYMBOL, -TYPE_GUID):
             v = obj_fmt(obj, B8_FALSE);
-            res = symbol(AS_C8(v), strlen(AS_C8(v)));
+            res = symbol(AS_C8(v), v->len);
             drop_obj(v);
             return res;
         case MTYPE2(-TYPE_SYMBOL, TYPE_C8):
@@ -2668,7 +2689,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             return u8((u8_t)num_i32);
         case MTYPE2(-TYPE_I16, TYPE_C8):
             i32_from_str(AS_C8(obj), obj->len, &num_i32);
-            return i16((i16_t)num_i32);
+            return i16(i32_to_i16(num_i32));
         case MTYPE2(-TYPE_I32, TYPE_C8):
             i32_from_str(AS_C8(obj), obj->len, &num_i32);
             return i32(num_i32);
@@ -2689,13 +2710,21 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_DICT, TYPE_TABLE):
             return dict(clone_obj(AS_LIST(obj)[0]), clone_obj(AS_LIST(obj)[1]));
         // B8/U8 vector conversions
+        case MTYPE2(TYPE_B8, TYPE_U8):
+        case MTYPE2(TYPE_U8, TYPE_B8):
+            l = obj->len;
+            res = U8(l);
+            res->type = type;
+            for (i = 0; i < l; i++)
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_U8(obj)[i] != 0 : AS_U8(obj)[i];
+            return res;
         case MTYPE2(TYPE_B8, TYPE_I16):
         case MTYPE2(TYPE_U8, TYPE_I16):
             l = obj->len;
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I16(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? i64_to_b8(i16_to_i64(AS_I16(obj)[i])) : (u8_t)AS_I16(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I32):
         case MTYPE2(TYPE_B8, TYPE_DATE):
@@ -2707,7 +2736,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I32(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? i64_to_b8(i32_to_i64(AS_I32(obj)[i])) : (u8_t)AS_I32(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I64):
         case MTYPE2(TYPE_B8, TYPE_TIMESTAMP):
@@ -2717,7 +2746,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? i64_to_b8(AS_I64(obj)[i]) : (u8_t)AS_I64(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_F64):
         case MTYPE2(TYPE_U8, TYPE_F64):
@@ -2725,7 +2754,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_F64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? (AS_F64(obj)[i] != 0.0 && !ISNANF64(AS_F64(obj)[i]))
+                                                  : (u8_t)f64_to_i64(AS_F64(obj)[i]);
             return res;
 
         // I16 vector conversions
@@ -2742,20 +2772,20 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I32(obj)[i];
+                AS_I16(res)[i] = i32_to_i16(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_I64):
         case MTYPE2(TYPE_I16, TYPE_TIMESTAMP):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I64(obj)[i];
+                AS_I16(res)[i] = i64_to_i16(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_F64):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_F64(obj)[i];
+                AS_I16(res)[i] = i64_to_i16(f64_to_i64(AS_F64(obj)[i]));
             return res;
 
         // I32/DATE/TIME vector conversions (all use i32 storage)
@@ -2776,7 +2806,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I16(obj)[i];
+                AS_I32(res)[i] = i16_to_i32(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_I64):
         case MTYPE2(TYPE_I32, TYPE_TIMESTAMP):
@@ -2787,7 +2817,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I64(obj)[i];
+                AS_I32(res)[i] = i64_to_i32(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_DATE):
         case MTYPE2(TYPE_I32, TYPE_TIME):
@@ -2806,7 +2836,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_F64(obj)[i];
+                AS_I32(res)[i] = i64_to_i32(f64_to_i64(AS_F64(obj)[i]));
             return res;
 
         // I64/TIMESTAMP vector conversions (all use i64 storage)
@@ -2824,7 +2854,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I16(obj)[i];
+                AS_I64(res)[i] = i16_to_i64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_I32):
         case MTYPE2(TYPE_I64, TYPE_DATE):
@@ -2835,14 +2865,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I32(obj)[i];
+                AS_I64(res)[i] = i32_to_i64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_F64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_F64):
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_F64(obj)[i];
+                AS_I64(res)[i] = f64_to_i64(AS_F64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_TIMESTAMP):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -2864,7 +2894,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I16(obj)[i];
+                AS_F64(res)[i] = i16_to_f64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I32):
         case MTYPE2(TYPE_F64, TYPE_DATE):
@@ -2872,14 +2902,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I32(obj)[i];
+                AS_F64(res)[i] = i32_to_f64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_TIMESTAMP):
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I64(obj)[i];
+                AS_F64(res)[i] = i64_to_f64(AS_I64(obj)[i]);
             return res;
 
         // SYMBOL vector conversion from I64
@@ -2888,8 +2918,12 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = vector(TYPE_SYMBOL, l);
             for (i = 0; i < l; i++) {
                 obj_p sym;
+                if (AS_I64(obj)[i] == NULL_I64) {
+                    AS_I64(res)[i] = NULL_I64;
+                    continue;
+                }
                 v = str_fmt(-1, "%lld", AS_I64(obj)[i]);
-                sym = symbol(AS_C8(v), v->len);
+                sym = symbol(AS_C8(v), strlen(AS_C8(v)));
                 AS_I64(res)[i] = sym->i64;
                 drop_obj(sym);
                 drop_obj(v);
-- 
2.43.0


From 7ab9ef714833add4652e813cf9458482ec1c2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:00 +0000
Subject: [PATCH 41/51] fix: a cast of a long symbol to text gave the text cut
 as for display

---
 core/rayforce.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index bfc4150..fa06360 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2962,6 +2962,11 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             }
 
             return res;
+        case MTYPE2(TYPE_C8, -TYPE_SYMBOL):
+            // the whole name, formatting cuts long ones
+            if (obj->i64 == NULL_I64)
+                return obj_fmt(obj, B8_FALSE);
+            return string_from_str(str_from_symbol(obj->i64), SYMBOL_STRLEN(obj->i64));
         default:
             if (type == TYPE_C8)
                 return obj_fmt(obj, B8_FALSE);
-- 
2.43.0


From d78c60118ddea8ab0f7d094346f456aabfc13782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:08 +0000
Subject: [PATCH 42/51] fix: infinite timers fired once, ids and removal of
 timers failed after the first expiry

---
 core/chrono.c | 73 ++++++++++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index f89a20f..16d056c 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -236,8 +236,10 @@ nil_t timer_down(timers_p timers, i64_t index) {
 }
 
 i64_t timer_push(timers_p timers, ray_timer_p timer) {
-    if (timers->size == timers->capacity)
-        return -1;
+    if (timers->size == timers->capacity) {
+        timers->capacity *= 2;
+        timers->timers = (ray_timer_p *)heap_realloc(timers->timers, timers->capacity * sizeof(ray_timer_p));
+    }
 
     timers->timers[timers->size] = timer;
     timer_up(timers, timers->size);
@@ -285,8 +287,9 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
 
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
+    timer_push(timers, timer);
 
-    return timer_push(timers, timer);
+    return id;
 }
 
 nil_t timer_del(timers_p timers, i64_t id) {
@@ -294,15 +297,15 @@ nil_t timer_del(timers_p timers, i64_t id) {
 
     l = (i64_t)timers->size;
 
-    if (id < 0 || id >= l)
-        return;
-
     for (i = 0; i < l; i++) {
         if (timers->timers[i]->id == id) {
             timer_free(timers->timers[i]);
             timers->timers[i] = timers->timers[timers->size - 1];
             timers->size--;
-            timer_down(timers, i);
+            if (i < timers->size) {
+                timer_up(timers, i);
+                timer_down(timers, i);
+            }
             return;
         }
     }
@@ -311,51 +314,41 @@ nil_t timer_del(timers_p timers, i64_t id) {
 i64_t timer_next_timeout(timers_p timers) {
     i64_t now = get_time_millis();
     ray_timer_p timer;
-    obj_p res;
-
-    if (timers->size == 0)
-        return TIMEOUT_INFINITY;
+    obj_p clb, res;
 
     while (timers->size > 0 && timers->timers[0]->exp <= now) {
-        // Pop the top timer for processing
-        timer = timer_pop(timers);
+        timer = timers->timers[0];
+        clb = clone_obj(timer->clb);
+
+        // Rearm or remove the timer first: the callback may remove it (or any other one)
+        if (timer->num == NULL_I64 || timer->num > 1) {
+            if (timer->num != NULL_I64)
+                timer->num--;  // Decrement repeat count if not infinite
+
+            timer->exp += timer->tic;
+            timer_down(timers, 0);
+        } else
+            timer_free(timer_pop(timers));
 
         // Execute the callback associated with the timer
         vm_stack_push(i64(now));
-        res = call(timer->clb, 1);
+        res = call(clb, 1);
         drop_obj(vm_stack_pop());
+        drop_obj(clb);
 
         if (IS_ERR(res))
             io_write(1, MSG_TYPE_RESP, res);
 
         drop_obj(res);
+    }
 
-        // Check if the timer should be repeated
-        if (timer->num > 0) {
-            if (timer->num > 1) {
-                timer->num--;  // Decrement repeat count if not infinite
-
-                // Update the timer's expiration time for the next occurrence
-                timer->exp += timer->tic;
-
-                // Re-add the timer to the heap
-                timer_push(timers, timer);
-            } else {
-                // Free the timer if it should not be repeated
-                timer_free(timer);
-            }
-        } else {
-            // Free the timer if it should not be repeated
-            timer_free(timer);
-        }
+    if (timers->size == 0)
+        return TIMEOUT_INFINITY;
 
-        // Update `now` in case time has advanced during processing
-        now = get_time_millis();
-    }
+    // Time may have advanced during processing: what is due by now is processed after pending events
+    now = timers->timers[0]->exp - get_time_millis();
 
-    // After processing all expired (and potentially re-added) timers,
-    // return the expiration of the next timer or TIMEOUT_INFINITY
-    return (timers->size > 0) ? timers->timers[0]->exp - now : TIMEOUT_INFINITY;
+    return (now < 0) ? 0 : (now > 0x7fffffff) ? 0x7fffffff : now;
 }
 
 obj_p ray_timer(obj_p *x, i64_t n) {
@@ -392,6 +385,10 @@ obj_p ray_timer(obj_p *x, i64_t n) {
     if (AS_LAMBDA(x[2])->args->len != 1)
         return err_arity(1, AS_LAMBDA(x[2])->args->len, 3);
 
+    // Infinite timers need time to pass in between
+    if (x[1]->i64 == 0 && x[0]->i64 < 1)
+        return err_domain(1, 0);
+
     timers = runtime_get()->poll->timers;
 
     num = (i64_t)((x[1]->i64 == 0) ? NULL_I64 : x[1]->i64);
-- 
2.43.0


From 7e914467005aa727cdb00089971a662b107172e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:08 +0000
Subject: [PATCH 43/51] fix: reading an unterminated string read beyond the
 text, names beginning with a keyword were split, 0x without digits was read
 as garbage

---
 core/parse.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/parse.c b/core/parse.c
index 6faa1f9..0b0814f 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -516,6 +516,10 @@ obj_p parse_number(parser_t *parser) {
 
     if (remaining >= 2 && *parser->current == '0' && (*(parser->current + 1) == 'x')) {
         r = u8_from_str(parser->current + 2, remaining - 2, &num_u8);
+        if (r == 0) {
+            nfo_insert(parser->nfo, parser->count, span);
+            return parse_error(parser, parser->count++, EC_PARSE);
+        }
         shift(parser, r + 2);
         span_extend(parser, &span);
         num = u8(num_u8);
@@ -649,11 +653,11 @@ obj_p parse_string(parser_t *parser) {
     str_p pos = parser->current + 1;  // skip '"'
     i32_t i, len = 0;
     obj_p str, err;
-    c8_t lf = '\n', cr = '\r', tb = '\t', bs = '\\', octal_val;
+    c8_t lf = '\n', cr = '\r', tb = '\t', bs = '\\', octal_val = 0;
 
     str = C8(0);
 
-    while (!at_eof(parser)) {
+    while (pos < parser->input + parser->input_len) {
         if (*pos == '\\') {
             switch (*++pos) {
                 case '\\':
@@ -730,6 +734,12 @@ obj_p parse_string(parser_t *parser) {
     return str;
 }
 
+// A keyword ends where a name would end: "nullable" is a name
+static b8_t is_keyword(lit_p pos, i64_t remaining, lit_p word, i64_t len) {
+    return remaining >= len && strncmp(pos, word, len) == 0 &&
+           (remaining == len || !(is_alphanum(pos[len]) || is_op(pos[len])));
+}
+
 obj_p parse_symbol(parser_t *parser) {
     str_p pos = parser->current;
     obj_p res = NULL_OBJ;
@@ -737,7 +747,7 @@ obj_p parse_symbol(parser_t *parser) {
     i64_t id;
     i64_t remaining = parser->input_len - (pos - parser->input);
 
-    if (remaining >= 4 && strncmp(pos, "true", 4) == 0) {
+    if (is_keyword(pos, remaining, "true", 4)) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = b8(B8_TRUE);
@@ -745,7 +755,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 5 && strncmp(pos, "false", 5) == 0) {
+    if (is_keyword(pos, remaining, "false", 5)) {
         shift(parser, 5);
         span_extend(parser, &span);
         res = b8(B8_FALSE);
@@ -753,7 +763,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 4 && strncmp(pos, "null", 4) == 0) {
+    if (is_keyword(pos, remaining, "null", 4)) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = NULL_OBJ;
-- 
2.43.0


From 75fe922b97e2618b22cbc4f5bccb6b743fb9c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:24 +0000
Subject: [PATCH 44/51] fix: what a number like 1111.51.5 reads as depended on
 the white space after it

---
 core/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/parse.c b/core/parse.c
index 0b0814f..aba36dc 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -273,7 +273,7 @@ obj_p parse_timestamp(parser_t *parser) {
     span_t span = span_start(parser);
     i64_t remaining = parser->input_len - (current - parser->input);
 
-    if (remaining < 10 || current[4] != '.' || current[7] != '.')
+    if (remaining < 10 || current[4] != '.' || current[7] != '.' || !is_digit(current[8]) || !is_digit(current[9]))
         return PARSE_ADVANCE;
 
     // parse year
-- 
2.43.0


From afe7b9d3017bea8e258d7742ac3e8378ef49b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 45/51] fix: line editor lost or repeated history lines, Down
 without a saved line cleared the line, kill in continued input showed the
 wrong prompt

---
 app/term.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/app/term.c b/app/term.c
index c429e91..472ae84 100644
--- a/app/term.c
+++ b/app/term.c
@@ -349,9 +349,10 @@ nil_t hist_add(hist_p hist, c8_t buf[], i64_t len) {
 
     pos = hist->pos;
     hist->index = (pos > 0) ? pos - 1 : 0;
+    hist->search_dir = 1;
     size = hist->size;
     index = hist->index;
-    last_len = 0;
+    last_len = index;
 
     // Find the previous line
     while (index > 0) {
@@ -479,11 +480,12 @@ i64_t hist_restore_current(hist_p hist, c8_t buf[]) {
     l = hist->curr_len;
 
     if (hist->curr_saved == 0)
-        return l;
+        return -1;
 
     memcpy(buf, hist->curr, l);
     buf[l] = '\0';
     hist->curr_saved = 0;
+    hist->curr_len = 0;
     return l;
 }
 
@@ -492,6 +494,13 @@ nil_t hist_reset_current(hist_p hist) {
     hist->curr_len = 0;
 }
 
+// Back to the line after the last one
+static nil_t hist_rewind(hist_p hist) {
+    hist_reset_current(hist);
+    hist->index = (hist->pos > 0) ? hist->pos - 1 : 0;
+    hist->search_dir = 1;
+}
+
 // Get current line number (for error traces) - returns next line number
 i64_t hist_line_number(hist_p hist) {
     return hist ? hist->line_count + 1 : 1;  // 1-based line numbers
@@ -1334,6 +1343,8 @@ obj_p term_handle_return(term_p term) {
     b8_t onoff;
     i32_t total_len;
 
+    hist_rewind(term->hist);
+
     if (term->buf_len == 0 && term->multiline_len == 0)
         return NULL_OBJ;
 
@@ -1403,12 +1414,15 @@ obj_p term_handle_return(term_p term) {
 }
 
 obj_p term_handle_escape(term_p term) {
-    i64_t l;
+    i64_t l, saved;
 
     // Up arrow esc
     if (IS_ESC(term, "\x1b[A")) {
+        saved = term->hist->curr_saved;
         hist_save_current(term->hist, term->buf, term->buf_len);
         l = hist_prev(term->hist, term->buf);
+        if (l == 0 && !saved)
+            hist_reset_current(term->hist);
         if (l > 0) {
             term->buf_len = l;
             term->buf_pos = l;
@@ -1425,8 +1439,10 @@ obj_p term_handle_escape(term_p term) {
             term->buf_pos = l;
         } else {
             l = hist_restore_current(term->hist, term->buf);
-            term->buf_len = l;
-            term->buf_pos = l;
+            if (l >= 0) {
+                term->buf_len = l;
+                term->buf_pos = l;
+            }
         }
         term_redraw(term);
         goto proceed;
@@ -1551,7 +1567,10 @@ nil_t term_handle_ctrl_u(term_p term) {
     // Reset history state
     hist_reset_current(term->hist);
     // Redraw the prompt
-    term_prompt(term);
+    if (term->multiline_len > 0)
+        term_continuation_prompt(term);
+    else
+        term_prompt(term);
 }
 
 obj_p term_read(term_p term) {
-- 
2.43.0


From a658db4d6ff62c153f21d281a36eeb2848fb0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 46/51] fix: line editor waited forever after a mismatched
 bracket, counted brackets in comments and characters, ^C kept pending lines

---
 app/term.c   | 21 +++++++++++++++++----
 core/parse.h |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/app/term.c b/app/term.c
index 472ae84..55bbabe 100644
--- a/app/term.c
+++ b/app/term.c
@@ -1307,10 +1307,19 @@ b8_t term_check_balance(c8_t *buf, i32_t len) {
         if (in_dquote)
             continue;
 
+        // Skip comments
+        if (c == ';') {
+            while (i + 1 < len && buf[i + 1] != '\n')
+                i++;
+            continue;
+        }
+
         // Handle single-quote (symbol literal) - skip the next non-whitespace sequence
         if (c == KEYCODE_SQUOTE) {
             // Single quotes in this language start symbol literals, not strings
-            // They don't need balancing, just skip them
+            // They don't need balancing, just skip them (and the character of a character literal)
+            if (i + 2 < len && buf[i + 2] == KEYCODE_SQUOTE && buf[i + 1] != '\\' && !at_term(buf[i + 1]))
+                i += 2;
             continue;
         }
 
@@ -1322,12 +1331,13 @@ b8_t term_check_balance(c8_t *buf, i32_t len) {
         }
         // Track closing brackets/parens/braces
         else if (c == KEYCODE_RPAREN || c == KEYCODE_RBRACKET || c == KEYCODE_RCURLY) {
+            // No further input can balance these, leave the error to the parser
             if (depth == 0)
-                return B8_FALSE;  // More closing than opening
+                return B8_TRUE;  // More closing than opening
 
             c8_t expected = opposite_paren(stack[depth - 1]);
             if (c != expected)
-                return B8_FALSE;  // Mismatched brackets
+                return B8_TRUE;  // Mismatched brackets
 
             depth--;
         }
@@ -1616,8 +1626,11 @@ obj_p term_read(term_p term) {
             term_handle_tab(term);
             term->input_len = 0;
             break;
-        case KEYCODE_CTRL_U:
         case KEYCODE_CTRL_C:
+            // Cancel the whole input
+            term->multiline_len = 0;
+            // fallthrough
+        case KEYCODE_CTRL_U:
             autocp_reset_current(term);
             term_handle_ctrl_u(term);
             term->input_len = 0;
diff --git a/core/parse.h b/core/parse.h
index 5c34bbb..f7a02e4 100644
--- a/core/parse.h
+++ b/core/parse.h
@@ -50,5 +50,6 @@ b8_t is_digit(c8_t c);
 b8_t is_alpha(c8_t c);
 b8_t is_alphanum(c8_t c);
 b8_t is_op(c8_t c);
+b8_t at_term(c8_t c);
 
 #endif  // PARSE_H
-- 
2.43.0


From a0f2a5f2fa7e31c03fdb9db9e72ff091f41dd7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 47/51] fix: line editor wrote beyond the line and the stack of
 brackets when completing full lines

---
 app/term.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/app/term.c b/app/term.c
index 55bbabe..c1a7a13 100644
--- a/app/term.c
+++ b/app/term.c
@@ -1000,7 +1000,7 @@ c8_t opposite_paren(c8_t c) {
 
 paren_t term_find_open_paren(term_p term) {
     i32_t i, p, squote, dquote;
-    paren_t parens[TERM_BUF_SIZE];
+    paren_t parens[2 * TERM_BUF_SIZE];
     c8_t c, prev;
 
     p = 0;
@@ -1160,6 +1160,8 @@ b8_t term_autocomplete_word(term_p term) {
     // Note: word is not being freed here bacause it is a global string like entry or symbol
 redraw:
     l = strlen(word);
+    if (start + l + len - end >= TERM_BUF_SIZE)
+        return B8_FALSE;
     memcpy(tbuf + start, word, l);
     memcpy(tbuf + start + l, hbuf + end, len - end);
     tbuf[start + l + len - end] = '\0';
@@ -1221,6 +1223,9 @@ b8_t term_autocomplete_path(term_p term, i64_t start) {
             if (prefix_len == m)
                 continue;
 
+            if (start + path_len + m + len - end >= TERM_BUF_SIZE)
+                continue;
+
             strncpy(tbuf + start, path, path_len);
             strncpy(tbuf + start + path_len, file, m);
             strncpy(tbuf + start + path_len + m, hbuf + end, len - end);
@@ -1254,6 +1259,9 @@ b8_t term_autocomplete_paren(term_p term) {
         return B8_TRUE;
     }
 
+    if (term->buf_len + 1 >= TERM_BUF_SIZE)
+        return B8_FALSE;
+
     // Highlight the open paren position (only if on current line)
     if (open_paren.pos >= 0)
         term_highlight_pos(term, open_paren.pos);
@@ -1270,7 +1278,10 @@ b8_t term_autocomplete_paren(term_p term) {
     return B8_TRUE;
 }
 
-nil_t term_handle_tab(term_p term) { term_autocomplete_paren(term); }
+nil_t term_handle_tab(term_p term) {
+    term_autocomplete_paren(term);
+    autocp_reset_current(term);
+}
 
 // Check if parentheses, brackets, and braces are balanced,
 // AND that all double-quoted strings are properly closed (no unclosed double-quoted strings).
-- 
2.43.0


From cc0c90a0e9c4ded43af9120054a7d8fa28e27685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 48/51] fix: line editor cut characters of several bytes apart
 and swallowed keys after unknown escape sequences

---
 app/term.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/app/term.c b/app/term.c
index c1a7a13..cc5a96e 100644
--- a/app/term.c
+++ b/app/term.c
@@ -911,10 +911,24 @@ static i64_t find_prev_utf8_char(const c8_t *str, i64_t pos) {
     return pos;
 }
 
+// Helper function to find the start of the next UTF-8 character
+static i64_t find_next_utf8_char(const c8_t *str, i64_t pos, i64_t len) {
+    if (pos < len)
+        pos++;
+
+    while (pos < len && (str[pos] & 0xC0) == 0x80)
+        pos++;
+
+    return pos;
+}
+
 nil_t term_handle_delete_char(term_p term) {
+    i64_t next;
+
     if (term->buf_pos < term->buf_len) {
-        memmove(term->buf + term->buf_pos, term->buf + term->buf_pos + 1, term->buf_len - term->buf_pos);
-        term->buf_len--;
+        next = find_next_utf8_char(term->buf, term->buf_pos, term->buf_len);
+        memmove(term->buf + term->buf_pos, term->buf + next, term->buf_len - next);
+        term->buf_len -= next - term->buf_pos;
     }
 }
 
@@ -1476,7 +1490,7 @@ obj_p term_handle_escape(term_p term) {
         IS_ESC(term, "\x1b[5C")) {
         if (term->buf_pos < term->buf_len) {
             i32_t old_pos = term->buf_pos;
-            term->buf_pos++;
+            term->buf_pos = find_next_utf8_char(term->buf, term->buf_pos, term->buf_len);
             while (term->buf_pos < term->buf_len && is_alphanum(term->buf[term->buf_pos]))
                 term->buf_pos++;
             term_goto_position(term, old_pos, term->buf_pos);
@@ -1489,7 +1503,7 @@ obj_p term_handle_escape(term_p term) {
     if (IS_ESC(term, "\x1b[C")) {
         if (term->buf_pos < term->buf_len) {
             i32_t old_pos = term->buf_pos;
-            term->buf_pos++;
+            term->buf_pos = find_next_utf8_char(term->buf, term->buf_pos, term->buf_len);
             term_goto_position(term, old_pos, term->buf_pos);
             fflush(stdout);
         }
@@ -1503,7 +1517,7 @@ obj_p term_handle_escape(term_p term) {
         IS_ESC(term, "\x1b[5D")) {
         if (term->buf_pos > 0) {
             i32_t old_pos = term->buf_pos;
-            term->buf_pos--;
+            term->buf_pos = find_prev_utf8_char(term->buf, term->buf_pos);
             while (term->buf_pos > 0 && is_alphanum(term->buf[term->buf_pos - 1]))
                 term->buf_pos--;
             term_goto_position(term, old_pos, term->buf_pos);
@@ -1516,7 +1530,7 @@ obj_p term_handle_escape(term_p term) {
     if (IS_ESC(term, "\x1b[D")) {
         if (term->buf_pos > 0) {
             i32_t old_pos = term->buf_pos;
-            term->buf_pos--;
+            term->buf_pos = find_prev_utf8_char(term->buf, term->buf_pos);
             term_goto_position(term, old_pos, term->buf_pos);
             fflush(stdout);
         }
@@ -1552,6 +1566,12 @@ obj_p term_handle_escape(term_p term) {
         goto proceed;
     }
 
+    // The end of a sequence that means nothing here: the next key is not a part of it
+    l = term->input_len;
+    if (l >= 8 || (l == 2 && term->input[1] != '[' && term->input[1] != 'O') ||
+        (l > 2 && term->input[l - 1] >= 0x40 && term->input[l - 1] <= 0x7e))
+        goto proceed;
+
     return NULL;
 
 proceed:
@@ -1655,8 +1675,9 @@ obj_p term_read(term_p term) {
 
         case KEYCODE_CTRL_B:
             if (term->buf_pos) {
-                term_goto_position(term, term->buf_pos, term->buf_pos - 1);
-                term->buf_pos--;
+                i32_t old_pos = term->buf_pos;
+                term->buf_pos = find_prev_utf8_char(term->buf, term->buf_pos);
+                term_goto_position(term, old_pos, term->buf_pos);
                 fflush(stdout);
             }
             term->input_len = 0;
@@ -1681,8 +1702,9 @@ obj_p term_read(term_p term) {
 
         case KEYCODE_CTRL_F:
             if (term->buf_pos < term->buf_len) {
-                term_goto_position(term, term->buf_pos, term->buf_pos + 1);
-                term->buf_pos++;
+                i32_t old_pos = term->buf_pos;
+                term->buf_pos = find_next_utf8_char(term->buf, term->buf_pos, term->buf_len);
+                term_goto_position(term, old_pos, term->buf_pos);
                 fflush(stdout);
             }
             term->input_len = 0;
-- 
2.43.0


From 0e8118e1c66de93df49271cb2694ca0f26c7a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 49/51] fix: like missed matches where the text after a star
 has to be found again ((like "aa" "*a") was false)

---
 core/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/string.c b/core/string.c
index ad5895b..15abe70 100644
--- a/core/string.c
+++ b/core/string.c
@@ -497,8 +497,14 @@ b8_t str_match(str_p str, i64_t str_len, str_p pat, i64_t pat_len) {
     i64_t last_star_str_pos = 0;         // Track corresponding string position
 
     while (str_pos < str_len) {
-        if (pat_pos >= pat_len)
-            return B8_FALSE;
+        if (pat_pos >= pat_len) {
+            // The pattern ends before the string - backtrack to last '*' if possible
+            if (last_star_pat_pos == NULL_I64)
+                return B8_FALSE;
+            pat_pos = last_star_pat_pos + 1;
+            str_pos = ++last_star_str_pos;
+            continue;
+        }
 
         switch (pat[pat_pos]) {
             case '*':
-- 
2.43.0


From 76d3b1dbe2b70caa6ab627dedfedbe35ee15c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 50/51] fix: like on partitioned columns was no condition,
 selecting no rows of a partitioned table was an error

---
 core/filter.c |  7 +++++++
 core/logic.c  | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/filter.c b/core/filter.c
index 5c88df3..0fe71d5 100644
--- a/core/filter.c
+++ b/core/filter.c
@@ -155,6 +155,13 @@ obj_p filter_collect(obj_p val, obj_p index) {
             }
         }
 
+        // Nothing is selected: an empty column
+        if (n == 0 && l > 0) {
+            parts->len = 0;
+            drop_obj(parts);
+            return at_ids(AS_LIST(val)[0], NULL, 0);
+        }
+
         parts->len = n;
         res = ray_raze(parts);
         drop_obj(parts);
diff --git a/core/logic.c b/core/logic.c
index 68e96bf..1838be4 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -339,10 +339,16 @@ obj_p ray_like(obj_p x, obj_p y) {
             l = x->len;
             res = LIST(l);
             for (i = 0; i < l; i++) {
-                e = AS_LIST(x)[i];
-                AS_LIST(res)[i] = ray_like(e, y);
+                e = ray_like(AS_LIST(x)[i], y);
+                if (IS_ERR(e)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return e;
+                }
+                AS_LIST(res)[i] = e;
             }
 
+            res->type = TYPE_PARTEDB8;
             return res;
 
         default:
-- 
2.43.0


From 828129f1aea0317b816c33747eac3edfc3b57f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 51/51] fix: avg, med and dev of partitioned columns ignored
 the condition, sum, min and max of no rows were garbage

---
 core/aggr.c | 12 ++++++++++++
 core/math.c | 21 ---------------------
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 3355f51..2451fc4 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -251,6 +251,18 @@ i64_t indexl_bin_i64_(i64_t val, i64_t vals[], i64_t offset, i64_t len) {
                 }                                                                                                    \
                 drop_obj($$v);                                                                                       \
             }                                                                                                        \
+            if (groups == 1 && $$first && $$err == NULL_OBJ && $$l > 0) {                                            \
+                /* No partition matches - aggregate nothing */                                                       \
+                $$pdata = at_ids(AS_LIST(val)[0], NULL, 0);                                                          \
+                $$parts = aggr_map(preaggr, $$pdata, aggr_outype(preaggr, $$pdata), $$pindex);                       \
+                drop_obj($$pdata);                                                                                   \
+                if (IS_ERR($$parts)) {                                                                               \
+                    $$err = $$parts;                                                                                 \
+                } else {                                                                                             \
+                    memcpy(__AS_##outcoerse($$res), __AS_##incoerse(AS_LIST($$parts)[0]), __SIZE_OF_##outcoerse);    \
+                    drop_obj($$parts);                                                                               \
+                }                                                                                                    \
+            }                                                                                                        \
             drop_obj($$pindex);                                                                                      \
         } else {                                                                                                     \
             /* No filter or simple filter - one result per partition */                                              \
diff --git a/core/math.c b/core/math.c
index 015a6be..ad43e87 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2500,13 +2500,6 @@ obj_p ray_avg(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
-                obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
-                                      clone_obj(filter), NULL_OBJ);
-                res = aggr_avg(val, index);
-                drop_obj(index);
-                return res;
-            }
             obj_p collected = filter_collect(val, filter);
             res = ray_avg(collected);
             drop_obj(collected);
@@ -2616,13 +2609,6 @@ obj_p ray_med(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
-                obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
-                                      clone_obj(filter), NULL_OBJ);
-                obj_p res = aggr_med(val, index);
-                drop_obj(index);
-                return res;
-            }
             obj_p collected = filter_collect(val, filter);
             obj_p res = ray_med(collected);
             drop_obj(collected);
@@ -2695,13 +2681,6 @@ obj_p ray_dev(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
-                obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
-                                      clone_obj(filter), NULL_OBJ);
-                obj_p res = aggr_dev(val, index);
-                drop_obj(index);
-                return res;
-            }
             obj_p collected = filter_collect(val, filter);
             obj_p res = ray_dev(collected);
             drop_obj(collected);
-- 
2.43.0

