From 94eae695fe5147b56d0d0401b70ec12eb49e3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 01/15] fix: reject undefined type codes instead of indexing
 operator tables out of range

---
 src/expr/operator_vector.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..87ff47b 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -374,10 +374,12 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
-  const auto *op = ops[type];
-  if (op != nullptr) {
-    Add(op);
-    return true;
+  if (type < TYPE_NUM) {
+    const auto *op = ops[type];
+    if (op != nullptr) {
+      Add(op);
+      return true;
+    }
   }
   return false;
 }
@@ -385,6 +387,9 @@ bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
 bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
   Byte dst = (Byte)(b >> 4);
   Byte src = (Byte)(b & 0x0F);
+  if (dst >= TYPE_NUM || src >= TYPE_NUM) {
+    return false;
+  }
   if (dst == src) {
     return true;
   }
-- 
2.43.0


From b8d64d708ff566504fa28578dd79b9655ef4afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 02/15] fix: reject CONST<DECIMAL>, which is not supported,
 instead of skipping it

---
 src/expr/operator_vector.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 87ff47b..2a2fc2e 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -37,7 +37,6 @@ static const Byte CONST_INT64   = CONST_PREFIX | TYPE_INT64;
 static const Byte CONST_BOOL    = CONST_PREFIX | TYPE_BOOL;
 static const Byte CONST_FLOAT   = CONST_PREFIX | TYPE_FLOAT;
 static const Byte CONST_DOUBLE  = CONST_PREFIX | TYPE_DOUBLE;
-static const Byte CONST_DECIMAL = CONST_PREFIX | TYPE_DECIMAL;
 static const Byte CONST_STRING  = CONST_PREFIX | TYPE_STRING;
 
 static const Byte CONST_N_PREFIX = 0x20;
@@ -152,11 +151,6 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
-    case CONST_DECIMAL: {
-      ++p;
-      // TODO
-      break;
-    }
     case CONST_STRING: {
       ++p;
       String v;
-- 
2.43.0


From 107a886220133620ef52768e189b0a5b8d8b6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 03/15] fix: SUB<STRING> must not concatenate its operands

---
 src/expr/operators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/operators.cc b/src/expr/operators.cc
index 8b60085..99a2ed8 100644
--- a/src/expr/operators.cc
+++ b/src/expr/operators.cc
@@ -211,7 +211,7 @@ const Operator *const OP_SUB[] = {
     [TYPE_FLOAT]   = new BinaryArithmeticOperator<TYPE_FLOAT, calc::Sub>,
     [TYPE_DOUBLE]  = new BinaryArithmeticOperator<TYPE_DOUBLE, calc::Sub>,
     [TYPE_DECIMAL] = nullptr,
-    [TYPE_STRING]  = new BinaryArithmeticOperator<TYPE_STRING, calc::Add>,
+    [TYPE_STRING]  = nullptr,
 };
 
 const Operator *const OP_MUL[] = {
-- 
2.43.0


From b22e7a2e2afd8b533320fe6aeddd4c79d18850cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 04/15] fix: read FLOAT/DOUBLE immediates without misaligned,
 type-punned loads

---
 src/expr/codec.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..0ae7483 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -20,6 +20,8 @@
 #include <endian.h>
 #endif
 
+#include <cstring>
+
 #include "codec.h"
 
 namespace dingodb::expr {
@@ -69,15 +71,19 @@ const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
 
 template <>
 const Byte *DecodeValue(float &value, const Byte *data) {
-  uint32_t l = be32toh(*(uint32_t *)data);
-  value = *(float *)&l;
+  uint32_t l;
+  memcpy(&l, data, sizeof(l));
+  l = be32toh(l);
+  memcpy(&value, &l, sizeof(value));
   return data + 4;
 }
 
 template <>
 const Byte *DecodeValue(double &value, const Byte *data) {
-  uint64_t l = be64toh(*(uint64_t *)data);
-  value = *(double *)&l;
+  uint64_t l;
+  memcpy(&l, data, sizeof(l));
+  l = be64toh(l);
+  memcpy(&value, &l, sizeof(value));
   return data + 8;
 }
 
-- 
2.43.0


From 29442fc547ccbeef6cbbc02c6b819ae4dfcfae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 05/15] fix: decode VarInt longer than the target type without
 shifting past its width

---
 src/expr/codec.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 0ae7483..32b91dd 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -28,14 +28,19 @@ namespace dingodb::expr {
 
 template <typename T>
 static const Byte *DecodeVarint(T &value, const Byte *data) {
-  value = 0;
+  uint64_t result = 0;
   const Byte *p;
   int shift = 0;
   for (p = data; ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
+    if (shift < 64) {
+      result |= ((uint64_t)(*p & 0x7F) << shift);
+    }
     shift += 7;
   }
-  value |= ((T)(*p) << shift);
+  if (shift < 64) {
+    result |= ((uint64_t)(*p) << shift);
+  }
+  value = (T)result;
   return p + 1;
 }
 
-- 
2.43.0


From f4ddd83fb7136888eaca7f3dbfbb7ad0fdf125be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 06/15] fix: never read the encoded bytes at or beyond the
 given length while decoding

---
 src/expr/codec.cc           | 45 +++++++++++++++++++-------------
 src/expr/codec.h            | 27 ++++++++++----------
 src/expr/exception.h        |  9 +++++++
 src/expr/operator_vector.cc | 32 +++++++++++++----------
 src/rel/rel_runner.cc       | 51 ++++++++++++++++++++-----------------
 src/rel/rel_runner.h        |  8 +++---
 6 files changed, 101 insertions(+), 71 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 32b91dd..9706bb7 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -26,12 +26,20 @@
 
 namespace dingodb::expr {
 
+static inline void CheckLength(const Byte *data, const Byte *end, size_t len) {
+  if (data > end || len > (size_t)(end - data)) {
+    throw IncompleteCode(len, data < end ? end - data : 0);
+  }
+}
+
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   uint64_t result = 0;
   const Byte *p;
   int shift = 0;
+  CheckLength(data, end, 1);
   for (p = data; ((*p) & 0x80) != 0; ++p) {
+    CheckLength(p, end, 2);
     if (shift < 64) {
       result |= ((uint64_t)(*p & 0x7F) << shift);
     }
@@ -45,37 +53,38 @@ static const Byte *DecodeVarint(T &value, const Byte *data) {
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  CheckLength(data, end, 4);
   uint32_t l;
   memcpy(&l, data, sizeof(l));
   l = be32toh(l);
@@ -84,7 +93,8 @@ const Byte *DecodeValue(float &value, const Byte *data) {
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  CheckLength(data, end, 8);
   uint64_t l;
   memcpy(&l, data, sizeof(l));
   l = be64toh(l);
@@ -93,9 +103,10 @@ const Byte *DecodeValue(double &value, const Byte *data) {
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  CheckLength(p, end, len);
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..ddb9e95 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,45 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end end of the code buffer, which is never read at or beyond
  * @return const Byte* point to the next byte of the bytes used
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +78,7 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +87,7 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/exception.h b/src/expr/exception.h
index e66b7d5..e4781ca 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -46,6 +46,15 @@ class UnknownCode : public ExprError {
   }
 };
 
+class IncompleteCode : public ExprError {
+ public:
+  IncompleteCode(size_t required, size_t actual)
+      : ExprError(
+            "Decoding requires " + std::to_string(required) + " more bytes, but " + std::to_string(actual) +
+            " provided.") {
+  }
+};
+
 class MoreElementsRequired : public ExprError {
  public:
   MoreElementsRequired(int required, int actual)
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 2a2fc2e..44c8a21 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -94,6 +94,10 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   const Byte *b;
   while (successful && p < code + len) {
     b = p;
+    if ((*p & 0x80) != 0 && p + 1 == code + len) {  // A 2-byte operator without its 2nd byte.
+      successful = false;
+      break;
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
@@ -122,14 +126,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -140,35 +144,35 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -179,49 +183,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..9efd66d 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -120,7 +120,9 @@ void RelRunner::AppendOp(RelOp *op) {
 namespace dingodb::expr {
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg<rel::op::CountAllAgg>(
+    const rel::op::Agg *&agg, const Byte *data, [[maybe_unused]] const Byte *end
+) {
   const expr::Byte *p = data;
   ++p;
   agg = new rel::op::CountAllAgg();
@@ -128,71 +130,74 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
+  if (p >= end) {
+    throw IncompleteCode(1, 0);
+  }
   switch (*p) {
   case rel::AGG_COUNT_ALL:
-    p = DecodeAgg<rel::op::CountAllAgg>(value, p);
+    p = DecodeAgg<rel::op::CountAllAgg>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT32:
-    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT64:
-    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_BOOL:
-    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::CountAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<float>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::CountAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<double>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_STRING:
-    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT32:
-    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT64:
-    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::SumAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<float>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::SumAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT32:
-    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT64:
-    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_STRING:
-    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT32:
-    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT64:
-    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MinAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<float>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MinAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<double>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_STRING:
-    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p, end);
     break;
   default:
     throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..aade21a 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -49,20 +49,20 @@ class RelRunner {
 namespace dingodb::expr {
 
 template <class AGG>
-const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const Byte *p = data;
   ++p;
   int32_t index;
-  p = DecodeValue(index, p);
+  p = DecodeValue(index, p, end);
   agg = new AGG(index);
   return p;
 }
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From 862c4405b793d6664bec857c8de4f6d4db529a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 07/15] fix: dividing the minimum integer by -1 must not trap

---
 src/expr/calc/arithmetic.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..8c88679 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -47,6 +49,11 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      if (v1 == -1) {  // The minimum value divided by -1 traps, so wrap around instead.
+        return static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(v0));
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -55,6 +62,9 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    if (v1 == -1) {  // The minimum value modulo -1 traps.
+      return static_cast<T>(0);
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From bcf2f858ef29c6f5f4b8cd8f92faac6c34526dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 08/15] fix: SUBSTR and MID must clamp every start and end to
 the string

---
 src/expr/calc/string_fun.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 9337ee4..fc4df3a 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -93,6 +93,9 @@ String Substr(String v0, int32_t v1, int32_t v2) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len || v2 <= v1) {
+    return String();
+  }
   if (v1 == 0) {
     if (v2 >= len) {
       return v0;
@@ -113,6 +116,9 @@ String Substr(String v0, int32_t v1) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len) {
+    return String();
+  }
   if (v1 == 0) {
     return v0;
   } else {
@@ -130,7 +136,7 @@ String Mid(String v0, int32_t v1, int32_t v2) {
     } else {
       return String();
     }
-    if (v1 + v2 >= len) {
+    if (v2 >= len - v1) {
       return v0->substr(v1);
     } else {
       return v0->substr(v1, v2);
-- 
2.43.0


From 1f7e835243ace1f41bfa4919412e6df9ab5ac861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 09/15] fix: reject GROUPED_AGGREGATE whose index array is not
 ARRAY<INT32>

---
 src/rel/rel_runner.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 9efd66d..56630d1 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p >= code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
-- 
2.43.0


From 2eb1888c569f19e25efc4f263dd7a130c639227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 10/15] fix: release the tuple when evaluating it throws

---
 src/rel/op/agg_op.cc     | 4 +++-
 src/rel/op/filter_op.cc  | 6 ++++--
 src/rel/op/project_op.cc | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..0dd5538 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <memory>
+
 #include "ungrouped_agg_op.h"
 
 namespace dingodb::rel::op {
@@ -27,13 +29,13 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owned(tuple);  // Released on exception.
   if (cache == nullptr) {
     cache = new expr::Tuple(m_aggs->size());
   }
   for (int i = 0; i < m_aggs->size(); ++i) {
     (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
   }
-  delete tuple;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..69dea6a 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owned(tuple);  // Released on exception.
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return owned.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..d2ecf00 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owned(tuple);  // Released on exception.
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From 10e29a5c4480a1492b3d12bb9105f1cf5d2ba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 11/15] fix: release what has been decoded when decoding fails

---
 src/expr/codec.h      | 22 +++++++++++++++++++---
 src/rel/rel_runner.cc | 13 ++++++++-----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index ddb9e95..e1e429f 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -16,6 +16,8 @@
 #define _EXPR_CODEC_H_
 
 #include <cstddef>
+#include <memory>
+#include <type_traits>
 #include <vector>
 
 #include "exception.h"
@@ -79,8 +81,11 @@ template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
-  arr = new T[count];
-  return DecodeElements(arr, count, p, code + len - p);
+  std::unique_ptr<T[]> owned(new T[count]);  // Released on exception.
+  T *elements = owned.get();
+  p = DecodeElements(elements, count, p, code + len - p);
+  arr = owned.release();
+  return p;
 }
 
 template <typename T>
@@ -89,7 +94,18 @@ const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   size_t count;
   p = DecodeValue(count, p, code + len);
   vec = new std::vector<T>(count);
-  return DecodeElements(*vec, count, p, code + len - p);
+  try {
+    return DecodeElements(*vec, count, p, code + len - p);
+  } catch (...) {
+    if constexpr (std::is_pointer_v<T>) {  // The elements already decoded are owned by the vector.
+      for (auto *element : *vec) {
+        delete element;
+      }
+    }
+    delete vec;
+    vec = nullptr;
+    throw;
+  }
 }
 
 }  // namespace dingodb::expr
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 56630d1..1c12519 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -55,16 +57,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -77,9 +79,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       int32_t *groupe_indices;
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
+      std::unique_ptr<int32_t[]> owned(groupe_indices);  // Released on exception.
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
-      AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      AppendOp(new op::GroupedAggOp(owned.release(), count, aggs));
       break;
     }
     case UNGROUPED_AGGREGATE: {
-- 
2.43.0


From cf4759cdfc611bcca49f82531a96657c07b9f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 12/15] fix: owners of raw pointers must not be copyable

---
 src/expr/operator_vector.h | 4 ++++
 src/rel/op/rel_op.h        | 4 ++++
 src/rel/rel_runner.h       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/expr/operator_vector.h b/src/expr/operator_vector.h
index 382df2c..1e5790e 100644
--- a/src/expr/operator_vector.h
+++ b/src/expr/operator_vector.h
@@ -25,6 +25,10 @@ class OperatorVector {
  public:
   OperatorVector() = default;
 
+  // Owns the operators in `m_to_release`.
+  OperatorVector(const OperatorVector &)            = delete;
+  OperatorVector &operator=(const OperatorVector &) = delete;
+
   virtual ~OperatorVector() {
     Release();
   }
diff --git a/src/rel/op/rel_op.h b/src/rel/op/rel_op.h
index 6cb7349..6e8dc55 100644
--- a/src/rel/op/rel_op.h
+++ b/src/rel/op/rel_op.h
@@ -24,6 +24,10 @@ class RelOp {
   RelOp() = default;
   virtual ~RelOp() = default;
 
+  // Implementations own raw pointers.
+  RelOp(const RelOp &)            = delete;
+  RelOp &operator=(const RelOp &) = delete;
+
   virtual const expr::Tuple *Put(const expr::Tuple *tuple) const = 0;
 
   virtual const expr::Tuple *Get() const {
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index aade21a..1c5200c 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -27,6 +27,10 @@ class RelRunner {
   RelRunner();
   virtual ~RelRunner();
 
+  // Owns `m_op`.
+  RelRunner(const RelRunner &)            = delete;
+  RelRunner &operator=(const RelRunner &) = delete;
+
   const expr::Byte *Decode(const expr::Byte *code, size_t len);
 
   const expr::Tuple *Put(const expr::Tuple *tuple) const;
-- 
2.43.0


From 70794d253569c4cd651618f1473c28f15a4c943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 13/15] fix: popping from an empty operand stack must raise an
 error

---
 src/expr/operand_stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expr/operand_stack.h b/src/expr/operand_stack.h
index 0a80ff1..be4162e 100644
--- a/src/expr/operand_stack.h
+++ b/src/expr/operand_stack.h
@@ -34,6 +34,9 @@ class OperandStack {
   }
 
   Operand Get() const {
+    if (m_stack.empty()) {
+      throw std::runtime_error("Operand stack is empty.");
+    }
     return m_stack.back();
   }
 
-- 
2.43.0


From 23a92c316768b2e29ea5af89898daddda14d0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 14/15] fix: do not overflow the shift while skipping a very
 long VarInt

---
 src/expr/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 9706bb7..6fa9a76 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -42,8 +42,8 @@ static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
     CheckLength(p, end, 2);
     if (shift < 64) {
       result |= ((uint64_t)(*p & 0x7F) << shift);
+      shift += 7;
     }
-    shift += 7;
   }
   if (shift < 64) {
     result |= ((uint64_t)(*p) << shift);
-- 
2.43.0


From 7ca27b15c42bd16d78b4b376eada9f63a74c5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 15/15] fix: check element counts against the code length
 before allocating

DecodeArray and DecodeVector allocated storage for any count read from the
code, so a few bytes could request gigabytes or raise std::bad_alloc.
---
 src/expr/codec.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index e1e429f..74e578c 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -64,6 +64,13 @@ const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 template <>
 const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
+// Every element takes at least one byte, so a larger count must not be used as a size.
+inline void CheckCount(size_t count, size_t len) {
+  if (count > len) {
+    throw MoreElementsRequired(count, len);
+  }
+}
+
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
@@ -81,6 +88,7 @@ template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, code + len - p);
   std::unique_ptr<T[]> owned(new T[count]);  // Released on exception.
   T *elements = owned.get();
   p = DecodeElements(elements, count, p, code + len - p);
@@ -93,6 +101,7 @@ const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, code + len - p);
   vec = new std::vector<T>(count);
   try {
     return DecodeElements(*vec, count, p, code + len - p);
-- 
2.43.0

