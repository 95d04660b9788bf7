From 666f84a8639c60d54874d55ae1ebf1bbb3b278c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 01/35] fix: do not read immediate numbers, strings and
 elements beyond the end of the code

---
 src/expr/codec.cc           | 48 +++++++++++++++++++++++--------------
 src/expr/codec.h            | 27 +++++++++++----------
 src/expr/exception.h        |  6 +++++
 src/expr/operator_vector.cc | 28 +++++++++++-----------
 src/rel/rel_runner.cc       | 46 +++++++++++++++++------------------
 src/rel/rel_runner.h        |  8 +++----
 6 files changed, 91 insertions(+), 72 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..0a848dc 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -25,66 +25,78 @@
 namespace dingodb::expr {
 
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
-  for (p = data; ((*p) & 0x80) != 0; ++p) {
+  for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
     value |= ((T)(*p & 0x7F) << shift);
     shift += 7;
   }
+  if (p >= end) {
+    throw IncompleteCode();
+  }
   value |= ((T)(*p) << shift);
   return p + 1;
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  if (end - data < 4) {
+    throw IncompleteCode();
+  }
   uint32_t l = be32toh(*(uint32_t *)data);
   value = *(float *)&l;
   return data + 4;
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  if (end - data < 8) {
+    throw IncompleteCode();
+  }
   uint64_t l = be64toh(*(uint64_t *)data);
   value = *(double *)&l;
   return data + 8;
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  if (len > end - p) {
+    throw IncompleteCode();
+  }
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..4866512 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,45 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end point to the next byte of the code buffer, no byte is read from there on
  * @return const Byte* point to the next byte of the bytes used
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +78,7 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +87,7 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/exception.h b/src/expr/exception.h
index e66b7d5..2024ba6 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -46,6 +46,12 @@ class UnknownCode : public ExprError {
   }
 };
 
+class IncompleteCode : public ExprError {
+ public:
+  IncompleteCode() : ExprError("The code ends before the end of a value.") {
+  }
+};
+
 class MoreElementsRequired : public ExprError {
  public:
   MoreElementsRequired(int required, int actual)
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..9f5962b 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -123,14 +123,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -141,14 +141,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
@@ -160,21 +160,21 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -185,49 +185,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..efea011 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -120,7 +120,7 @@ void RelRunner::AppendOp(RelOp *op) {
 namespace dingodb::expr {
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, [[maybe_unused]] const Byte *end) {
   const expr::Byte *p = data;
   ++p;
   agg = new rel::op::CountAllAgg();
@@ -128,71 +128,71 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
   switch (*p) {
   case rel::AGG_COUNT_ALL:
-    p = DecodeAgg<rel::op::CountAllAgg>(value, p);
+    p = DecodeAgg<rel::op::CountAllAgg>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT32:
-    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT64:
-    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_BOOL:
-    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::CountAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<float>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::CountAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<double>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_STRING:
-    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT32:
-    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT64:
-    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::SumAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<float>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::SumAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT32:
-    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT64:
-    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_STRING:
-    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT32:
-    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT64:
-    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MinAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<float>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MinAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<double>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_STRING:
-    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p, end);
     break;
   default:
     throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..aade21a 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -49,20 +49,20 @@ class RelRunner {
 namespace dingodb::expr {
 
 template <class AGG>
-const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const Byte *p = data;
   ++p;
   int32_t index;
-  p = DecodeValue(index, p);
+  p = DecodeValue(index, p, end);
   agg = new AGG(index);
   return p;
 }
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From 17e5ab271b519bf3c389f8dfd14e83251b29ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 02/35] fix: reject a 2-bytes operator cut after its 1st byte
 instead of reading beyond the code

---
 src/expr/operator_vector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 9f5962b..c44aae1 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -95,6 +95,11 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   const Byte *b;
   while (successful && p < code + len) {
     b = p;
+    // The highest bit is set in the 1st byte of 2-bytes operators.
+    if ((*p & 0x80) != 0 && code + len - p < 2) {
+      successful = false;
+      break;
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
-- 
2.43.0


From 94990667017e6c3997f5892dcaf378bff0d1d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 03/35] fix: reject type codes beyond the operator tables

---
 src/expr/operator_vector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index c44aae1..f1f0734 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -379,6 +379,9 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
+  if (type >= TYPE_NUM) {
+    return false;
+  }
   const auto *op = ops[type];
   if (op != nullptr) {
     Add(op);
@@ -390,6 +393,9 @@ bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
 bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
   Byte dst = (Byte)(b >> 4);
   Byte src = (Byte)(b & 0x0F);
+  if (dst >= TYPE_NUM || src >= TYPE_NUM || dst == TYPE_NULL) {
+    return false;
+  }
   if (dst == src) {
     return true;
   }
-- 
2.43.0


From cf6acb41cd16573568b0197c73248547c424b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 04/35] fix: decode 10 bytes varints without shifting beyond
 the width of the type

---
 src/expr/codec.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 0a848dc..90a5431 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -26,17 +26,23 @@ namespace dingodb::expr {
 
 template <typename T>
 static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
-  value = 0;
+  // Negative values of all integer types are encoded into 10 bytes.
+  const int max_shift = 63;
+  uint64_t v = 0;
   const Byte *p;
   int shift = 0;
   for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
+    if (shift >= max_shift) {
+      throw UnknownCode(data, p + 1 - data);
+    }
+    v |= ((uint64_t)(*p & 0x7F) << shift);
     shift += 7;
   }
   if (p >= end) {
     throw IncompleteCode();
   }
-  value |= ((T)(*p) << shift);
+  v |= ((uint64_t)(*p) << shift);
+  value = (T)v;
   return p + 1;
 }
 
-- 
2.43.0


From d97c440897c3a23f663b0ebf4abdea41d1e73001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 05/35] fix: decode floating point numbers without misaligned
 and type punned access

---
 src/expr/codec.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 90a5431..c4a25e2 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -22,6 +22,8 @@
 
 #include "codec.h"
 
+#include <cstring>
+
 namespace dingodb::expr {
 
 template <typename T>
@@ -81,8 +83,10 @@ const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
   if (end - data < 4) {
     throw IncompleteCode();
   }
-  uint32_t l = be32toh(*(uint32_t *)data);
-  value = *(float *)&l;
+  uint32_t l;
+  memcpy(&l, data, sizeof(l));
+  l = be32toh(l);
+  memcpy(&value, &l, sizeof(value));
   return data + 4;
 }
 
@@ -91,8 +95,10 @@ const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
   if (end - data < 8) {
     throw IncompleteCode();
   }
-  uint64_t l = be64toh(*(uint64_t *)data);
-  value = *(double *)&l;
+  uint64_t l;
+  memcpy(&l, data, sizeof(l));
+  l = be64toh(l);
+  memcpy(&value, &l, sizeof(value));
   return data + 8;
 }
 
-- 
2.43.0


From 44e2c102f2fb893abaaa3fae662e1b55c101d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 06/35] fix: check the number of elements against the code
 length before allocating them

---
 src/expr/codec.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index 4866512..ad99184 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -62,6 +62,19 @@ const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 template <>
 const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
+/**
+ * @brief Check that there are enough bytes for the elements. Any element takes at least 1 byte.
+ *
+ * @param count the number of elements
+ * @param data code buffer
+ * @param end point to the next byte of the code buffer
+ */
+inline void CheckCount(size_t count, const Byte *data, const Byte *end) {
+  if (count > static_cast<size_t>(end - data)) {
+    throw MoreElementsRequired(count, end - data);
+  }
+}
+
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
@@ -79,6 +92,7 @@ template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -88,6 +102,7 @@ const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
-- 
2.43.0


From e087c8094ebfd599a19c50fa95265d5f90931f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 07/35] fix: wrap integers around without signed overflow,
 which is undefined

---
 src/expr/calc/arithmetic.h  | 31 +++++++++++++++++++++++++++----
 src/expr/calc/mathematic.cc |  8 +++-----
 src/expr/operator_vector.cc |  5 +++--
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..9245ab5 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -24,24 +26,45 @@ T Pos(T v) {
   return v;
 }
 
+// Overflow of signed integers is undefined, so integers are calculated as unsigned ones to wrap around.
+
 template <typename T>
 T Neg(T v) {
-  return -v;
+  if constexpr (std::is_integral_v<T>) {
+    return static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(v));
+  } else {
+    return -v;
+  }
 }
 
 template <typename T>
 T Add(T v0, T v1) {
-  return v0 + v1;
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(v0) + static_cast<U>(v1));
+  } else {
+    return v0 + v1;
+  }
 }
 
 template <typename T>
 T Sub(T v0, T v1) {
-  return v0 - v1;
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(v0) - static_cast<U>(v1));
+  } else {
+    return v0 - v1;
+  }
 }
 
 template <typename T>
 T Mul(T v0, T v1) {
-  return v0 * v1;
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(v0) * static_cast<U>(v1));
+  } else {
+    return v0 * v1;
+  }
 }
 
 template <typename T>
diff --git a/src/expr/calc/mathematic.cc b/src/expr/calc/mathematic.cc
index 044c4c8..fa9aede 100644
--- a/src/expr/calc/mathematic.cc
+++ b/src/expr/calc/mathematic.cc
@@ -17,6 +17,7 @@
 #include <cmath>
 
 #include "../exception.h"
+#include "arithmetic.h"
 
 namespace dingodb::expr::calc {
 
@@ -33,7 +34,7 @@ String Max(String v0, String v1) {
 template <>
 int32_t Abs(int32_t v) {
   static_assert(std::is_same_v<int32_t, int>, "`int32_t` must be an alias of `int`.");
-  return abs(v);
+  return v < 0 ? Neg(v) : v;
 }
 
 template <>
@@ -41,10 +42,7 @@ int64_t Abs(int64_t v) {
   static_assert(
       std::is_same_v<int64_t, long> || std::is_same_v<int64_t, long long>,
       "`int64_t` must be an alias of `long` or `long long`.");
-  if (std::is_same_v<int64_t, long>) {
-    return labs(v);
-  }
-  return llabs(v);
+  return v < 0 ? Neg(v) : v;
 }
 
 template <>
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index f1f0734..c4d3008 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -14,6 +14,7 @@
 
 #include "operator_vector.h"
 
+#include "calc/arithmetic.h"
 #include "codec.h"
 #include "exception.h"
 #include "operators.h"
@@ -173,14 +174,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       ++p;
       int32_t v;
       p = DecodeValue(v, p, code + len);
-      AddRelease(new ConstOperator<TYPE_INT32>(-v));
+      AddRelease(new ConstOperator<TYPE_INT32>(calc::Neg(v)));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
       p = DecodeValue(v, p, code + len);
-      AddRelease(new ConstOperator<TYPE_INT64>(-v));
+      AddRelease(new ConstOperator<TYPE_INT64>(calc::Neg(v)));
       break;
     }
     case CONST_N_BOOL:
-- 
2.43.0


From 5ab42c1c55d0ea08177b1cf0f7981222c142c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 08/35] fix: do not crash dividing the minimum integer by -1

---
 src/expr/calc/arithmetic.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 9245ab5..52e39e5 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -70,6 +70,12 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      // The minimum divided by -1 overflows, which traps on some platforms.
+      if (v1 == -1) {
+        return Neg(v0);
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -78,6 +84,9 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    if (v1 == -1) {
+      return static_cast<T>(0);
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From 195ad4bcff03b338d617cd52e706368965238ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 09/35] fix: SUBSTR of positions reversed or beyond the string
 is empty

---
 src/expr/calc/string_fun.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 9337ee4..038f4dc 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -93,6 +93,9 @@ String Substr(String v0, int32_t v1, int32_t v2) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len || v1 >= v2) {
+    return String();
+  }
   if (v1 == 0) {
     if (v2 >= len) {
       return v0;
@@ -115,6 +118,8 @@ String Substr(String v0, int32_t v1) {
   }
   if (v1 == 0) {
     return v0;
+  } else if (v1 >= len) {
+    return String();
   } else {
     return v0->substr(v1);
   }
-- 
2.43.0


From 5e68b6b2871cd246f9900f26924e39ffd3c31de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 10/35] fix: avoid integer overflow in MID

---
 src/expr/calc/string_fun.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 038f4dc..12065dd 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -135,7 +135,7 @@ String Mid(String v0, int32_t v1, int32_t v2) {
     } else {
       return String();
     }
-    if (v1 + v2 >= len) {
+    if (v2 >= len - v1) {
       return v0->substr(v1);
     } else {
       return v0->substr(v1, v2);
-- 
2.43.0


From 5490c7a47f25d1a25b084a936e067f0489940e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 11/35] fix: reject subtraction of strings, which was evaluated
 as addition

---
 src/expr/operators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/operators.cc b/src/expr/operators.cc
index 8b60085..99a2ed8 100644
--- a/src/expr/operators.cc
+++ b/src/expr/operators.cc
@@ -211,7 +211,7 @@ const Operator *const OP_SUB[] = {
     [TYPE_FLOAT]   = new BinaryArithmeticOperator<TYPE_FLOAT, calc::Sub>,
     [TYPE_DOUBLE]  = new BinaryArithmeticOperator<TYPE_DOUBLE, calc::Sub>,
     [TYPE_DECIMAL] = nullptr,
-    [TYPE_STRING]  = new BinaryArithmeticOperator<TYPE_STRING, calc::Add>,
+    [TYPE_STRING]  = nullptr,
 };
 
 const Operator *const OP_MUL[] = {
-- 
2.43.0


From 626f4e0ba312ffb14fa44e8f08b82d67ba85062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 12/35] fix: reject decimal constants, which are not supported,
 instead of skipping them

---
 src/expr/operator_vector.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index c4d3008..98d7bdd 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -158,11 +158,6 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
-    case CONST_DECIMAL: {
-      ++p;
-      // TODO
-      break;
-    }
     case CONST_STRING: {
       ++p;
       String v;
-- 
2.43.0


From daaee3a25e0db05b56c8779e5d835d2ffc3a0a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 13/35] fix: raise an error instead of undefined behaviour if
 operands or operators are missing

---
 src/expr/operand_stack.h   | 8 ++++++++
 src/expr/operator_vector.h | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/expr/operand_stack.h b/src/expr/operand_stack.h
index 0a80ff1..618d192 100644
--- a/src/expr/operand_stack.h
+++ b/src/expr/operand_stack.h
@@ -30,10 +30,12 @@ class OperandStack {
   virtual ~OperandStack() = default;
 
   void Pop() {
+    CheckNotEmpty();
     m_stack.pop_back();
   }
 
   Operand Get() const {
+    CheckNotEmpty();
     return m_stack.back();
   }
 
@@ -84,6 +86,12 @@ class OperandStack {
  private:
   std::deque<Operand> m_stack;
   const Tuple *m_tuple;
+
+  void CheckNotEmpty() const {
+    if (m_stack.empty()) {
+      throw std::runtime_error("No operand in the stack.");
+    }
+  }
 };
 
 }  // namespace dingodb::expr
diff --git a/src/expr/operator_vector.h b/src/expr/operator_vector.h
index 382df2c..c98ca76 100644
--- a/src/expr/operator_vector.h
+++ b/src/expr/operator_vector.h
@@ -32,6 +32,9 @@ class OperatorVector {
   const Byte *Decode(const Byte code[], size_t len);
 
   Byte GetType() const {
+    if (m_vector.empty()) {
+      throw std::runtime_error("No operator in the expression.");
+    }
     return m_vector.back()->GetType();
   }
 
-- 
2.43.0


From bb44268e15e934ad2c44df9336d74285f2909a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 14/35] fix: reject a grouped aggregation without array of
 group indices in release builds, too

---
 src/rel/rel_runner.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index efea011..bbb50f2 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p >= code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
-- 
2.43.0


From cfd75044868015eab29638459eeed220df64cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 15/35] fix: accept the trailing byte documented for
 aggregations

---
 src/rel/rel_runner.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index bbb50f2..5887e03 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -32,12 +32,19 @@ static const expr::Byte UNGROUPED_AGGREGATE = 0x74;
 static const expr::Byte ARRAY_PREFIX = 0x60;
 static const expr::Byte ARRAY_INT32 = ARRAY_PREFIX | expr::TYPE_INT32;
 
+static const expr::Byte EOE = 0x00;
+
 static const expr::Byte AGG_COUNT_ALL = 0x10;
 static const expr::Byte AGG_COUNT = 0x10;
 static const expr::Byte AGG_SUM = 0x20;
 static const expr::Byte AGG_MAX = 0x30;
 static const expr::Byte AGG_MIN = 0x40;
 
+// Each operator has a trailing byte, which may be omitted for aggregations.
+static const expr::Byte *SkipEndOfExpression(const expr::Byte *p, const expr::Byte *end) {
+  return (p < end && *p == EOE) ? p + 1 : p;
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -79,6 +86,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
+      p = SkipEndOfExpression(p, code + len);
       AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
       break;
     }
@@ -86,6 +94,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       ++p;
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
+      p = SkipEndOfExpression(p, code + len);
       AppendOp(new op::UngroupedAggOp(aggs));
       break;
     }
-- 
2.43.0


From 7fc3405ec977ef0542c99e6bbfbaff5bdbff2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 16/35] fix: do not leak what was decoded of a relational
 operator if the rest is rejected

---
 src/expr/codec.h      |  7 +++++--
 src/rel/rel_runner.cc | 32 +++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index ad99184..a2039ef 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -16,6 +16,7 @@
 #define _EXPR_CODEC_H_
 
 #include <cstddef>
+#include <memory>
 #include <vector>
 
 #include "exception.h"
@@ -93,8 +94,10 @@ const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
   CheckCount(count, p, code + len);
-  arr = new T[count];
-  return DecodeElements(arr, count, p, code + len - p);
+  std::unique_ptr<T[]> elements(new T[count]);
+  p = DecodeElements(elements, count, p, code + len - p);
+  arr = elements.release();
+  return p;
 }
 
 template <typename T>
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 5887e03..7617936 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -45,6 +47,21 @@ static const expr::Byte *SkipEndOfExpression(const expr::Byte *p, const expr::By
   return (p < end && *p == EOE) ? p + 1 : p;
 }
 
+static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const expr::Byte *code, size_t len) {
+  aggs = nullptr;
+  try {
+    return expr::DecodeVector(aggs, code, len);
+  } catch (...) {
+    if (aggs != nullptr) {
+      for (const auto *agg : *aggs) {
+        delete agg;
+      }
+      delete aggs;
+    }
+    throw;
+  }
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -62,16 +79,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -84,16 +101,17 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       int32_t *groupe_indices;
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
+      std::unique_ptr<int32_t[]> indices_holder(groupe_indices);
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEndOfExpression(p, code + len);
-      AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      AppendOp(new op::GroupedAggOp(indices_holder.release(), count, aggs));
       break;
     }
     case UNGROUPED_AGGREGATE: {
       ++p;
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEndOfExpression(p, code + len);
       AppendOp(new op::UngroupedAggOp(aggs));
       break;
-- 
2.43.0


From 113f08d8f08c130975507fd20cf32f6620fcf4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 17/35] fix: release the tuple put in if its evaluation raises
 an error

---
 src/rel/op/agg_op.cc     | 4 +++-
 src/rel/op/filter_op.cc  | 6 ++++--
 src/rel/op/project_op.cc | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..41cc5af 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <memory>
+
 #include "ungrouped_agg_op.h"
 
 namespace dingodb::rel::op {
@@ -27,13 +29,13 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> holder(tuple);
   if (cache == nullptr) {
     cache = new expr::Tuple(m_aggs->size());
   }
   for (int i = 0; i < m_aggs->size(); ++i) {
     (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
   }
-  delete tuple;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..fb6832b 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> holder(tuple);
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return holder.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..dce79bb 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> holder(tuple);
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From 0ba29f10e986af1031e3304b4e53f1121d3b968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 18/35] fix: raise an error instead of crashing if a tuple is
 put in without relational algebra

---
 src/rel/rel_runner.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 7617936..a14e6e1 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -128,11 +128,15 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
 }
 
 const expr::Tuple *RelRunner::Put(const expr::Tuple *tuple) const {
+  if (m_op == nullptr) {
+    delete tuple;
+    throw std::runtime_error("No relational algebra decoded.");
+  }
   return m_op->Put(tuple);
 }
 
 const expr::Tuple *RelRunner::Get() const {
-  return m_op->Get();
+  return m_op != nullptr ? m_op->Get() : nullptr;
 }
 
 void RelRunner::AppendOp(RelOp *op) {
-- 
2.43.0


From adaddd28eeafd8506c959e6f05855347b220d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 19/35] fix: do not overflow the call stack with a long chain
 of relational operators

---
 src/rel/op/tandem_op.cc | 39 +++++++++++++++++++++++++--------------
 src/rel/op/tandem_op.h  |  9 +++++++--
 src/rel/rel_runner.cc   |  4 +++-
 3 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/rel/op/tandem_op.cc b/src/rel/op/tandem_op.cc
index b04b1dc..7b4048c 100644
--- a/src/rel/op/tandem_op.cc
+++ b/src/rel/op/tandem_op.cc
@@ -16,31 +16,42 @@
 
 namespace dingodb::rel::op {
 
-TandemOp::TandemOp(const RelOp *in, const RelOp *out) : m_in(in), m_out(out) {
+TandemOp::TandemOp(const RelOp *in, const RelOp *out) : m_ops{in, out} {
 }
 
 TandemOp::~TandemOp() {
-  delete m_in;
-  delete m_out;
+  for (const auto *op : m_ops) {
+    delete op;
+  }
+}
+
+void TandemOp::Append(const RelOp *op) {
+  m_ops.push_back(op);
 }
 
 const expr::Tuple *TandemOp::Put(const expr::Tuple *tuple) const {
-  const auto *t = m_in->Put(tuple);
-  if (t != nullptr) {
-    return m_out->Put(t);
-  }
-  return nullptr;
+  return PutFrom(0, tuple);
 }
 
 const expr::Tuple *TandemOp::Get() const {
-  const expr::Tuple *tuple;
-  while ((tuple = m_in->Get()) != nullptr) {
-    const auto *t = m_out->Put(tuple);
-    if (t != nullptr) {
-      return t;
+  for (size_t i = 0; i < m_ops.size(); ++i) {
+    const expr::Tuple *tuple;
+    while ((tuple = m_ops[i]->Get()) != nullptr) {
+      const auto *t = PutFrom(i + 1, tuple);
+      if (t != nullptr) {
+        return t;
+      }
     }
   }
-  return m_out->Get();
+  return nullptr;
+}
+
+const expr::Tuple *TandemOp::PutFrom(size_t index, const expr::Tuple *tuple) const {
+  const auto *t = tuple;
+  for (size_t i = index; t != nullptr && i < m_ops.size(); ++i) {
+    t = m_ops[i]->Put(t);
+  }
+  return t;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/tandem_op.h b/src/rel/op/tandem_op.h
index 4907b79..70486e8 100644
--- a/src/rel/op/tandem_op.h
+++ b/src/rel/op/tandem_op.h
@@ -15,6 +15,8 @@
 #ifndef _REL_OP_TANDEM_OP_H_
 #define _REL_OP_TANDEM_OP_H_
 
+#include <vector>
+
 #include "rel_op.h"
 
 namespace dingodb::rel::op {
@@ -25,12 +27,15 @@ class TandemOp : public RelOp {
 
   ~TandemOp() override;
 
+  void Append(const RelOp *op);
+
   const expr::Tuple *Put(const expr::Tuple *tuple) const override;
   const expr::Tuple *Get() const override;
 
  private:
-  const RelOp *m_in;
-  const RelOp *m_out;
+  std::vector<const RelOp *> m_ops;
+
+  const expr::Tuple *PutFrom(size_t index, const expr::Tuple *tuple) const;
 };
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index a14e6e1..3ff0e08 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -140,7 +140,9 @@ const expr::Tuple *RelRunner::Get() const {
 }
 
 void RelRunner::AppendOp(RelOp *op) {
-  if (m_op != nullptr) {
+  if (auto *tandem = dynamic_cast<op::TandemOp *>(m_op)) {
+    tandem->Append(op);
+  } else if (m_op != nullptr) {
     m_op = new op::TandemOp(m_op, op);
   } else {
     m_op = op;
-- 
2.43.0


From 1c08bf6fa5359c83c32f66a7295d6f8eaf978497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 20/35] fix: do not truncate the declared length of a string to
 32 bits

---
 src/expr/codec.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index c4a25e2..5c7ca0c 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -104,9 +104,10 @@ const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
 
 template <>
 const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
-  uint32_t len;
+  // Not truncated to 32 bits, or else a length beyond the code may pass for a small one.
+  size_t len;
   const Byte *p = DecodeValue(len, data, end);
-  if (len > end - p) {
+  if (len > static_cast<size_t>(end - p)) {
     throw IncompleteCode();
   }
   value = String(reinterpret_cast<const char *>(p), len);
-- 
2.43.0


From ed06671ba7afe7fb659b748e571f69116ad45608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:04 +0000
Subject: [PATCH 21/35] fix: do not raise an error casting a string of a tiny
 number to FLOAT or DOUBLE

---
 src/expr/calc/casting.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 1dd94ca..7c5c9f5 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -15,6 +15,7 @@
 #include "casting.h"
 
 #include <cmath>
+#include <cstdlib>
 #include <iomanip>
 #include <sstream>
 
@@ -66,6 +67,13 @@ float Cast(String v) {
     return std::stof(*v);
   } catch (const std::invalid_argument& e) {
     return 0;
+  } catch (const std::out_of_range& e) {
+    // Underflow is not an error, for the value is representable as a subnormal number or 0.
+    const float r = std::strtof(v->c_str(), nullptr);
+    if (std::isinf(r)) {
+      throw;
+    }
+    return r;
   }
 }
 
@@ -75,6 +83,13 @@ double Cast(String v) {
     return std::stod(*v);
   } catch (const std::invalid_argument& e) {
     return 0;
+  } catch (const std::out_of_range& e) {
+    // Underflow is not an error, for the value is representable as a subnormal number or 0.
+    const double r = std::strtod(v->c_str(), nullptr);
+    if (std::isinf(r)) {
+      throw;
+    }
+    return r;
   }
 }
 
-- 
2.43.0


From 2a85d6255c67d3e3f6ceea526c2319a562145b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 22/35] fix: do not truncate the length of a string to 32 bits
 in SUBSTR and MID

---
 src/expr/calc/string_fun.cc | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 12065dd..86a6262 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -89,7 +89,7 @@ String RTrim(String v) {
 }
 
 String Substr(String v0, int32_t v1, int32_t v2) {
-  int len = v0->length();
+  int64_t len = v0->length();
   if (v1 < 0) {
     v1 = 0;
   }
@@ -112,7 +112,7 @@ String Substr(String v0, int32_t v1, int32_t v2) {
 }
 
 String Substr(String v0, int32_t v1) {
-  int len = v0->length();
+  int64_t len = v0->length();
   if (v1 < 0) {
     v1 = 0;
   }
@@ -127,33 +127,35 @@ String Substr(String v0, int32_t v1) {
 
 String Mid(String v0, int32_t v1, int32_t v2) {
   if (v2 > 0) {
-    int len = v0->length();
-    if (0 < v1 && v1 <= len) {
-      v1 -= 1;
-    } else if (-len <= v1 && v1 < 0) {
-      v1 += len;
+    int64_t len = v0->length();
+    int64_t pos = v1;
+    if (0 < pos && pos <= len) {
+      pos -= 1;
+    } else if (-len <= pos && pos < 0) {
+      pos += len;
     } else {
       return String();
     }
-    if (v2 >= len - v1) {
-      return v0->substr(v1);
+    if (v2 >= len - pos) {
+      return v0->substr(pos);
     } else {
-      return v0->substr(v1, v2);
+      return v0->substr(pos, v2);
     }
   }
   return String();
 }
 
 String Mid(String v0, int32_t v1) {
-  int len = v0->length();
-  if (0 < v1 && v1 <= len) {
-    v1 -= 1;
-  } else if (-len <= v1 && v1 < 0) {
-    v1 += len;
+  int64_t len = v0->length();
+  int64_t pos = v1;
+  if (0 < pos && pos <= len) {
+    pos -= 1;
+  } else if (-len <= pos && pos < 0) {
+    pos += len;
   } else {
     return String();
   }
-  return v0->substr(v1);
+  return v0->substr(pos);
 }
 
 }  // namespace dingodb::expr::calc
-- 
2.43.0


From 38b760118620d1b787adf2d3d3097418c8bf8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 23/35] fix: do not leak an operator if memory runs out when it
 is added

---
 src/expr/operator_vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/operator_vector.h b/src/expr/operator_vector.h
index c98ca76..407cbfc 100644
--- a/src/expr/operator_vector.h
+++ b/src/expr/operator_vector.h
@@ -15,6 +15,7 @@
 #ifndef _EXPR_OPERATOR_VECTOR_H_
 #define _EXPR_OPERATOR_VECTOR_H_
 
+#include <memory>
 #include <vector>
 
 #include "operator.h"
@@ -57,8 +58,10 @@ class OperatorVector {
   }
 
   void AddRelease(const Operator *op) {
-    m_vector.push_back(op);
+    std::unique_ptr<const Operator> holder(op);
     m_to_release.push_back(op);
+    holder.release();
+    m_vector.push_back(op);
   }
 
   void Release() {
-- 
2.43.0


From 0a271f6963421ceb82829b043755ad76ba0fd045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 24/35] fix: do not leak the buffer of HexOfBytes if memory
 runs out

---
 src/expr/utils.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/expr/utils.cc b/src/expr/utils.cc
index ae2ab09..ca3088c 100644
--- a/src/expr/utils.cc
+++ b/src/expr/utils.cc
@@ -53,11 +53,8 @@ void BytesToHex(char *hex, const Byte *buf, size_t len) {
 }
 
 std::string HexOfBytes(const Byte *data, size_t len) {
-  char *buf = new char[len * 2 + 1];
-  BytesToHex(buf, data, len);
-  buf[len * 2] = '\0';
-  std::string result(buf);
-  delete[] buf;
+  std::string result(len * 2, '\0');
+  BytesToHex(result.data(), data, len);
   return result;
 }
 
-- 
2.43.0


From 77e67b75039580aaf2757ddc95fe26a50646b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 25/35] fix: do not leak the tuple of results if memory runs
 out

---
 src/expr/runner.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expr/runner.cc b/src/expr/runner.cc
index 0d841e4..8f21d2d 100644
--- a/src/expr/runner.cc
+++ b/src/expr/runner.cc
@@ -15,6 +15,7 @@
 #include "runner.h"
 
 #include <algorithm>
+#include <memory>
 
 namespace dingodb::expr {
 
@@ -26,9 +27,9 @@ void Runner::Run() const {
 }
 
 Tuple *Runner::GetAll() const {
-  auto *tuple = new Tuple();
+  auto tuple = std::make_unique<Tuple>();
   std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
-  return tuple;
+  return tuple.release();
 }
 
 }  // namespace dingodb::expr
-- 
2.43.0


From 6df3eeed93bb636c7b7a93f3fe19eac61852ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 26/35] fix: raise an error if memory runs out when casting
 FLOAT/DOUBLE to STRING

---
 src/expr/calc/casting.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 7c5c9f5..ed46c50 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -113,6 +113,8 @@ static String CastF(T v) {
   // precision is 6 by default
   // auto s = std::to_string(v);
   std::stringstream ss;
+  // Or else the text is cut, maybe to nothing, if memory runs out.
+  ss.exceptions(std::ios_base::badbit);
   ss << std::fixed << std::setprecision(15) << v;
   auto s = ss.str();
   s.erase(s.find_last_not_of('0') + 1);
-- 
2.43.0


From 5451566f7a922f34adcc028bb67432812d89a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 27/35] fix: do not leak a relational operator if memory runs
 out when it is added

---
 src/rel/rel_runner.cc | 47 ++++++++++++++++++++++++++-----------------
 src/rel/rel_runner.h  |  4 +++-
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 3ff0e08..41e2959 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -47,17 +47,25 @@ static const expr::Byte *SkipEndOfExpression(const expr::Byte *p, const expr::By
   return (p < end && *p == EOE) ? p + 1 : p;
 }
 
-static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const expr::Byte *code, size_t len) {
-  aggs = nullptr;
+struct AggsDeleter {
+  void operator()(const std::vector<const op::Agg *> *aggs) const {
+    for (const auto *agg : *aggs) {
+      delete agg;
+    }
+    delete aggs;
+  }
+};
+
+using AggsHolder = std::unique_ptr<const std::vector<const op::Agg *>, AggsDeleter>;
+
+static const expr::Byte *DecodeAggs(AggsHolder &holder, const expr::Byte *code, size_t len) {
+  std::vector<const op::Agg *> *aggs = nullptr;
   try {
-    return expr::DecodeVector(aggs, code, len);
+    const auto *p = expr::DecodeVector(aggs, code, len);
+    holder.reset(aggs);
+    return p;
   } catch (...) {
-    if (aggs != nullptr) {
-      for (const auto *agg : *aggs) {
-        delete agg;
-      }
-      delete aggs;
-    }
+    holder.reset(aggs);
     throw;
   }
 }
@@ -81,14 +89,14 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       ++p;
       auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter.release()));
+      AppendOp(std::unique_ptr<RelOp>(new op::FilterOp(filter.release())));
       break;
     }
     case PROJECT_OP: {
       ++p;
       auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects.release()));
+      AppendOp(std::unique_ptr<RelOp>(new op::ProjectOp(projects.release())));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -102,18 +110,18 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
       std::unique_ptr<int32_t[]> indices_holder(groupe_indices);
-      std::vector<const op::Agg *> *aggs;
+      AggsHolder aggs;
       p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEndOfExpression(p, code + len);
-      AppendOp(new op::GroupedAggOp(indices_holder.release(), count, aggs));
+      AppendOp(std::unique_ptr<RelOp>(new op::GroupedAggOp(indices_holder.release(), count, aggs.release())));
       break;
     }
     case UNGROUPED_AGGREGATE: {
       ++p;
-      std::vector<const op::Agg *> *aggs;
+      AggsHolder aggs;
       p = DecodeAggs(aggs, p, code + len - p);
       p = SkipEndOfExpression(p, code + len);
-      AppendOp(new op::UngroupedAggOp(aggs));
+      AppendOp(std::unique_ptr<RelOp>(new op::UngroupedAggOp(aggs.release())));
       break;
     }
     default:
@@ -139,14 +147,15 @@ const expr::Tuple *RelRunner::Get() const {
   return m_op != nullptr ? m_op->Get() : nullptr;
 }
 
-void RelRunner::AppendOp(RelOp *op) {
+void RelRunner::AppendOp(std::unique_ptr<RelOp> op) {
   if (auto *tandem = dynamic_cast<op::TandemOp *>(m_op)) {
-    tandem->Append(op);
+    tandem->Append(op.get());
   } else if (m_op != nullptr) {
-    m_op = new op::TandemOp(m_op, op);
+    m_op = new op::TandemOp(m_op, op.get());
   } else {
-    m_op = op;
+    m_op = op.get();
   }
+  op.release();
 }
 
 }  // namespace dingodb::rel
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index aade21a..53f9ce9 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -15,6 +15,8 @@
 #ifndef _REL_REL_RUNNER_H_
 #define _REL_REL_RUNNER_H_
 
+#include <memory>
+
 #include "../expr/codec.h"
 #include "../expr/types.h"
 #include "op/agg.h"
@@ -41,7 +43,7 @@ class RelRunner {
     m_op = nullptr;
   }
 
-  void AppendOp(RelOp *op);
+  void AppendOp(std::unique_ptr<RelOp> op);
 };
 
 }  // namespace dingodb::rel
-- 
2.43.0


From 8ef3f11927e24e88e27daa1023a806dfd8e8d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 28/35] fix: neither leak the row put into a grouped
 aggregation nor crash at the next get if memory runs out

---
 src/rel/op/grouped_agg_op.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/grouped_agg_op.cc b/src/rel/op/grouped_agg_op.cc
index 47716de..4417041 100644
--- a/src/rel/op/grouped_agg_op.cc
+++ b/src/rel/op/grouped_agg_op.cc
@@ -14,6 +14,8 @@
 
 #include "grouped_agg_op.h"
 
+#include <memory>
+
 #include "../../expr/utils.h"
 
 namespace dingodb::rel::op {
@@ -32,10 +34,17 @@ GroupedAggOp::~GroupedAggOp() {
 }
 
 const expr::Tuple *GroupedAggOp::Put(const expr::Tuple *tuple) const {
-  auto *key = expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size);
-  auto *&cache = m_caches[*key];
-  delete key;
-  AddToCache(cache, tuple);
+  std::unique_ptr<const expr::Tuple> holder(tuple);
+  std::unique_ptr<expr::Tuple> key(expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size));
+  auto i = m_caches.emplace(*key, nullptr).first;
+  try {
+    AddToCache(i->second, holder.release());
+  } catch (...) {
+    if (i->second == nullptr) {
+      m_caches.erase(i);
+    }
+    throw;
+  }
   return nullptr;
 }
 
-- 
2.43.0


From 3ad1ef16fcb401eeae54f734e12c450ba8292388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 29/35] fix: Format floating point numbers independently of the
 global locale

---
 src/expr/calc/casting.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index ed46c50..42a02c8 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -17,6 +17,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 
 #include "../exception.h"
@@ -113,6 +114,8 @@ static String CastF(T v) {
   // precision is 6 by default
   // auto s = std::to_string(v);
   std::stringstream ss;
+  // Or else the decimal point and digit grouping are those of the global locale.
+  ss.imbue(std::locale::classic());
   // Or else the text is cut, maybe to nothing, if memory runs out.
   ss.exceptions(std::ios_base::badbit);
   ss << std::fixed << std::setprecision(15) << v;
-- 
2.43.0


From a2a3f70cd13b5b84a4a4bbabb9a045c996b4fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 30/35] fix: Convert text to floating point numbers as in the
 "C" locale, whatever that of the process

---
 src/expr/calc/casting.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 42a02c8..154a2ae 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -14,6 +14,8 @@
 
 #include "casting.h"
 
+#include <locale.h>
+
 #include <cmath>
 #include <cstdlib>
 #include <iomanip>
@@ -24,6 +26,25 @@
 
 namespace dingodb::expr::calc {
 
+// Makes the numeric format of the calling thread that of the "C" locale, as long as it lives.
+class ClassicLocale {
+ public:
+  ClassicLocale() {
+    static const locale_t classic = newlocale(LC_ALL_MASK, "C", nullptr);
+    m_saved = uselocale(classic);
+  }
+
+  ~ClassicLocale() {
+    uselocale(m_saved);
+  }
+
+  ClassicLocale(const ClassicLocale &) = delete;
+  ClassicLocale &operator=(const ClassicLocale &) = delete;
+
+ private:
+  locale_t m_saved;
+};
+
 template <>
 int32_t Cast(float v) {
   return lround(v);
@@ -64,6 +85,7 @@ int64_t Cast(String v) {
 
 template <>
 float Cast(String v) {
+  const ClassicLocale guard;
   try {
     return std::stof(*v);
   } catch (const std::invalid_argument& e) {
@@ -80,6 +102,7 @@ float Cast(String v) {
 
 template <>
 double Cast(String v) {
+  const ClassicLocale guard;
   try {
     return std::stod(*v);
   } catch (const std::invalid_argument& e) {
-- 
2.43.0


From 4550739e7f4ec69ae37d0eb5178d21567875436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 31/35] fix: LOWER and UPPER map ASCII letters in any locale

---
 src/expr/calc/string_fun.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 86a6262..0db3814 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -28,15 +28,24 @@ String Concat(String v0, String v1) {
   return v1;
 }
 
+// Not std::tolower and std::toupper, which follow the locale of the process.
+static char ToLower(char ch) {
+  return ('A' <= ch && ch <= 'Z') ? ch - 'A' + 'a' : ch;
+}
+
+static char ToUpper(char ch) {
+  return ('a' <= ch && ch <= 'z') ? ch - 'a' + 'A' : ch;
+}
+
 String Lower(String v) {
   std::string str(v->length(), '\0');
-  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::tolower(ch); });
+  std::transform(v->cbegin(), v->cend(), str.begin(), ToLower);
   return str;
 }
 
 String Upper(String v) {
   std::string str(v->length(), '\0');
-  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
+  std::transform(v->cbegin(), v->cend(), str.begin(), ToUpper);
   return str;
 }
 
-- 
2.43.0


From b3c80cf469fa8c2e7556bfcde0edce6822505625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 32/35] fix: Copies of a runner share its constants, which were
 released once for each copy

---
 src/expr/operator_vector.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/expr/operator_vector.h b/src/expr/operator_vector.h
index 407cbfc..fca4f1d 100644
--- a/src/expr/operator_vector.h
+++ b/src/expr/operator_vector.h
@@ -51,23 +51,20 @@ class OperatorVector {
 
  private:
   std::vector<const Operator *> m_vector;
-  std::vector<const Operator *> m_to_release;
+  // Shared with the copies of this.
+  std::vector<std::shared_ptr<const Operator>> m_to_release;
 
   void Add(const Operator *op) {
     m_vector.push_back(op);
   }
 
   void AddRelease(const Operator *op) {
-    std::unique_ptr<const Operator> holder(op);
-    m_to_release.push_back(op);
-    holder.release();
+    std::shared_ptr<const Operator> holder(op);
+    m_to_release.push_back(holder);
     m_vector.push_back(op);
   }
 
   void Release() {
-    for (const auto *op : m_to_release) {
-      delete op;
-    }
     m_to_release.clear();
     m_vector.clear();
   }
-- 
2.43.0


From 2040c04114b25ab3708d57423ea61316497bdf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 33/35] fix: Forbid to copy a pipeline runner, which released
 its operators twice

---
 src/rel/rel_runner.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index 53f9ce9..13f23ba 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -29,6 +29,10 @@ class RelRunner {
   RelRunner();
   virtual ~RelRunner();
 
+  // It owns its operators and the rows they hold.
+  RelRunner(const RelRunner &) = delete;
+  RelRunner &operator=(const RelRunner &) = delete;
+
   const expr::Byte *Decode(const expr::Byte *code, size_t len);
 
   const expr::Tuple *Put(const expr::Tuple *tuple) const;
-- 
2.43.0


From 3e7c002d911915e42214bee59af9b9fb471036f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 34/35] fix: count array elements in size_t, an int overflows
 on arrays of 2^31 elements

---
 src/expr/codec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index a2039ef..4bbaaa9 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -79,7 +79,7 @@ inline void CheckCount(size_t count, const Byte *data, const Byte *end) {
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
-  int i;
+  size_t i;
   for (i = 0; i < count && p < code + len; ++i) {
     p = DecodeValue(container[i], p, code + len);
   }
-- 
2.43.0


From 701475badf9b6af0b7d7e74dbcfbd5adb08743ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 35/35] fix: report numbers of elements beyond 32 bits as they
 are in MoreElementsRequired

---
 src/expr/exception.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/exception.h b/src/expr/exception.h
index 2024ba6..ab32673 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -54,7 +54,7 @@ class IncompleteCode : public ExprError {
 
 class MoreElementsRequired : public ExprError {
  public:
-  MoreElementsRequired(int required, int actual)
+  MoreElementsRequired(size_t required, size_t actual)
       : ExprError(
             "Array decoding requires " + std::to_string(required) + " elements, but " + std::to_string(actual) +
             " provided.") {
-- 
2.43.0

