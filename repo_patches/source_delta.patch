From b2783bb7642174c9e622f9eb48523c43382a72dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 01/76] fix: undefined conversion when hashing negative, large
 or non-finite floats

---
 src/c/data.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..6299cea 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1413,11 +1413,16 @@ iot_data_t * iot_data_alloc_const_i8 (iot_data_static_t * data, int8_t val)
   return (iot_data_t*) data;
 }
 
+static inline uint32_t iot_data_float_hash (double val)
+{
+  return (val > -9.2e18 && val < 9.2e18) ? (uint32_t) (int64_t) val : 0u; // Conversion only defined for values in range
+}
+
 iot_data_t * iot_data_alloc_f32 (float val)
 {
   iot_data_value_t * data = iot_data_value_alloc (IOT_DATA_FLOAT32, false);
   data->value.f32 = val;
-  data->base.hash = (uint32_t) val;
+  data->base.hash = iot_data_float_hash (val);
   return (iot_data_t*) data;
 }
 
@@ -1425,7 +1430,7 @@ iot_data_t * iot_data_alloc_f64 (double val)
 {
   iot_data_value_t * data = iot_data_value_alloc (IOT_DATA_FLOAT64, false);
   data->value.f64 = val;
-  data->base.hash = (uint32_t) val;
+  data->base.hash = iot_data_float_hash (val);
   return (iot_data_t*) data;
 }
 
-- 
2.43.0


From 9bee5591b3706db3e72c0801c326f850c663e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 02/76] fix: out of range 64 bit integer and NaN casts accepted
 by iot_data_cast

---
 src/c/data.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6299cea..09188a3 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -493,7 +493,10 @@ static bool iot_data_cast_val (const iot_data_union_t in, void * out, iot_data_t
     case IOT_DATA_FLOAT64: uval.f64 = in.f64; break;
     default: uval.ui64 = in.bl ? 1u : 0u; break;
   }
-  // Check value within max/min for target type
+  // Check value within max/min for target type, note 64 bit integer limits are not exactly representable as a double
+  if (out_type <= IOT_DATA_UINT64 && dfloat && uval.f64 != uval.f64) return false; // NaN
+  if (out_type == IOT_DATA_INT64 && (dfloat ? (uval.f64 >= 9223372036854775808.0) : (usign && uval.ui64 > INT64_MAX))) return false;
+  if (out_type == IOT_DATA_UINT64 && dfloat && uval.f64 >= 18446744073709551616.0) return false;
   if ((out_type < IOT_DATA_FLOAT64) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
 
   // Cast to target type
-- 
2.43.0


From 88bba95f16569baf123f15257eeb583ca8deccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 03/76] fix: iot_data_array_transform reads beyond end of array

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 09188a3..17b94ed 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -739,8 +739,9 @@ iot_data_t * iot_data_array_transform (const iot_data_t * array, iot_data_type_t
     iot_data_array_iter (array, &iter);
     while (iot_data_array_iter_next (&iter))
     {
-      const iot_data_union_t * element = iot_data_array_iter_value (&iter);
-      if (iot_data_cast_val (*element, ptr, array->element_type, type))
+      iot_data_union_t element = { .ui64 = 0 };
+      memcpy (&element, iot_data_array_iter_value (&iter), iot_data_type_sizes[array->element_type]);
+      if (iot_data_cast_val (element, ptr, array->element_type, type))
       {
         ptr += esize;
         asize++;
-- 
2.43.0


From 5d43d91fad327512bb9032fc39e72048d3ce5aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 04/76] fix: iot_data_alloc_from_string silently truncates out
 of range integers

---
 src/c/data.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 17b94ed..d6e380c 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -10,6 +10,7 @@
 #include "iot/uuid.h"
 #include <stdarg.h>
 #include <float.h>
+#include <errno.h>
 
 #define IOT_DATA_IS_COMPOSED_TYPE(t) ((t) >= IOT_DATA_VECTOR && (t) <= IOT_DATA_MAP)
 #define IOT_DATA_IS_FLOAT_TYPE(t) ((t) == IOT_DATA_FLOAT32 || (t) == IOT_DATA_FLOAT64)
@@ -1213,15 +1214,29 @@ void iot_data_free (iot_data_t * data)
   }
 }
 
+static bool iot_data_number_from_string (iot_data_type_t type, const char * value, iot_data_union_t * out)
+{
+  if (type == IOT_DATA_FLOAT32) return sscanf (value, "%f", &out->f32) == 1;
+  if (type == IOT_DATA_FLOAT64) return sscanf (value, "%lf", &out->f64) == 1;
+
+  // Parse integers at full width so that values out of range for type are rejected and not truncated
+  iot_data_union_t val = { .ui64 = 0 };
+  char * end = NULL;
+  bool sign = IOT_DATA_IS_SIGNED_TYPE (type) || (value[strspn (value, " \t\n\v\f\r")] == '-');
+  errno = 0;
+  if (sign) val.i64 = strtoll (value, &end, 10); else val.ui64 = strtoull (value, &end, 10);
+  if (end == value || errno == ERANGE) return false;
+  return iot_data_cast_val (val, out, sign ? IOT_DATA_INT64 : IOT_DATA_UINT64, type);
+}
+
 iot_data_t * iot_data_alloc_from_string (iot_data_type_t type, const char * value)
 {
-  static const char * fmt [] =  { "%"SCNd8,"%"SCNu8,"%"SCNd16,"%"SCNu16,"%"SCNd32,"%"SCNu32,"%"SCNd64,"%"SCNu64,"%f","%lf" };
   assert (value && ((type == IOT_DATA_STRING) || strlen (value)));
 
   if (type < IOT_DATA_BOOL)
   {
     iot_data_union_t un = { 0 };
-    if (sscanf (value, fmt[type], &un) == 1)
+    if (iot_data_number_from_string (type, value, &un))
     {
       switch (type)
       {
-- 
2.43.0


From 4311287e56628e546eb0e1a5b5e5dc6b24cab241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 05/76] fix: iot_data_compare_value of negative and unsigned
 integers

---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index d6e380c..49becff 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -542,9 +542,9 @@ static int iot_data_cmp (const iot_data_t * v1, const iot_data_t * v2, bool by_v
       if (IOT_DATA_IS_SIGNED_TYPE (v1->type))
       {
         if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.i64 == uv2.i64) ? 0 : ((uv1.i64 < uv2.i64) ? -1 : 1);
-        return (uv1.i64 == uv2.ui64) ? 0 : ((uv1.i64 < uv2.ui64) ? -1 : 1);
+        if (uv1.i64 < 0) return -1; // Negative always less than unsigned
       }
-      if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.ui64 == uv2.i64) ? 0 : ((uv1.ui64 < uv2.i64) ? -1 : 1);
+      else if (IOT_DATA_IS_SIGNED_TYPE (v2->type) && (uv2.i64 < 0)) return 1;
       return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
     }
     return (v1->type < v2->type) ? -1 : 1;
-- 
2.43.0


From eb5aa35e433edc0cb5d39ca46a8ecfe73490f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 06/76] fix: buffer overflow in iot_data_binary_take for multi
 byte elements and stale hash

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 49becff..b923d87 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1562,11 +1562,12 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
     ret = array->data;
     array->data = NULL;
     array->length = 0u;
+    array->base.hash = 0u;
   }
   else
   {
-    ret = malloc (array->length);
-    memcpy (ret, array->data, *len);
+    ret = malloc (*len);
+    if (*len) memcpy (ret, array->data, *len);
   }
   return ret;
 }
-- 
2.43.0


From cc4407b69a79dab20f75bb9300c833686576668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 07/76] fix: leak and inconsistent hash of zero length array
 with data

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index b923d87..1b24fa8 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1610,8 +1610,9 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   array->base.element_type = type;
   array->data = length ? data : NULL;
   array->length = length;
-  array->base.hash = data ? iot_hash_data (data, size) : 0;
-  array->base.release = data ? (ownership != IOT_DATA_REF) : false;
+  array->base.hash = length ? iot_hash_data (data, size) : 0;
+  array->base.release = length ? (ownership != IOT_DATA_REF) : false;
+  if ((length == 0) && (ownership == IOT_DATA_TAKE)) free (data);
   if (length && data && (ownership == IOT_DATA_COPY))
   {
     array->data = malloc (size);
-- 
2.43.0


From 112f37e8dd3220ef28f38fa7f4ffa9c18c13977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 08/76] fix: stale hash and signed overflow in
 iot_data_increment and iot_data_decrement

---
 src/c/data.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 1b24fa8..1a02256 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1259,22 +1259,27 @@ iot_data_t * iot_data_alloc_from_string (iot_data_type_t type, const char * valu
   return NULL;
 }
 
+static inline uint32_t iot_data_float_hash (double val)
+{
+  return (val > -9.2e18 && val < 9.2e18) ? (uint32_t) (int64_t) val : 0u; // Conversion only defined for values in range
+}
+
 static void iot_data_inc_dec (iot_data_t * data, bool inc)
 {
   assert (data);
   iot_data_union_t * val = &((iot_data_value_t*) data)->value;
   switch (data->type)
   {
-    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; break;
-    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; break;
-    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; break;
-    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; break;
-    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; break;
-    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; break;
-    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; break;
-    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; break;
-    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; break;
-    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; break;
+    case IOT_DATA_INT8: inc ? val->ui8++ : val->ui8--; data->hash = (uint32_t) val->i8; break;
+    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; data->hash = (uint32_t) val->ui8; break;
+    case IOT_DATA_INT16: inc ? val->ui16++ : val->ui16--; data->hash = (uint32_t) val->i16; break;
+    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; data->hash = (uint32_t) val->ui16; break;
+    case IOT_DATA_INT32:
+    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; data->hash = val->ui32; break;
+    case IOT_DATA_INT64:
+    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; data->hash = (uint32_t) val->ui64; break;
+    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; data->hash = iot_data_float_hash (val->f32); break;
+    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; data->hash = iot_data_float_hash (val->f64); break;
     default: break;
   }
 }
@@ -1432,11 +1437,6 @@ iot_data_t * iot_data_alloc_const_i8 (iot_data_static_t * data, int8_t val)
   return (iot_data_t*) data;
 }
 
-static inline uint32_t iot_data_float_hash (double val)
-{
-  return (val > -9.2e18 && val < 9.2e18) ? (uint32_t) (int64_t) val : 0u; // Conversion only defined for values in range
-}
-
 iot_data_t * iot_data_alloc_f32 (float val)
 {
   iot_data_value_t * data = iot_data_value_alloc (IOT_DATA_FLOAT32, false);
-- 
2.43.0


From 092c569069fb564841280354a825b1e171582801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 09/76] fix: stale hashes and data race on lazily calculated
 hash of shared data

---
 src/c/data-impl.h |  3 +-
 src/c/data.c      | 88 ++++++++++++++++++++++-------------------------
 2 files changed, 43 insertions(+), 48 deletions(-)

diff --git a/src/c/data-impl.h b/src/c/data-impl.h
index c4536da..443e0ad 100644
--- a/src/c/data-impl.h
+++ b/src/c/data-impl.h
@@ -24,7 +24,7 @@ struct iot_data_t
 {
   iot_data_base_t base;
   _Atomic uint32_t refs;
-  uint32_t hash;
+  _Atomic uint32_t hash; // For composed types zero if to be calculated
   iot_data_type_t type;
   iot_data_type_t element_type;
   iot_data_type_t key_type;
@@ -33,7 +33,6 @@ struct iot_data_t
   bool heap : 1;
   bool constant : 1;
   bool composed : 1;
-  bool rehash : 1;
   bool tag1 : 1;
   bool tag2 : 1;
 };
diff --git a/src/c/data.c b/src/c/data.c
index 1a02256..541d3da 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -288,50 +288,58 @@ extern void iot_data_block_free (void  * ptr)
 #endif
 }
 
-static inline void iot_data_map_hash (iot_data_t * map, const iot_data_t * key, const iot_data_t * value)
+static inline uint32_t iot_data_map_hash (const iot_data_t * key, const iot_data_t * value)
 {
   uint32_t key_hash = iot_data_hash (key);
   uint32_t val_hash = iot_data_hash (value);
-  map->hash ^= key_hash;
-  if (val_hash != key_hash) map->hash ^= val_hash; // Only apply value hash if different from key hash or hashes cancel out
+  return (val_hash != key_hash) ? (key_hash ^ val_hash) : key_hash; // Only apply value hash if different from key hash or hashes cancel out
+}
+
+// Set hash of composed type to be recalculated when next required
+
+static inline void iot_data_set_rehash (iot_data_t * data)
+{
+  atomic_store_explicit (&data->hash, 0u, memory_order_relaxed);
 }
 
 uint32_t iot_data_hash (const iot_data_t * data)
 {
-  iot_data_t * da = (iot_data_t*) data;
-  if (da && da->rehash)
+  if (data == NULL) return 0u;
+  uint32_t hash = data->hash;
+
+  // Hash of composed types calculated on demand, as data may be shared between threads only set once fully calculated
+  if (hash == 0u && data->composed)
   {
-    da->hash = 0;
-    da->rehash = false;
-    if (da->type == IOT_DATA_VECTOR)
+    if (data->type == IOT_DATA_VECTOR)
     {
       iot_data_vector_iter_t iter;
-      iot_data_vector_iter (da, &iter);
+      iot_data_vector_iter (data, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
       }
     }
-    else if (da->type == IOT_DATA_LIST)
+    else if (data->type == IOT_DATA_LIST)
     {
       iot_data_list_iter_t iter;
-      iot_data_list_iter (da, &iter);
+      iot_data_list_iter (data, &iter);
       while (iot_data_list_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
       }
     }
     else // IOT_DATA_MAP
     {
       iot_data_map_iter_t iter;
-      iot_data_map_iter (da, &iter);
+      iot_data_map_iter (data, &iter);
       while (iot_data_map_iter_next (&iter))
       {
-        iot_data_map_hash (da, iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
+        hash ^= iot_data_map_hash (iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
       }
     }
+    ((iot_data_t*) data)->hash = hash;
   }
-  return da ? da->hash : 0u;
+  return hash;
 }
 
 static inline void iot_element_free (iot_element_t * element)
@@ -880,7 +888,7 @@ static void iot_data_list_remove_element (iot_data_list_t * list, iot_element_t
     element->next->prev = element->prev;
     element->prev->next = element->next;
     list->head->length--;
-    list->base.rehash = true;
+    iot_data_set_rehash (&list->base);
     iot_element_free (element);
   }
   iot_data_free (value);
@@ -946,8 +954,7 @@ iot_data_t * iot_data_list_iter_replace (const iot_data_list_iter_t * iter, iot_
   iot_data_t * res = (iter->_element) ? iter->_element->value : NULL;
   if (res)
   {
-    iot_data_t * base = (iot_data_t*) &iter->_list->base;
-    base->rehash = true;
+    iot_data_set_rehash ((iot_data_t*) &iter->_list->base);
     iter->_element->value = value;
   }
   return res;
@@ -983,7 +990,7 @@ void iot_data_list_tail_push (iot_data_t * list, iot_data_t * value)
     impl->head = impl->tail;
   }
   impl->head->length++;
-  list->hash ^= iot_data_hash (value);
+  iot_data_set_rehash (list);
 }
 
 iot_data_t * iot_data_list_tail_pop (iot_data_t * list)
@@ -1005,7 +1012,7 @@ iot_data_t * iot_data_list_tail_pop (iot_data_t * list)
     {
       impl->head = NULL;
     }
-    list->rehash = true;
+    iot_data_set_rehash (list);
     iot_element_free (element);
   }
   return value;
@@ -1029,7 +1036,7 @@ void iot_data_list_head_push (iot_data_t * list, iot_data_t * value)
     impl->tail = impl->head;
     impl->head->length = 1;
   }
-  list->hash ^= iot_data_hash (value);
+  iot_data_set_rehash (list);
 }
 
 iot_data_t * iot_data_list_head_pop (iot_data_t * list)
@@ -1051,7 +1058,7 @@ iot_data_t * iot_data_list_head_pop (iot_data_t * list)
     {
       impl->tail = NULL;
     }
-    list->rehash = true;
+    iot_data_set_rehash (list);
     iot_element_free (element);
   }
   return value;
@@ -1758,7 +1765,7 @@ bool iot_data_map_remove (iot_data_t * map, const iot_data_t * key)
     iot_data_map_t * mp = (iot_data_map_t*) map;
     if ((ret = iot_node_remove (mp, key)))
     {
-      mp->base.rehash = true;
+      iot_data_set_rehash (map);
       mp->size--;
     }
   }
@@ -1846,6 +1853,7 @@ bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * ke
     array = iot_data_alloc_array_from_base64 (((iot_data_value_t*) node->value)->value.str);
     if (array)
     {
+      iot_data_set_rehash ((iot_data_t*) map);
       iot_data_free (node->value);
       node->value = array;
     }
@@ -2030,16 +2038,8 @@ void iot_data_vector_add (iot_data_t * vector, uint32_t index, iot_data_t * val)
   assert (vector && (vector->type == IOT_DATA_VECTOR));
   assert (index < arr->size);
   assert ((val == NULL) || (val && (vector->element_type == IOT_DATA_MULTI || vector->element_type == val->type))); // Check element type matches for fixed type vector
-  iot_data_t * element = arr->values[index];
-  if (element)
-  {
-    vector->rehash = true;
-    iot_data_free (element);
-  }
-  else
-  {
-    vector->hash ^= iot_data_hash (val);
-  }
+  iot_data_set_rehash (vector);
+  iot_data_free (arr->values[index]);
   arr->values[index] = val;
 }
 
@@ -2075,7 +2075,7 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
+  iot_data_set_rehash (vector);
   vec->size = size;
 }
 
@@ -2384,7 +2384,11 @@ iot_data_t * iot_data_map_iter_replace_value (const iot_data_map_iter_t * iter,
 {
   assert (iter && iter->_map && value && (iter->_map->base.element_type == IOT_DATA_MULTI || iter->_map->base.element_type == value->type));
   iot_data_t * res = (iter->_node) ? iter->_node->value : NULL;
-  if (res) iter->_node->value = value;
+  if (res)
+  {
+    iot_data_set_rehash ((iot_data_t*) &iter->_map->base);
+    iter->_node->value = value;
+  }
   return res;
 }
 
@@ -2511,14 +2515,7 @@ iot_data_t * iot_data_vector_iter_replace_value (const iot_data_vector_iter_t *
   if (iter->_index < vector->size)
   {
     res = vector->values[iter->_index];
-    if (res)
-    {
-      vector->base.rehash = true;
-    }
-    else
-    {
-      if (value) vector->base.hash ^= iot_data_hash (value);
-    }
+    iot_data_set_rehash (&vector->base);
     vector->values[iter->_index] = value;
   }
   return res;
@@ -3213,9 +3210,9 @@ static bool iot_node_remove (iot_data_map_t * map, const iot_data_t * key)
 static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * value)
 {
   iot_node_t * node = iot_node_find (map->tree, key);
+  iot_data_set_rehash (&map->base);
   if (node)
   {
-    map->base.rehash = true;
     iot_data_free (key);
     iot_data_free (node->value);
     node->value = value;
@@ -3223,7 +3220,6 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   else
   {
     iot_node_insert (map, key, value);
-    iot_data_map_hash (&map->base, key, value);
   }
   return (node == NULL);
 }
-- 
2.43.0


From 1a9c7782e138d50007e40d036e623b527dacc3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 10/76] fix: buffer overflow and wrong result in
 iot_data_vector_dimensions for irregular vectors

---
 src/c/data.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 541d3da..87deda1 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2139,24 +2139,19 @@ static uint32_t iot_data_vector_depth (const iot_data_t * vector)
   return depth + 1u;
 }
 
-static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t * total)
+static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t depth, bool first)
 {
   uint32_t size = iot_data_vector_size (vector);
-  uint32_t vecs = iot_data_vector_element_count (vector, IOT_DATA_VECTOR, false);
-  if (*dims == 0)
-  {
-    *dims = size;
-    *total = *total ? *total * size : size;
-  }
+  if (first) *dims = size;
   bool ok = (*dims == size);
-  if (ok && (size == vecs)) // Only regard as multidimensional vector if all elements also vectors
+  if (depth > 1u) // Vectors above the last dimension only contain other vectors
   {
-    dims++;
     iot_data_vector_iter_t iter;
     iot_data_vector_iter (vector, &iter);
     while (ok && iot_data_vector_iter_next (&iter))
     {
-      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims, total);
+      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims + 1, depth - 1u, first);
+      first = false;
     }
   }
   return ok;
@@ -2169,8 +2164,10 @@ iot_data_t * iot_data_vector_dimensions (const iot_data_t * vector, uint32_t * t
   uint32_t depth = iot_data_vector_depth (vector);
   uint32_t * dims = calloc (depth, sizeof (uint32_t));
   *total = 0u;
-  if (iot_data_vector_dims (vector, dims, total))
+  if (iot_data_vector_dims (vector, dims, depth, true))
   {
+    *total = dims[0];
+    for (uint32_t i = 1u; i < depth; i++) *total *= dims[i];
     dimarray = iot_data_alloc_array (dims, depth, IOT_DATA_UINT32, IOT_DATA_TAKE);
   }
   else
-- 
2.43.0


From 41b7b8b0bb269a96a81435f45ca665c8965076cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 11/76] fix: iot_data_get_at to return NULL if path does not
 match data

---
 src/c/data.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 87deda1..dfbf46a 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2793,12 +2793,24 @@ extern const iot_data_t * iot_data_get_at (const iot_data_t * data, const iot_da
   const iot_data_t * result = data;
   if (iot_data_list_length (path) > 0)
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
-    iot_data_t * index = iot_data_list_head_pop (p);
-    result = (data->type == IOT_DATA_MAP) ? iot_data_get_at (iot_data_map_get (data, index), p) : iot_data_get_at (iot_data_vector_get (data, iot_data_ui32 (index)), p);
-    iot_data_free (index);
-    iot_data_free (p);
+    iot_data_list_iter_t iter;
+    iot_data_list_iter (path, &iter);
+    while (result && iot_data_list_iter_prev (&iter))
+    {
+      const iot_data_t * index = iot_data_list_iter_value (&iter);
+      if (result->type == IOT_DATA_MAP)
+      {
+        result = iot_data_map_get (result, index);
+      }
+      else if ((result->type == IOT_DATA_VECTOR) && (index->type == IOT_DATA_UINT32) && (iot_data_ui32 (index) < iot_data_vector_size (result)))
+      {
+        result = iot_data_vector_get (result, iot_data_ui32 (index));
+      }
+      else
+      {
+        result = NULL;
+      }
+    }
   }
   return result;
 }
-- 
2.43.0


From 12da8be6a68a5e5e96f59562994ea2b475f7f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 12/76] fix: iot_data_copy of static list shares mutable list,
 so path functions modify static paths

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index dfbf46a..3ddd065 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2642,7 +2642,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
   iot_data_t * ret = NULL;
 
   if (data == NULL) return ret;
-  if (data->constant) return (iot_data_t*) data;
+  if (data->constant && (data->type != IOT_DATA_LIST)) return (iot_data_t*) data; // Static lists are mutable
 
   switch (data->type)
   {
-- 
2.43.0


From 6d7ee9ba7bf934041a9decb0f9e9b5c7ee8cc455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 13/76] fix: iot_data_copy leaks pointer metadata and shares
 mutable metadata

---
 src/c/data.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 3ddd065..48c303e 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2699,9 +2699,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data);
     }
     default: // basic types
     {
@@ -2711,7 +2709,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
       ret = (iot_data_t*) val;
     }
   }
-  ret->base.meta = iot_data_add_ref (data->base.meta);
+  if (data->base.meta) ret->base.meta = iot_data_shallow_copy (data->base.meta);
   return ret;
 }
 
-- 
2.43.0


From e95d56396cf106faf84708a57b619d0b76a5229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 14/76] fix: iot_data_compress of vector with unset elements

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 48c303e..517aa7e 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1088,6 +1088,7 @@ bool iot_data_is_nan (const iot_data_t * data)
 
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
+  if (*data == NULL) return; // Unset vector element
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-- 
2.43.0


From f807ce65a5c207bcbc938d96faf8a12410ad54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 15/76] fix: iterator has_next functions return true for empty
 list, vector and array

---
 src/c/data.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 517aa7e..e0e02b7 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -920,7 +920,7 @@ bool iot_data_list_iter_next (iot_data_list_iter_t * iter)
 bool iot_data_list_iter_has_next (const iot_data_list_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_element == NULL) ||  iter->_element->next);
+  return (iter->_element ? iter->_element->next : iter->_list->tail) != NULL;
 }
 
 bool iot_data_list_iter_prev (iot_data_list_iter_t * iter)
@@ -2431,7 +2431,7 @@ bool iot_data_array_iter_next (iot_data_array_iter_t * iter)
 bool iot_data_array_iter_has_next (const iot_data_array_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_index == iter->_array->length) || (iter->_index + 1 < iter->_array->length));
+  return (iter->_index == iter->_array->length) ? (iter->_array->length > 0) : (iter->_index + 1 < iter->_array->length);
 }
 
 bool iot_data_array_iter_prev (iot_data_array_iter_t * iter)
@@ -2469,7 +2469,7 @@ bool iot_data_vector_iter_next (iot_data_vector_iter_t * iter)
 
 bool iot_data_vector_iter_has_next (const iot_data_vector_iter_t * iter)
 {
-  return ((iter->_index == iter->_vector->size) || (iter->_index + 1 < iter->_vector->size));
+  return (iter->_index == iter->_vector->size) ? (iter->_vector->size > 0) : (iter->_index + 1 < iter->_vector->size);
 }
 
 bool iot_data_vector_iter_prev (iot_data_vector_iter_t * iter)
-- 
2.43.0


From c0cf2bac3ee8a4bbd4ab0f54e3e50438d3bc9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 16/76] fix: iot_data_map_base64_to_array for maps with multi
 type key or fixed value type

---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index e0e02b7..ca7fa7c 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1843,13 +1843,13 @@ uint32_t iot_data_map_size (const iot_data_t * map)
 bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * key)
 {
   assert (map && (map->type == IOT_DATA_MAP));
-  assert (key && key->type == map->key_type);
+  assert (key && (key->type == map->key_type || map->key_type == IOT_DATA_MULTI));
 
   iot_data_t * array = NULL;
   const iot_data_map_t * mp = (const iot_data_map_t*) map;
   iot_node_t * node = iot_node_find (mp->tree, key);
 
-  if (node && (node->value->type == IOT_DATA_STRING))
+  if (node && (node->value->type == IOT_DATA_STRING) && (map->element_type == IOT_DATA_MULTI))
   {
     array = iot_data_alloc_array_from_base64 (((iot_data_value_t*) node->value)->value.str);
     if (array)
-- 
2.43.0


From a98756a69602fe6b9be50409f49f5c144f643106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 17/76] fix: iot_data_add_at asserts when adding a new map key
 or unset vector element

---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index ca7fa7c..bee21c7 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2822,11 +2822,11 @@ extern void iot_data_list_empty (iot_data_t * list)
 
 extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t * path, iot_data_t * val)
 {
-  assert (data && path && val);
+  assert (path && val);
   iot_data_t * result;
   if (iot_data_list_length (path) > 0)
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
+    assert (data && (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR));
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     result = iot_data_shallow_copy (data);
-- 
2.43.0


From 43eaf81643e3158cb2137382569bf5d5d12dcaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 18/76] fix: decoding malformed or deeply nested JSON reads
 beyond tokens or overflows stack

---
 src/c/data-json.c | 61 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 2d2306d..ffb909b 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -12,8 +12,9 @@
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
+#define IOT_JSON_MAX_DEPTH 512u
 
-static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache);
+static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache, uint32_t depth);
 
 static inline void iot_data_strcat (iot_string_holder_t * holder, const char * add)
 {
@@ -293,7 +294,7 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
   return ret;
 }
 
-static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
+static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache, uint32_t depth)
 {
   uint32_t elements = (*tokens)->size;
   iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING);
@@ -303,15 +304,29 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char
   (*tokens)++;
   while  (elements--)
   {
-    iot_data_t * key = iot_data_string_from_json (tokens, json, cache);
+    iot_data_t * value = NULL;
+    iot_data_t * key = NULL;
+    // A key must be a string (or unquoted primitive) with exactly one value
+    if (*tokens < end && (*tokens)->type >= IOT_JSON_STRING && (*tokens)->size == 1)
+    {
+      key = iot_data_string_from_json (tokens, json, cache);
+      value = iot_data_value_from_json (tokens, end, json, ordered, cache, depth);
+    }
+    if (value == NULL)
+    {
+      iot_data_free (key);
+      iot_data_free (ordering);
+      iot_data_free (map);
+      return NULL;
+    }
     if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
-    iot_data_map_add (map, key, iot_data_value_from_json (tokens, json, ordered, cache));
+    iot_data_map_add (map, key, value);
   }
   if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
 }
 
-static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
+static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache, uint32_t depth)
 {
   uint32_t elements = (*tokens)->size;
   uint32_t index = 0;
@@ -320,20 +335,38 @@ static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const c
   (*tokens)++;
   while (elements--)
   {
-    iot_data_vector_add (vector, index++, iot_data_value_from_json (tokens, json, ordered, cache));
+    iot_data_t * value = iot_data_value_from_json (tokens, end, json, ordered, cache, depth);
+    if (value == NULL)
+    {
+      iot_data_free (vector);
+      return NULL;
+    }
+    iot_data_vector_add (vector, index++, value);
   }
   return vector;
 }
 
-static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
+// Returns NULL if tokens do not form a value
+static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache, uint32_t depth)
 {
   iot_data_t * data = NULL;
-  switch ((*tokens)->type)
+  if (*tokens < end)
   {
-    case IOT_JSON_PRIMITIVE: data = iot_data_primitive_from_json (tokens, json); break;
-    case IOT_JSON_OBJECT: data = iot_data_map_from_json (tokens, json, ordered, cache); break;
-    case IOT_JSON_ARRAY: data = iot_data_vector_from_json (tokens, json, ordered, cache); break;
-    default: data = iot_data_string_from_json (tokens, json, cache); break;
+    switch ((*tokens)->type)
+    {
+      case IOT_JSON_OBJECT:
+        if (depth < IOT_JSON_MAX_DEPTH) data = iot_data_map_from_json (tokens, end, json, ordered, cache, depth + 1);
+        break;
+      case IOT_JSON_ARRAY:
+        if (depth < IOT_JSON_MAX_DEPTH) data = iot_data_vector_from_json (tokens, end, json, ordered, cache, depth + 1);
+        break;
+      default:
+        if ((*tokens)->size == 0) // Only a key can be followed by a value
+        {
+          data = ((*tokens)->type == IOT_JSON_PRIMITIVE) ? iot_data_primitive_from_json (tokens, json) : iot_data_string_from_json (tokens, json, cache);
+        }
+        break;
+    }
   }
   return data;
 }
@@ -377,10 +410,10 @@ extern iot_data_t * iot_data_from_json_with_cache (const char * json, bool order
 
     iot_json_init (&parser);
     used = iot_json_parse (&parser, json, strlen (json), tptr, count);
-    if (used && (used <= count))
+    if ((used > 0) && ((uint32_t) used <= count))
     {
       iot_data_t * km = cache ? cache : iot_data_alloc_map (IOT_DATA_STRING);
-      data = iot_data_value_from_json (&tptr, json, ordered, km);
+      data = iot_data_value_from_json (&tptr, tokens + parser.toknext, json, ordered, km, 0);
       if (cache == NULL) iot_data_free (km);
     }
     free (tokens);
-- 
2.43.0


From bd387ca4f470e696112682527fb588a3041f20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 19/76] fix: buffer underflow and wrong text for non ASCII JSON
 unicode escapes

---
 src/c/data-json.c | 63 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index ffb909b..220a3b6 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -8,7 +8,6 @@
 #include "iot/base64.h"
 #include "data-impl.h"
 #include <math.h>
-#include <uchar.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
@@ -194,6 +193,45 @@ extern char * iot_data_to_json_with_buffer (const iot_data_t * data, char * buff
   return holder.str;
 }
 
+static uint32_t iot_data_json_hex4 (const char * str)
+{
+  uint32_t code = 0;
+  for (uint32_t i = 0; i < 4; i++)
+  {
+    uint32_t c = (uint8_t) str[i];
+    code = (code << 4) | ((c <= '9') ? c - '0' : (c | 0x20u) - 'a' + 10u);
+  }
+  return code;
+}
+
+// Write Unicode code point as UTF-8 (independent of locale)
+static char * iot_data_utf8_encode (char * dst, uint32_t code)
+{
+  if (code < 0x80u)
+  {
+    *dst++ = (char) code;
+  }
+  else if (code < 0x800u)
+  {
+    *dst++ = (char) (0xc0u | (code >> 6));
+    *dst++ = (char) (0x80u | (code & 0x3fu));
+  }
+  else if (code < 0x10000u)
+  {
+    *dst++ = (char) (0xe0u | (code >> 12));
+    *dst++ = (char) (0x80u | ((code >> 6) & 0x3fu));
+    *dst++ = (char) (0x80u | (code & 0x3fu));
+  }
+  else
+  {
+    *dst++ = (char) (0xf0u | (code >> 18));
+    *dst++ = (char) (0x80u | ((code >> 12) & 0x3fu));
+    *dst++ = (char) (0x80u | ((code >> 6) & 0x3fu));
+    *dst++ = (char) (0x80u | (code & 0x3fu));
+  }
+  return dst;
+}
+
 static char * iot_data_string_from_json_token (const char * json, const iot_json_tok_t * token)
 {
   size_t len = (size_t) (token->end - token->start);
@@ -216,12 +254,23 @@ static char * iot_data_string_from_json_token (const char * json, const iot_json
           case 'u':
             if (src + 4 < json + token->start + len)
             {
-              char32_t wc;
-              mbstate_t ps = { 0 };
-              sscanf (++src, "%4" SCNx32, &wc);
-              size_t charsz = c32rtomb (dst, wc, &ps);
-              if (charsz > 0) dst += charsz;
-              src += 3;
+              uint32_t code = iot_data_json_hex4 (src + 1);
+              src += 4;
+              if (code >= 0xd800u && code <= 0xdfffu) // UTF-16 surrogate
+              {
+                uint32_t low = 0;
+                if (code <= 0xdbffu && src + 6 < json + token->start + len && src[1] == '\\' && src[2] == 'u') low = iot_data_json_hex4 (src + 3);
+                if (low >= 0xdc00u && low <= 0xdfffu)
+                {
+                  code = 0x10000u + ((code - 0xd800u) << 10) + (low - 0xdc00u);
+                  src += 6;
+                }
+                else
+                {
+                  code = 0xfffdu; // Unpaired, use replacement character
+                }
+              }
+              dst = iot_data_utf8_encode (dst, code);
             }
             break;
           default:
-- 
2.43.0


From d192ce543e63daa71201f202c19dc8969d7ab498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 20/76] fix: integers too large for 64 bits saturated when
 decoding JSON

---
 src/c/data-json.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 220a3b6..553f8aa 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -7,6 +7,7 @@
 #include "iot/json.h"
 #include "iot/base64.h"
 #include "data-impl.h"
+#include <errno.h>
 #include <math.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
@@ -323,18 +324,21 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
       {
         ret = iot_data_alloc_f64 (strtod (str, NULL));
       }
-      else if (strchr (str, '-'))
-      {
-        int64_t i64;
-        if (sscanf (str,"%"SCNd64, &i64) == 1) ret = iot_data_alloc_i64 (i64);
-      }
       else
       {
-        uint64_t ui64;
-        if (sscanf (str,"%"SCNu64, &ui64) == 1)
+        char * end;
+        errno = 0;
+        if (strchr (str, '-'))
+        {
+          int64_t i64 = strtoll (str, &end, 10);
+          if (end != str && errno == 0) ret = iot_data_alloc_i64 (i64);
+        }
+        else
         {
-          ret = (ui64 <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) ui64) : iot_data_alloc_ui64 (ui64);
+          uint64_t ui64 = strtoull (str, &end, 10);
+          if (end != str && errno == 0) ret = (ui64 <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) ui64) : iot_data_alloc_ui64 (ui64);
         }
+        if (errno == ERANGE) ret = iot_data_alloc_f64 (strtod (str, NULL)); // Too large for a 64 bit integer
       }
       break;
     }
-- 
2.43.0


From 88054bf42bf8b3fdf80dca41d48c13aa01d81ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 21/76] fix: duplicate members in JSON ordering encoded more
 than once

---
 src/c/data-json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 553f8aa..a5bcdf4 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -372,9 +372,10 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const iot_
       iot_data_free (map);
       return NULL;
     }
-    if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
+    if (ordered && iot_data_map_get (map, key) == NULL) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
     iot_data_map_add (map, key, value);
   }
+  if (ordered && i < iot_data_vector_size (ordering)) iot_data_vector_resize (ordering, i); // Had duplicate keys
   if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
 }
-- 
2.43.0


From 8c70bb09121ac688791fb67f3304786f7c5f736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 22/76] fix: unmatched JSON closing bracket accepted after a
 colon

---
 src/c/json.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/c/json.c b/src/c/json.c
index 18ded8c..aed0e35 100644
--- a/src/c/json.c
+++ b/src/c/json.c
@@ -228,13 +228,9 @@ int iot_json_parse (iot_json_parser *parser, const char * json, size_t len, iot_
             parser->toksuper = token->parent;
             break;
           }
-          if (token->parent == -1)
+          if (token->parent == -1) // No open object or array
           {
-            if (token->type != type || parser->toksuper == -1)
-            {
-              return IOT_JSON_ERROR_INVAL;
-            }
-            break;
+            return IOT_JSON_ERROR_INVAL;
           }
           token = &tokens[token->parent];
         }
-- 
2.43.0


From 011005a2ba35d1fad903c64d1095782495648a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 23/76] fix: JSON encoding reallocates a sufficiently large
 stack buffer

---
 src/c/data-json.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index a5bcdf4..fcf4696 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -50,11 +50,7 @@ static void iot_data_base64_encode (iot_string_holder_t * holder, const iot_data
 
 static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * ptr, const iot_data_type_t type)
 {
-  if (holder->free < IOT_VAL_BUFF_SIZE)
-  {
-    iot_data_holder_realloc (holder, IOT_VAL_BUFF_SIZE);
-  }
-  char * buff = holder->str + holder->size - holder->free - 1;
+  char buff[IOT_VAL_BUFF_SIZE];
   switch (type)
   {
     case IOT_DATA_INT8: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRId8 , *(const int8_t *) ptr); break;
@@ -72,7 +68,7 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
     case IOT_DATA_NULL: strncpy (buff, "null", IOT_VAL_BUFF_SIZE); break;
     default: strncpy (buff, (*(const bool*) ptr) ? "true" : "false", IOT_VAL_BUFF_SIZE); break;
   }
-  holder->free -= strlen (buff);
+  iot_data_strcat_escape (holder, buff, false);
 }
 
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
-- 
2.43.0


From b46cc785063cf583c4b12d8347a6c9c542a8385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 24/76] fix: crash encoding vector with unset elements to JSON

---
 src/c/data-json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index fcf4696..f5959a8 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -73,6 +73,11 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
 
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Unset vector element
+  {
+    iot_data_strcat_escape (holder, "null", false);
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_STRING:
-- 
2.43.0


From 2a80c916b4e612c612cb0784b969277122442663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 25/76] fix: invalid JSON for maps with binary or composed keys

---
 src/c/data-json.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index f5959a8..eae8489 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -130,9 +130,18 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
         if (value)
         {
           if (! first) iot_data_strcat (holder, ",");
-          if (iot_data_type (key) != IOT_DATA_STRING) iot_data_add_quote (holder);
-          iot_data_dump_json (holder, key);
-          if (iot_data_type (key) != IOT_DATA_STRING) iot_data_add_quote (holder);
+          if (iot_data_type (key) == IOT_DATA_STRING || iot_data_type (key) == IOT_DATA_BINARY)
+          {
+            iot_data_dump_json (holder, key);
+          }
+          else
+          {
+            char * str = iot_data_to_json (key);
+            iot_data_add_quote (holder);
+            iot_data_strcat (holder, str);
+            iot_data_add_quote (holder);
+            free (str);
+          }
           iot_data_strcat (holder, ":");
           iot_data_dump_json (holder, value);
           first = false;
-- 
2.43.0


From 731d296688ebeee50ee78851f5e13d9466b52454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 26/76] fix: malformed JSON numbers and literals, which may
 contain brackets, accepted

---
 src/c/data-json.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index eae8489..fd85608 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -324,33 +324,35 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
   iot_data_t * ret = NULL;
   char * str = iot_data_string_from_json_token (json, *tokens);
   (*tokens)++;
-  switch (str[0])
+  if (strcmp (str, "true") == 0 || strcmp (str, "false") == 0)
   {
-    case 't': case 'f': ret = iot_data_alloc_bool (str[0] == 't'); break; // true/false
-    case 'n': ret = iot_data_alloc_null (); break; // null
-    default: // Handle all floating point numbers as doubles, all integers as int64_t unless to big in which case as uint64_t
+    ret = iot_data_alloc_bool (str[0] == 't');
+  }
+  else if (strcmp (str, "null") == 0)
+  {
+    ret = iot_data_alloc_null ();
+  }
+  else if (str[strspn (str, "+-.0123456789eE")] == '\0') // Handle all floating point numbers as doubles, all integers as int64_t unless to big in which case as uint64_t
+  {
+    char * end = str;
+    errno = 0;
+    if (strpbrk (str, ".eE") == NULL)
     {
-      if (strchr (str, '.') || strchr (str, 'e') || strchr (str, 'E'))
+      if (strchr (str, '-'))
       {
-        ret = iot_data_alloc_f64 (strtod (str, NULL));
+        int64_t i64 = strtoll (str, &end, 10);
+        if (end != str && *end == '\0' && errno == 0) ret = iot_data_alloc_i64 (i64);
       }
       else
       {
-        char * end;
-        errno = 0;
-        if (strchr (str, '-'))
-        {
-          int64_t i64 = strtoll (str, &end, 10);
-          if (end != str && errno == 0) ret = iot_data_alloc_i64 (i64);
-        }
-        else
-        {
-          uint64_t ui64 = strtoull (str, &end, 10);
-          if (end != str && errno == 0) ret = (ui64 <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) ui64) : iot_data_alloc_ui64 (ui64);
-        }
-        if (errno == ERANGE) ret = iot_data_alloc_f64 (strtod (str, NULL)); // Too large for a 64 bit integer
+        uint64_t ui64 = strtoull (str, &end, 10);
+        if (end != str && *end == '\0' && errno == 0) ret = (ui64 <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) ui64) : iot_data_alloc_ui64 (ui64);
       }
-      break;
+    }
+    if (ret == NULL) // Floating point or integer too large for 64 bits
+    {
+      double f64 = strtod (str, &end);
+      if (end != str && *end == '\0') ret = iot_data_alloc_f64 (f64);
     }
   }
   free (str);
-- 
2.43.0


From 78a1daf5493d82c55722f05ef32400930de7ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 27/76] fix: unaligned stores and signed overflow in CBOR
 encoding

---
 src/c/data-cbor.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 609f549..9652700 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -54,28 +54,31 @@ static void iot_data_cbor_write_uint (iot_cbor_holder_t * holder, uint64_t value
   {
     iot_cbor_holder_check_size (holder, 3);
     holder->data[holder->index++] = 0x19 + tag;
-    *(uint16_t *)(holder->data + holder->index) = htobe16 (value);
+    const uint16_t be = htobe16 ((uint16_t) value); // Output may not be aligned
+    memcpy (holder->data + holder->index, &be, sizeof (be));
     holder->index += 2;
   }
   else if (value <= UINT32_MAX)
   {
     iot_cbor_holder_check_size (holder, 5);
     holder->data[holder->index++] = 0x1a + tag;
-    *(uint32_t *)(holder->data + holder->index) = htobe32 (value);
+    const uint32_t be = htobe32 ((uint32_t) value); // Output may not be aligned
+    memcpy (holder->data + holder->index, &be, sizeof (be));
     holder->index += 4;
   }
   else
   {
     iot_cbor_holder_check_size (holder, 9);
     holder->data[holder->index++] = 0x1b + tag;
-    *(uint64_t *)(holder->data + holder->index) = htobe64 (value);
+    const uint64_t be = htobe64 ((uint64_t) value); // Output may not be aligned
+    memcpy (holder->data + holder->index, &be, sizeof (be));
     holder->index += 8;
   }
 }
 
 static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
 {
-  iot_data_cbor_write_uint (holder, value < 0 ? -value : value, value < 0 ? 0x20 : 0);
+  iot_data_cbor_write_uint (holder, value < 0 ? 0u - (uint64_t) value : (uint64_t) value, value < 0 ? 0x20 : 0);
 }
 
 static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr, const iot_data_type_t type)
-- 
2.43.0


From aefebf39e3d596e03193732602d5f07792a1c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 28/76] fix: zero and denormal floats wrongly encoded in CBOR

---
 src/c/data-cbor.c | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 9652700..c7c12c0 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -76,6 +76,29 @@ static void iot_data_cbor_write_uint (iot_cbor_holder_t * holder, uint64_t value
   }
 }
 
+// Floats are always written with full width (major type 7)
+static void iot_data_cbor_write_f32 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint32_t bits;
+  memcpy (&bits, ptr, sizeof (bits));
+  bits = htobe32 (bits);
+  iot_cbor_holder_check_size (holder, 5);
+  holder->data[holder->index++] = 0xfa;
+  memcpy (holder->data + holder->index, &bits, sizeof (bits));
+  holder->index += 4;
+}
+
+static void iot_data_cbor_write_f64 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint64_t bits;
+  memcpy (&bits, ptr, sizeof (bits));
+  bits = htobe64 (bits);
+  iot_cbor_holder_check_size (holder, 9);
+  holder->data[holder->index++] = 0xfb;
+  memcpy (holder->data + holder->index, &bits, sizeof (bits));
+  holder->index += 8;
+}
+
 static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
 {
   iot_data_cbor_write_uint (holder, value < 0 ? 0u - (uint64_t) value : (uint64_t) value, value < 0 ? 0x20 : 0);
@@ -93,8 +116,8 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
     case IOT_DATA_UINT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0); break;
     case IOT_DATA_INT64: iot_data_cbor_write_int (holder, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0); break;
-    case IOT_DATA_FLOAT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0xe0); break;
-    case IOT_DATA_FLOAT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0xe0); break;
+    case IOT_DATA_FLOAT32: iot_data_cbor_write_f32 (holder, ptr); break;
+    case IOT_DATA_FLOAT64: iot_data_cbor_write_f64 (holder, ptr); break;
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1); holder->data[holder->index++] = 0xf6; break;
     default:
@@ -131,21 +154,11 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_data_cbor_write_int (holder, iot_data_i64 (data));
       break;
     case IOT_DATA_FLOAT32:
-    {
-      uint32_t v;
-      float f = iot_data_f32 (data);
-      memcpy (&v, &f, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f32 (holder, iot_data_address (data));
       break;
-    }
     case IOT_DATA_FLOAT64:
-    {
-      uint64_t v;
-      double d = iot_data_f64 (data);
-      memcpy (&v, &d, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f64 (holder, iot_data_address (data));
       break;
-    }
     case IOT_DATA_BOOL:
       iot_cbor_holder_check_size (holder, 1);
       holder->data[holder->index++] = iot_data_bool (data) ? 0xf5 : 0xf4;
-- 
2.43.0


From 55fe58e3f15e9cf6ae1f9f6ed4a7479d782df129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 29/76] fix: crash encoding vector with unset elements to CBOR

---
 src/c/data-cbor.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index c7c12c0..81c93ea 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -127,6 +127,12 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
 
 static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Unset vector element
+  {
+    iot_cbor_holder_check_size (holder, 1);
+    holder->data[holder->index++] = 0xf6;
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_UINT8:
-- 
2.43.0


From b8ec20ed6dd53086f16c8a58567a72d7aff23ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 30/76] fix: ignore JSON object members without a key

---
 src/c/data-json.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index fd85608..d1b83a2 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -371,6 +371,12 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const iot_
   {
     iot_data_t * value = NULL;
     iot_data_t * key = NULL;
+    if (*tokens < end && ((*tokens)->type == IOT_JSON_OBJECT || (*tokens)->type == IOT_JSON_ARRAY)) // Member without key ignored
+    {
+      const int32_t stop = (*tokens)->end;
+      while (*tokens < end && (*tokens)->start < stop) (*tokens)++;
+      continue;
+    }
     // A key must be a string (or unquoted primitive) with exactly one value
     if (*tokens < end && (*tokens)->type >= IOT_JSON_STRING && (*tokens)->size == 1)
     {
-- 
2.43.0


From 8691253f31edc72493570681a3022d35f95cadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 31/76] fix: truncated XML and content after the root element
 accepted

---
 src/c/data-xml.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 37b7a1e..deb3ac9 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -100,6 +100,11 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
       default: break;
     }
   }
+  if (more) // Document truncated
+  {
+    iot_data_free (elem);
+    elem = NULL;
+  }
   return elem;
 }
 
@@ -113,6 +118,19 @@ iot_data_t * iot_data_from_xml (const char * xml)
   holder.free = YXML_BUFF_SIZE - 1; // Allowing for string terminator
   yxml_init (x, x+1, YXML_PARSER_BUFF_SIZE);
   result = iot_data_map_from_xml (true, x, &holder, &xml);
+  while (result && *xml) // Only comments, processing instructions and white space can follow the root element
+  {
+    if (yxml_parse (x, *xml++) < 0)
+    {
+      iot_data_free (result);
+      result = NULL;
+    }
+  }
+  if (result && (yxml_eof (x) != YXML_OK))
+  {
+    iot_data_free (result);
+    result = NULL;
+  }
   free (x);
   free (holder.str);
   return result;
-- 
2.43.0


From f5d68e40036deaf378912ba81e2883de66f7eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 32/76] fix: integers too large for 64 bits saturated when
 decoding YAML

---
 src/c/data-yaml.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index b6d4c4d..28a11f8 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -6,6 +6,7 @@
 #include "iot/data.h"
 #include "data-impl.h"
 #include <math.h>
+#include <errno.h>
 #include <yaml.h>
 
 static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
@@ -36,18 +37,19 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
     else if (*val)
     {
       char *e;
+      errno = 0;
       if (*val == '-')
       {
         long long ll = strtoll (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
           ret = iot_data_alloc_i64 (ll);
         }
       }
-      if (ret == NULL)
+      else
       {
         unsigned long long ull = strtoull (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
           ret = ull < INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
         }
-- 
2.43.0


From 67f3e85f6b352e8880cc3b38f21ad082095ffd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 33/76] fix: YAML aliases silently dropped, corrupting the
 enclosing map

---
 src/c/data-yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index 28a11f8..f8496eb 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -100,6 +100,9 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
       case YAML_SEQUENCE_END_EVENT:
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        *exception = iot_data_alloc_string_fmt ("Unsupported alias at line %zu", parser->mark.line);
+        break;
       default:
         break;
     }
@@ -156,6 +159,9 @@ static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **
       case YAML_MAPPING_END_EVENT:
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        *exception = iot_data_alloc_string_fmt ("Unsupported alias at line %zu", parser->mark.line);
+        break;
       default:
         break;
     }
-- 
2.43.0


From da73358a4ff771545f440bea38218c6ecb4e75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 34/76] fix: malformed YAML after the root node accepted

---
 src/c/data-yaml.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index f8496eb..ec3885b 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -205,6 +205,7 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
   yaml_parser_set_input_string (&parser, (const yaml_char_t *)yaml, strlen (yaml));
   do
   {
+    iot_data_t * elem = NULL;
     if (!yaml_parser_parse (&parser, &event))
     {
       *exception = iot_data_alloc_string_fmt ("%s at line %zu", parser.problem, parser.problem_mark.line);
@@ -213,16 +214,16 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
     switch (event.type)
     {
       case YAML_SCALAR_EVENT:
-        result = iot_data_value_from_yaml (&event);
-        done = true;
+        elem = iot_data_value_from_yaml (&event);
         break;
       case YAML_MAPPING_START_EVENT:
-        result = iot_data_map_from_yaml (&parser, exception);
-        done = true;
+        elem = iot_data_map_from_yaml (&parser, exception);
         break;
       case YAML_SEQUENCE_START_EVENT:
-        result = iot_data_vector_from_yaml (&parser, exception);
-        done = true;
+        elem = iot_data_vector_from_yaml (&parser, exception);
+        break;
+      case YAML_ALIAS_EVENT:
+        *exception = iot_data_alloc_string_fmt ("Unsupported alias at line %zu", parser.mark.line);
         break;
       case YAML_STREAM_END_EVENT:
         done = true;
@@ -231,8 +232,21 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
         break;
     }
     yaml_event_delete (&event);
-  } while (!done);
+    if (result)
+    {
+      iot_data_free (elem); // Only the first document is returned, although all must be well formed
+    }
+    else
+    {
+      result = elem;
+    }
+  } while (!done && *exception == NULL);
 
+  if (*exception)
+  {
+    iot_data_free (result);
+    result = NULL;
+  }
   yaml_parser_delete (&parser);
   return result;
 }
-- 
2.43.0


From 408f020c266132779c5cf3dce4ae52aac2cf17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 35/76] fix: stack overflow decoding deeply nested YAML

---
 src/c/data-yaml.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index ec3885b..2056ee2 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -9,7 +9,9 @@
 #include <errno.h>
 #include <yaml.h>
 
-static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
+#define IOT_YAML_MAX_DEPTH 512u
+
+static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception, uint32_t depth);
 
 static iot_data_t * iot_data_string_from_yaml (const yaml_event_t *event)
 {
@@ -71,13 +73,19 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
   return ret;
 }
 
-static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t **exception)
+static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t **exception, uint32_t depth)
 {
   yaml_event_t event;
   bool done = false;
   uint32_t size = 0;
   iot_data_t *elem;
-  iot_data_t * vec = iot_data_alloc_vector (size);
+  iot_data_t * vec;
+  if (depth > IOT_YAML_MAX_DEPTH)
+  {
+    *exception = iot_data_alloc_string_fmt ("Nesting too deep at line %zu", parser->mark.line);
+    return NULL;
+  }
+  vec = iot_data_alloc_vector (size);
   do
   {
     elem = NULL;
@@ -92,10 +100,10 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
         elem = iot_data_value_from_yaml (&event);
         break;
       case YAML_MAPPING_START_EVENT:
-        elem = iot_data_map_from_yaml (parser, exception);
+        elem = iot_data_map_from_yaml (parser, exception, depth + 1u);
         break;
       case YAML_SEQUENCE_START_EVENT:
-        elem = iot_data_vector_from_yaml (parser, exception);
+        elem = iot_data_vector_from_yaml (parser, exception, depth + 1u);
         break;
       case YAML_SEQUENCE_END_EVENT:
         done = true;
@@ -124,13 +132,19 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
   }
 }
 
-static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception)
+static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception, uint32_t depth)
 {
   yaml_event_t event;
   bool done = false;
   iot_data_t * name = NULL;
   iot_data_t * elem = NULL;
-  iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING);
+  iot_data_t * map;
+  if (depth > IOT_YAML_MAX_DEPTH)
+  {
+    *exception = iot_data_alloc_string_fmt ("Nesting too deep at line %zu", parser->mark.line);
+    return NULL;
+  }
+  map = iot_data_alloc_map (IOT_DATA_STRING);
   do
   {
     if (!yaml_parser_parse (parser, &event))
@@ -151,10 +165,10 @@ static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **
         }
         break;
       case YAML_MAPPING_START_EVENT:
-        elem = iot_data_map_from_yaml (parser, exception);
+        elem = iot_data_map_from_yaml (parser, exception, depth + 1u);
         break;
       case YAML_SEQUENCE_START_EVENT:
-        elem = iot_data_vector_from_yaml (parser, exception);
+        elem = iot_data_vector_from_yaml (parser, exception, depth + 1u);
         break;
       case YAML_MAPPING_END_EVENT:
         done = true;
@@ -217,10 +231,10 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
         elem = iot_data_value_from_yaml (&event);
         break;
       case YAML_MAPPING_START_EVENT:
-        elem = iot_data_map_from_yaml (&parser, exception);
+        elem = iot_data_map_from_yaml (&parser, exception, 1u);
         break;
       case YAML_SEQUENCE_START_EVENT:
-        elem = iot_data_vector_from_yaml (&parser, exception);
+        elem = iot_data_vector_from_yaml (&parser, exception, 1u);
         break;
       case YAML_ALIAS_EVENT:
         *exception = iot_data_alloc_string_fmt ("Unsupported alias at line %zu", parser.mark.line);
-- 
2.43.0


From 1c6bf20f4ae26426caf64bf8b74f2d998cb51d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 36/76] fix: XML root end tag with white space refused or
 accepted when truncated

---
 src/c/yxml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 7007a5f..2579db5 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -642,7 +642,7 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 			return yxml_elemclose(x, ch);
 		if(yxml_isSP(ch)) {
 			x->state = YXMLS_etag2;
-			return yxml_elemcloseend(x);
+			return YXML_OK;
 		}
 		if(ch == (unsigned char)'>') {
 			x->state = YXMLS_misc2;
@@ -654,7 +654,7 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 			return YXML_OK;
 		if(ch == (unsigned char)'>') {
 			x->state = YXMLS_misc2;
-			return YXML_OK;
+			return yxml_elemcloseend(x);
 		}
 		break;
 	case YXMLS_init:
-- 
2.43.0


From 3a51a38a54a77d8c49a02a6ef0b11b584024ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 37/76] fix: XML references to surrogates accepted and to
 private use characters refused

---
 src/c/yxml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 2579db5..9b9bcdb 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -316,7 +316,7 @@ static yxml_ret_t yxml_refend(yxml_t *x, yxml_ret_t ret) {
 	}
 
 	/* Codepoints not allowed in the XML 1.1 definition of a Char */
-	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xDFFF) < 0x7FF)
+	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xD800) < 0x800)
 		return YXML_EREF;
 	yxml_setutf8(x->data, ch);
 	return ret;
-- 
2.43.0


From 29bc74e6d672f1d31b2764bb3e4b63ccdb97553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 38/76] fix: XML references to characters in planes above 15
 refused

---
 src/c/yxml.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/yxml.h b/src/c/yxml.h
index 9992bc3..96fbd2b 100644
--- a/src/c/yxml.h
+++ b/src/c/yxml.h
@@ -93,7 +93,7 @@ typedef struct {
 	 * - "&#N;" and "&#xN;", where dec(n) > 127. The referenced Unicode
 	 *   character is then encoded in multiple UTF-8 bytes.
 	 */
-	char data[8];
+	char data[9];
 
 	/* Name of the current attribute. Changed after YXML_ATTRSTART, valid up to
 	 * and including the next YXML_ATTREND. */
-- 
2.43.0


From 3cbf14ce0ff4ef20efc7ed72be645dbb3376fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 39/76] fix: end of XML processing instruction not found after
 a question mark

---
 src/c/yxml.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 9b9bcdb..8b42aef 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -846,6 +846,8 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 			x->state = x->nextstate;
 			return yxml_pivalend(x);
 		}
+		if(ch == (unsigned char)'?')
+			return yxml_datapi1(x, ch);
 		if(yxml_isChar(ch)) {
 			x->state = YXMLS_pi2;
 			return yxml_datapi2(x, ch);
-- 
2.43.0


From 73a2aed877db0ba7f2f0d02e54d3de6c50446fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 40/76] fix: base64 with characters after the padding or an
 incomplete final byte accepted

---
 src/c/base64.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/base64.c b/src/c/base64.c
index 2d6d18a..9334652 100644
--- a/src/c/base64.c
+++ b/src/c/base64.c
@@ -78,6 +78,12 @@ bool iot_b64_decode (const char *in, void *outv, size_t *outLen)
       iter = 0;
     }
   }
+  while (*in) // Only padding or whitespace can follow the end of data
+  {
+    unsigned char c = dec[(unsigned char) (*in++)];
+    if (c != EQUALS && c != WHITESPACE) return false;
+  }
+  if (iter == 1) return false; // a single symbol cannot encode a byte
   if (iter == 3)
   {
     if ((len += 2) > *outLen) { return false; } // buffer overflow
-- 
2.43.0


From dcbb705241fac839b307761c664536953a3b48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 41/76] fix: UDP logger reads beyond buffer and lines run
 together when log message truncated

---
 src/c/logger.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..b667803 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -156,7 +156,14 @@ static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_logl
 #ifdef IOT_HAS_PRCTL
   prctl (PR_GET_NAME, tname);
 #endif
-  return (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  int len = snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  if (len < 0) return 0u;
+  if ((size_t) len >= sizeof (logger->buff)) // Truncated, so restore line end
+  {
+    len = (int) sizeof (logger->buff) - 1;
+    logger->buff[len - 1] = '\n';
+  }
+  return (size_t) len;
 }
 
 static inline void iot_logger_log_to_fd (iot_logger_impl_t * logger, FILE * fd, iot_loglevel_t level, uint64_t timestamp, const char *message)
-- 
2.43.0


From a9b6e61ca8e89133ede0005a681a0d8afad004a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 42/76] fix: logger level lost when stopped twice or started
 when running, and stopped logger enabled by setting level

---
 src/c/logger.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index b667803..5d48073 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -91,7 +91,8 @@ void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...)
 void iot_logger_set_level (iot_logger_t * logger, iot_loglevel_t level)
 {
   assert (logger);
-  logger->level = level;
+  ((iot_logger_impl_t*) logger)->save = level;
+  if (logger->component.state != IOT_COMPONENT_STOPPED) logger->level = level; // Otherwise set when restarted
 }
 
 iot_logger_t * iot_logger_alloc_custom (const char * name, iot_loglevel_t level, bool start, iot_logger_t * next, iot_log_function_t impl, void * ctx, iot_log_free_fn_t freectx)
@@ -144,9 +145,7 @@ void iot_logger_start (iot_logger_t * logger)
 void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
-  iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
   iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
   logger->level = IOT_LOG_NONE;
 }
 
@@ -339,7 +338,7 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
 static bool iot_logger_reconfig (iot_component_t * comp, iot_container_t * cont, const iot_data_t * map)
 {
   (void) cont;
-  ((iot_logger_t*) comp)->level = iot_logger_config_level (map);
+  iot_logger_set_level ((iot_logger_t*) comp, iot_logger_config_level (map));
   return true;
 }
 
-- 
2.43.0


From e2e80657dc0382541ecf08d834ec87d6c07258e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 43/76] fix: iot_logger_set_next frees the logger being set
 when already next

---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5d48073..d53da8a 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -282,9 +282,10 @@ const char * iot_logger_level_to_string (iot_loglevel_t level)
 void iot_logger_set_next (iot_logger_t * logger, iot_logger_t * next)
 {
   iot_logger_impl_t * logimpl = (iot_logger_impl_t*) logger;
-  iot_logger_free ((iot_logger_t*) logimpl->next);
+  iot_logger_t * last = (iot_logger_t*) logimpl->next;
   iot_logger_add_ref (next);
   logimpl->next = (iot_logger_impl_t*) next;
+  iot_logger_free (last);
 }
 
 #ifdef IOT_BUILD_COMPONENTS
-- 
2.43.0


From cff8a73663794a24b3d9b769d5db9c261da64ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 44/76] fix: stack overflow for long host in UDP logger
 configuration

---
 src/c/logger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index d53da8a..a8659cc 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -321,7 +321,9 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        size_t len = (size_t) (sep - to);
+        if (len >= sizeof (target)) len = sizeof (target) - 1;
+        memcpy (target, to, len);
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From 383be566adafc65ef1834834f6f4f0c460b96a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 45/76] fix: race on first use of default logger

---
 src/c/logger.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index a8659cc..f2b3ce3 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -53,18 +53,18 @@ static iot_logger_impl_t iot_logger_dfl;
 
 static void iot_log_console (iot_logger_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message, const void *ctx);
 
+static void iot_logger_default_init (void)
+{
+  iot_component_init (&iot_logger_dfl.base.component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
+  iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
+  iot_logger_dfl.impl = iot_log_console;
+}
+
 iot_logger_t * iot_logger_default (void)
 {
-  static iot_logger_t * logger = NULL;
-  if (logger == NULL)
-  {
-    logger = &iot_logger_dfl.base;
-    memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
-    iot_component_init (&logger->component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
-    iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
-    iot_logger_dfl.impl = iot_log_console;
-  }
-  return logger;
+  static pthread_once_t once = PTHREAD_ONCE_INIT;
+  pthread_once (&once, iot_logger_default_init);
+  return &iot_logger_dfl.base;
 }
 
 void iot_log__va_log (iot_logger_t * l, iot_loglevel_t level, const char* fmt, va_list args)
-- 
2.43.0


From d073e89d7eb21e6e4edc0213672cedbf11856a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 46/76] fix: missing configuration values not logged without a
 logger

---
 src/c/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/config.c b/src/c/config.c
index 78df114..63d19e5 100644
--- a/src/c/config.c
+++ b/src/c/config.c
@@ -34,6 +34,7 @@ static bool iot_config_cast (const iot_data_t * map, const char * key, void * va
   bool ret = (data && iot_data_cast (data, type, val));
   if (! ret)
   {
+    if (logger == NULL) logger = iot_logger_default ();
     iot_log_error (logger, "Failed to resolve %s configuration value for: %s", iot_data_type_string (type), key);
   }
   return ret;
-- 
2.43.0


From 2bd564433b28fdaf5a4a98ee8a7da27eb439d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 47/76] fix: crash listing components by category when a
 component has no category

---
 src/c/container.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..a8cfe0b 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -452,7 +452,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   while (iot_data_list_iter_next (&iter))
   {
     const iot_component_t * comp = iot_data_list_iter_pointer_value (&iter);
-    if ((category == NULL) || (strcmp (category, comp->factory->category) == 0)) // Filter on category if set
+    if ((category == NULL) || (comp->factory->category && strcmp (category, comp->factory->category) == 0)) // Filter on category if set
     {
       iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
     }
-- 
2.43.0


From 1c9fb2c353369f8d37118b5b1c231876fde8dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 48/76] fix: crash reconfiguring a component when no container
 configuration set

---
 src/c/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/component.c b/src/c/component.c
index 01cad95..5d43d17 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -53,7 +53,7 @@ bool iot_component_reconfig (iot_component_t * component, iot_container_t * cont
   {
     const iot_container_config_t * config = iot_container_get_config ();
     iot_data_map_merge (component->config, map);
-    if (config->save)
+    if (config && config->save)
     {
       char * json = iot_data_to_json (component->config);
       (config->save) (component->name, config->uri, json);
-- 
2.43.0


From 5d30de36abf53032a1d92a125fc158e1da76751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 49/76] fix: crash initialising container when a component type
 is not a string

---
 src/c/container.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index a8cfe0b..0ae16f9 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -270,6 +270,7 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
+      if (ctype == NULL) continue;
       config = (iot_config->load) (cname, iot_config->uri);
 
       if ((iot_component_factory_find (ctype) == NULL) && config)
@@ -284,7 +285,14 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
-      iot_container_typed_load (cont, cname, ctype);
+      if (ctype)
+      {
+        iot_container_typed_load (cont, cname, ctype);
+      }
+      else
+      {
+        iot_log_error (cont->logger, "Invalid configuration, type of component %s is not a string", cname);
+      }
     }
     iot_data_free (map);
   }
-- 
2.43.0


From 9b75d28e9dabba4aa841d558fb81fe97028677d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 50/76] fix: components in a configuration cycle created twice

---
 src/c/container.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 0ae16f9..92f1323 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -30,13 +30,14 @@ struct iot_container_t
 
 typedef struct iot_load_in_progress_t
 {
+  const iot_container_t * cont;
   const char * name;
   struct iot_load_in_progress_t * next;
 } iot_load_in_progress_t;
 
 static const iot_component_factory_t * iot_component_factories = NULL;
 static const iot_container_config_t * iot_config = NULL;
-static iot_load_in_progress_t * iot_load_in_progress = NULL;
+static _Thread_local iot_load_in_progress_t * iot_load_in_progress = NULL; // Components being created by this thread
 
 #ifdef __ZEPHYR__
   static PTHREAD_MUTEX_DEFINE (iot_container_mutex);
@@ -81,7 +82,10 @@ static void iot_component_create (iot_container_t * cont, const char *cname, con
   iot_data_t * map = iot_component_config_to_map (config, cont->logger);
 
   if (map == NULL) goto ERROR;
+  iot_load_in_progress_t this = { cont, cname, iot_load_in_progress };
+  iot_load_in_progress = &this;
   comp = (factory->config_fn) (cont, map);
+  iot_load_in_progress = this.next;
   if (comp == NULL)
   {
     iot_data_free (map);
@@ -193,19 +197,17 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
 
   if (! result)
   {
-    iot_load_in_progress_t this = {cname, iot_load_in_progress};
-    iot_load_in_progress_t *loading = iot_load_in_progress;
+    const iot_load_in_progress_t * loading = iot_load_in_progress;
     assert (iot_config && cont);
 
     // Check for cycles
     while (loading)
     {
-      if (strcmp (loading->name, cname) == 0) break;
+      if (loading->cont == cont && strcmp (loading->name, cname) == 0) break;
       loading = loading->next;
     }
     if (!loading)
     {
-      iot_load_in_progress = &this;
       char * config = (iot_config->load) (cont->name, iot_config->uri);
       iot_data_t * map = iot_component_config_to_map (config, cont->logger);
       free (config);
@@ -216,7 +218,6 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
         if (ctype) result = iot_container_typed_load (cont, cname, ctype);
       }
       iot_data_free (map);
-      iot_load_in_progress = this.next;
     }
     else
     {
-- 
2.43.0


From a9438e99fa6f8bb93ad2f042e648d1378e3141e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 51/76] fix: crash configuring a logger without a name

---
 src/c/logger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index f2b3ce3..d413bcf 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -6,6 +6,7 @@
 #include "iot/data.h"
 #include "iot/logger.h"
 #include "iot/container.h"
+#include "iot/config.h"
 #include "iot/time.h"
 #include <stdarg.h>
 #include <sys/socket.h>
@@ -298,10 +299,11 @@ static iot_loglevel_t iot_logger_config_level (const iot_data_t * map)
 static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_data_t * map)
 {
   iot_logger_t *result;
+  const char * name = iot_config_string (map, "Name", false, NULL);
+  if (name == NULL) return NULL;
   iot_loglevel_t level = iot_logger_config_level (map);
   iot_logger_t * next = (iot_logger_t*) iot_container_find_component (cont, iot_data_string_map_get_string (map, "Next"));
   bool start = iot_data_string_map_get_bool (map, "Start", true);
-  const char * name = iot_data_string_map_get_string (map, "Name");
   const char * to = iot_data_string_map_get_string (map, "To");
 
 #if defined (IOT_HAS_FILE) && !defined (_AZURESPHERE_)
-- 
2.43.0


From 61f212395b5151ed4bd93093d0ccf1b396eb3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 52/76] fix: scheduler freed while its thread is still running

---
 src/c/scheduler.c | 66 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..88c333b 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -49,6 +49,9 @@ struct iot_scheduler_t
   iot_data_t * idle;              /* Map of idle schedules, keyed by unique schedule id */
   iot_logger_t * logger;          /* Optional logger */
   struct timespec schd_time;      /* Time for next schedule */
+  pthread_t thread;               /* Scheduler thread id */
+  bool active;                    /* Whether scheduler thread is using the scheduler */
+  bool self_delete;               /* Whether deleted from the scheduler thread */
 };
 
 static inline void iot_schedule_add_ref (iot_schedule_t * schedule)
@@ -150,6 +153,30 @@ static void * schedule_fn (void * data)
   return ret;
 }
 
+static void iot_scheduler_free_schedules (iot_data_t * map)
+{
+  iot_data_map_iter_t iter;
+  iot_data_map_iter (map, &iter);
+  while (iot_data_map_iter_next (&iter))
+  {
+    const iot_data_t * key = iot_data_map_iter_key (&iter);
+    iot_schedule_t * schedule = (iot_schedule_t*) iot_data_map_iter_pointer_value (&iter);
+    iot_data_map_remove (map, key);
+    iot_schedule_free (schedule);
+    iot_data_map_iter (map, &iter);
+  }
+  iot_data_free (map);
+}
+
+static void iot_scheduler_final_free (iot_scheduler_t * scheduler)
+{
+  iot_scheduler_free_schedules (scheduler->queue);
+  iot_scheduler_free_schedules (scheduler->idle);
+  iot_logger_free (scheduler->logger);
+  iot_component_fini (&scheduler->component);
+  free (scheduler);
+}
+
 /* Scheduler thread function */
 static void * iot_scheduler_thread (void * arg)
 {
@@ -256,7 +283,11 @@ static void * iot_scheduler_thread (void * arg)
     nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
+  bool self_delete = scheduler->self_delete;
+  scheduler->active = false;
+  pthread_cond_broadcast (&scheduler->component.cond);
   iot_component_unlock (&scheduler->component);
+  if (self_delete) iot_scheduler_final_free (scheduler);
   return NULL;
 }
 
@@ -269,7 +300,9 @@ iot_scheduler_t * iot_scheduler_alloc (int priority, int affinity, iot_logger_t
   scheduler->queue = iot_data_alloc_map (IOT_DATA_UINT64);
   iot_logger_add_ref (logger);
   iot_log_info (logger, "iot_scheduler_alloc (priority: %d affinity: %d)", priority, affinity);
-  iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  iot_component_lock (&scheduler->component);
+  scheduler->active = iot_thread_create (&scheduler->thread, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  iot_component_unlock (&scheduler->component);
   return scheduler;
 }
 
@@ -419,35 +452,22 @@ extern uint64_t iot_schedule_id (const iot_schedule_t * schedule)
   return schedule->id;
 }
 
-static void iot_scheduler_free_schedules (iot_data_t * map)
-{
-  iot_data_map_iter_t iter;
-  iot_data_map_iter (map, &iter);
-  while (iot_data_map_iter_next (&iter))
-  {
-    const iot_data_t * key = iot_data_map_iter_key (&iter);
-    iot_schedule_t * schedule = (iot_schedule_t*) iot_data_map_iter_pointer_value (&iter);
-    iot_data_map_remove (map, key);
-    iot_schedule_free (schedule);
-    iot_data_map_iter (map, &iter);
-  }
-  iot_data_free (map);
-}
-
 void iot_scheduler_free (iot_scheduler_t * scheduler)
 {
   if (scheduler && iot_component_dec_ref (&scheduler->component))
   {
     iot_log_trace (scheduler->logger, "iot_scheduler_free");
     iot_component_set_stopped (&scheduler->component); // Break schedule thread out of schedule wait
-    iot_wait_usecs (500u);
     iot_component_set_deleted (&scheduler->component); // Break schedule thread out of state wait
-    iot_wait_usecs (500u);
-    iot_scheduler_free_schedules (scheduler->queue);
-    iot_scheduler_free_schedules (scheduler->idle);
-    iot_logger_free (scheduler->logger);
-    iot_component_fini (&scheduler->component);
-    free (scheduler);
+    iot_component_lock (&scheduler->component);
+    scheduler->self_delete = scheduler->active && pthread_equal (scheduler->thread, pthread_self ());
+    bool self_delete = scheduler->self_delete;
+    while (scheduler->active && !self_delete)
+    {
+      pthread_cond_wait (&scheduler->component.cond, &scheduler->component.mutex); // Wait for schedule thread to exit
+    }
+    iot_component_unlock (&scheduler->component);
+    if (!self_delete) iot_scheduler_final_free (scheduler); // Otherwise freed by schedule thread on exit
   }
 }
 
-- 
2.43.0


From 06db67f16a3541a674286b1a54cc59bef8ea10d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 53/76] fix: schedule added while scheduler stopped not run
 when restarted

---
 src/c/scheduler.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 88c333b..d95c219 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -181,15 +181,17 @@ static void iot_scheduler_final_free (iot_scheduler_t * scheduler)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+    iot_schedule_t * first = iot_schedule_queue_next (queue);
+    next = first ? first->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -277,10 +279,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   bool self_delete = scheduler->self_delete;
-- 
2.43.0


From dcdd127c96fb0e58ca66f18c9b0cd37216b26660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 54/76] fix: schedule run and abort callbacks read without lock

---
 src/c/scheduler.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index d95c219..3eb1138 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -211,10 +211,11 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_schedule_add_ref (current);
         /* Notify that the schedule is about to run */
-        if (current->run_cb)
+        iot_schedule_fn_t run_cb = current->run_cb;
+        if (run_cb)
         {
           iot_component_unlock (&scheduler->component);
-          current->run_cb (current->arg);
+          run_cb (current->arg);
           iot_component_lock (&scheduler->component);
           valid_current = atomic_load (&current->scheduled);
         }
@@ -229,10 +230,11 @@ static void * iot_scheduler_thread (void * arg)
           if (! iot_threadpool_try_work (current->threadpool, schedule_fn, current, current->priority))
           {
             /* Notify that the run is aborted */
-            if (current->abort_cb)
+            iot_schedule_fn_t abort_cb = current->abort_cb;
+            if (abort_cb)
             {
               iot_component_unlock (&scheduler->component);
-              current->abort_cb (current->arg);
+              abort_cb (current->arg);
               iot_component_lock (&scheduler->component);
             }
             if (atomic_fetch_add (&current->dropped, 1u) == 0u)
-- 
2.43.0


From 06dd0c2f6d004d40b238f4272dcb3ade799fb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 55/76] fix: completed schedule repeats for ever when added
 again

---
 src/c/scheduler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 3eb1138..cd2c67a 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -31,6 +31,7 @@ struct iot_schedule_t
   uint64_t period;                   /* The period of the schedule, in ns */
   uint64_t start;                    /* The start time of the schedule, in ns */
   uint64_t repeat;                   /* The number of repetitions, 0 == infinite */
+  uint64_t remaining;                /* The number of repetitions left, if not infinite */
   uint64_t id;                       /* Schedule unique id */
   _Atomic uint64_t dropped;          /* Number of events dropped */
   _Atomic bool concurrent;           /* Whether a schedule can be concurrently executed */
@@ -265,8 +266,9 @@ static void * iot_scheduler_thread (void * arg)
         /* Recalculate the next start time for the schedule */
         next = current->period + iot_time_nsecs ();
 
-        if ((current->repeat > 0u) && (--(current->repeat) == 0u)) // Last repetition
+        if ((current->repeat > 0u) && (--(current->remaining) == 0u)) // Last repetition
         {
+          current->remaining = current->repeat;
           iot_log_trace (scheduler->logger, "Schedule #%" PRIu64 " now idle", current->id);
           iot_schedule_queue_remove (scheduler, current);
           iot_schedule_idle_add (scheduler, current);
@@ -339,6 +341,7 @@ iot_schedule_t * iot_schedule_create (iot_scheduler_t * scheduler, iot_schedule_
   schedule->period = period;
   schedule->start = iot_time_nsecs () + delay;
   schedule->repeat = repeat;
+  schedule->remaining = repeat;
   schedule->threadpool = pool;
   schedule->priority = priority;
   schedule->id = atomic_fetch_add (&schedule_id_counter, 1u);
-- 
2.43.0


From 221cf2f72c4fee1fa328524ce8bfcdec7a6d1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 56/76] fix: scheduler wake up may be taken by another waiter

---
 src/c/scheduler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index cd2c67a..cf784bc 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -372,7 +372,7 @@ bool iot_schedule_add (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
     /* If the schedule was placed and the front of the queue and the scheduler is running */
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   iot_component_unlock (&scheduler->component);
@@ -408,7 +408,7 @@ void iot_schedule_reset (iot_scheduler_t * scheduler, iot_schedule_t * schedule,
     bool front = iot_schedule_queue_update (scheduler, schedule, next);
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   else
-- 
2.43.0


From d617860216c38ae08b7c2590aa8dc045b455b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 57/76] fix: deadlock using scheduler from a synchronous
 schedule or free callback

---
 src/c/scheduler.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index cf784bc..972cd88 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -178,6 +178,16 @@ static void iot_scheduler_final_free (iot_scheduler_t * scheduler)
   free (scheduler);
 }
 
+/* Release schedule from scheduler thread, without lock if may be the last reference. Returns whether still scheduled */
+static bool iot_schedule_release_locked (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
+{
+  bool scheduled = schedule->scheduled;
+  if (!scheduled) iot_component_unlock (&scheduler->component);
+  iot_schedule_free (schedule);
+  if (!scheduled) iot_component_lock (&scheduler->component);
+  return scheduled;
+}
+
 /* Scheduler thread function */
 static void * iot_scheduler_thread (void * arg)
 {
@@ -223,7 +233,10 @@ static void * iot_scheduler_thread (void * arg)
         if (atomic_load (&current->sync)) // Run schedule directly
         {
           iot_log_trace (scheduler->logger, "Running sync schedule #%" PRIu64 "", current->id);
-          schedule_fn (current);
+          iot_component_unlock (&scheduler->component);
+          current->function (current->arg);
+          iot_component_lock (&scheduler->component);
+          valid_current = iot_schedule_release_locked (scheduler, current);
         }
         else if (current->threadpool) // Run schedule from threadpool
         {
@@ -242,8 +255,7 @@ static void * iot_scheduler_thread (void * arg)
             {
               iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, current->id);
             }
-            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);;
-            iot_schedule_free (current);
+            valid_current = iot_schedule_release_locked (scheduler, current);
           }
         }
         else // Run schedule in new thread
-- 
2.43.0


From 7bc28a8529f726c6b643363c89961e5393f8a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 58/76] fix: schedule run lost or schedule used after free when
 thread not created

---
 src/c/scheduler.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 972cd88..9b95d8f 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -188,6 +188,24 @@ static bool iot_schedule_release_locked (iot_scheduler_t * scheduler, iot_schedu
   return scheduled;
 }
 
+/* Abort schedule run, as could not be started. Returns whether still scheduled */
+static bool iot_schedule_abort_locked (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
+{
+  /* Notify that the run is aborted */
+  iot_schedule_fn_t abort_cb = schedule->abort_cb;
+  if (abort_cb)
+  {
+    iot_component_unlock (&scheduler->component);
+    abort_cb (schedule->arg);
+    iot_component_lock (&scheduler->component);
+  }
+  if (atomic_fetch_add (&schedule->dropped, 1u) == 0u)
+  {
+    iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, schedule->id);
+  }
+  return iot_schedule_release_locked (scheduler, schedule);
+}
+
 /* Scheduler thread function */
 static void * iot_scheduler_thread (void * arg)
 {
@@ -243,19 +261,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " from threadpool", current->id);
           if (! iot_threadpool_try_work (current->threadpool, schedule_fn, current, current->priority))
           {
-            /* Notify that the run is aborted */
-            iot_schedule_fn_t abort_cb = current->abort_cb;
-            if (abort_cb)
-            {
-              iot_component_unlock (&scheduler->component);
-              abort_cb (current->arg);
-              iot_component_lock (&scheduler->component);
-            }
-            if (atomic_fetch_add (&current->dropped, 1u) == 0u)
-            {
-              iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, current->id);
-            }
-            valid_current = iot_schedule_release_locked (scheduler, current);
+            valid_current = iot_schedule_abort_locked (scheduler, current);
           }
         }
         else // Run schedule in new thread
@@ -263,8 +269,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
-            iot_schedule_free (current);
+            valid_current = iot_schedule_abort_locked (scheduler, current);
           }
         }
       }
-- 
2.43.0


From 372b9f2dc19b0d772c8c3264ed4cf33a00f902eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 59/76] fix: schedule removed or reset while its callbacks run

---
 src/c/scheduler.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 9b95d8f..506ddc9 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -236,6 +236,9 @@ static void * iot_scheduler_thread (void * arg)
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
+      const uint64_t start = current->start;
+      const bool last = (current->repeat > 0u) && (--(current->remaining) == 0u); // Last repetition
+      if (last) current->remaining = current->repeat;
       if (atomic_load (&current->concurrent) || (atomic_load (&current->refs) == 1u)) // Check for concurrent execution
       {
         iot_schedule_add_ref (current);
@@ -283,14 +286,13 @@ static void * iot_scheduler_thread (void * arg)
         /* Recalculate the next start time for the schedule */
         next = current->period + iot_time_nsecs ();
 
-        if ((current->repeat > 0u) && (--(current->remaining) == 0u)) // Last repetition
+        if (last)
         {
-          current->remaining = current->repeat;
           iot_log_trace (scheduler->logger, "Schedule #%" PRIu64 " now idle", current->id);
           iot_schedule_queue_remove (scheduler, current);
           iot_schedule_idle_add (scheduler, current);
         }
-        else
+        else if (current->start == start) // Unless reset while run
         {
           iot_log_trace (scheduler->logger, "Re-queue repeating schedule #%" PRIu64, current->id);
           iot_schedule_queue_update (scheduler, current, next);
-- 
2.43.0


From 5afd3e90b3583d1ca7d8b7f614e695ed2daf2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 60/76] fix: schedule with very long delay or period run
 immediately

---
 src/c/scheduler.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 506ddc9..8e9c6d2 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -75,6 +75,13 @@ static void iot_schedule_free (iot_schedule_t * schedule)
   }
 }
 
+/* Time after delay in ns, limited to the far future so a long delay does not wrap to a time in the past */
+static inline uint64_t iot_schedule_time (uint64_t from, uint64_t delay)
+{
+  const uint64_t max = (uint64_t) INT64_MAX;
+  return (from >= max || delay > (max - from)) ? max : (from + delay);
+}
+
 static inline void iot_schedule_update_start (iot_schedule_t * schedule, uint64_t start)
 {
   schedule->start = start;
@@ -284,7 +291,7 @@ static void * iot_scheduler_thread (void * arg)
       if (valid_current)
       {
         /* Recalculate the next start time for the schedule */
-        next = current->period + iot_time_nsecs ();
+        next = iot_schedule_time (iot_time_nsecs (), current->period);
 
         if (last)
         {
@@ -358,7 +365,7 @@ iot_schedule_t * iot_schedule_create (iot_scheduler_t * scheduler, iot_schedule_
   schedule->free_cb = free_func;
   schedule->arg = arg;
   schedule->period = period;
-  schedule->start = iot_time_nsecs () + delay;
+  schedule->start = iot_schedule_time (iot_time_nsecs (), delay);
   schedule->repeat = repeat;
   schedule->remaining = repeat;
   schedule->threadpool = pool;
@@ -421,7 +428,7 @@ void iot_schedule_reset (iot_scheduler_t * scheduler, iot_schedule_t * schedule,
   iot_component_lock (&scheduler->component);
 
   /* Recalculate the next start time for the schedule */
-  uint64_t next = schedule->period + iot_time_nsecs () + delay;
+  uint64_t next = iot_schedule_time (iot_schedule_time (iot_time_nsecs (), schedule->period), delay);
   if (schedule->scheduled)
   {
     bool front = iot_schedule_queue_update (scheduler, schedule, next);
-- 
2.43.0


From 192525e6f4a5537678ea757f01213af0e5a4aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 61/76] fix: only one of several threadpool waiters woken

---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From 321004811cf9842e26660fa5a3159489269e92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 62/76] fix: threads leaked when created without requested
 priority

---
 src/c/thread.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index f5d779b..11485d9 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -112,7 +112,10 @@ bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int p
   ret = pthread_create (tid, &attr, func, arg);
   if (ret != 0)
   {
-    ret = pthread_create (tid, NULL, func, arg);
+    pthread_attr_destroy (&attr);
+    pthread_attr_init (&attr);
+    pthread_attr_setdetachstate (&attr, PTHREAD_CREATE_DETACHED);
+    ret = pthread_create (tid, &attr, func, arg);
     if (ret != 0) iot_log_error (logger, "pthread_create failed ret: %d", ret);
   }
   pthread_attr_destroy (&attr);
-- 
2.43.0


From 6b74fed5c4f322855684c4d831f3dba6dc562b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 63/76] fix: element leaked when enqueue unblocked by queue
 stop

---
 include/iot/queue.h | 3 ++-
 src/c/queue.c       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/iot/queue.h b/include/iot/queue.h
index 3ea49b8..a401247 100644
--- a/include/iot/queue.h
+++ b/include/iot/queue.h
@@ -52,7 +52,8 @@ extern void iot_queue_stop (iot_queue_t *q);
 void iot_queue_free (iot_queue_t *q);
 
 /**
- * @brief Add an element to the queue. If the queue is full, block until space is available
+ * @brief Add an element to the queue. If the queue is full, block until space is available.
+ * If iot_queue_stop is called while the queue is full the element is not added and is freed
  * @param q       Pointer to a queue
  * @param element The element to add to the queue
  */
diff --git a/src/c/queue.c b/src/c/queue.c
index 9fa2a86..fbb7729 100644
--- a/src/c/queue.c
+++ b/src/c/queue.c
@@ -109,6 +109,7 @@ void iot_queue_enqueue (iot_queue_t *q, iot_data_t *element)
     if (!q->running)
     {
       pthread_mutex_unlock (&q->mtx);
+      iot_data_free (element);
       return;
     }
     pthread_cond_wait (&q->removed, &q->mtx);
-- 
2.43.0


From 3da8829e4aaa09b29b45ae9d1db4393bf96a7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 64/76] fix: file replaced by truncated data when write fails

---
 src/c/file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..4abc921 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -116,8 +116,9 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   if (fd)
   {
     ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    ok = (fclose (fd) == 0) && ok; // Data may only be written when closed
+    ok = ok && (rename (tmp_path, path) == 0);
+    if (!ok) remove (tmp_path);
   }
   return ok;
 }
-- 
2.43.0


From dde74cd04dd4666a7cefcd6e1518f49a66770df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 65/76] fix: empty string not written to file

---
 src/c/file.c  | 2 +-
 src/c/store.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 4abc921..2075cb3 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -115,7 +115,7 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   FILE *fd = fopen (tmp_path, "w");
   if (fd)
   {
-    ok = (fwrite (binary, len, 1u, fd) == 1u);
+    ok = (fwrite (binary, 1u, len, fd) == len);
     ok = (fclose (fd) == 0) && ok; // Data may only be written when closed
     ok = ok && (rename (tmp_path, path) == 0);
     if (!ok) remove (tmp_path);
diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..af570c6 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -44,7 +44,7 @@ uint8_t * iot_store_read_binary (const char * path, size_t * len)
 
 bool iot_store_write_binary (const char * path, const uint8_t * binary, size_t len)
 {
-  assert (path && binary && len);
+  assert (path && binary);
   return iot_store_writer ? iot_store_writer (path, binary, len) : false;
 }
 
-- 
2.43.0


From eaea7bc743701528602c4a6b7790850d1771ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 66/76] fix: writing a file destroys another file with .new
 suffix

---
 src/c/file.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 2075cb3..e600cb4 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -108,11 +108,16 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
 {
   assert (path && binary);
   bool ok = false;
-  char tmp_path[PATH_MAX];
-  strncpy (tmp_path, path, PATH_MAX - 5);
-  tmp_path[PATH_MAX-5] = '\0';
-  strcat (tmp_path, ".new");
-  FILE *fd = fopen (tmp_path, "w");
+  FILE * fd = NULL;
+  size_t size = strlen (path) + sizeof (".new4294967295");
+  char * tmp_path = malloc (size);
+  snprintf (tmp_path, size, "%s.new", path);
+  for (uint32_t i = 1u; !fd; i++) // Find unused name for temporary file
+  {
+    fd = fopen (tmp_path, "wx");
+    if (!fd && errno != EEXIST) break;
+    if (!fd) snprintf (tmp_path, size, "%s.new%" PRIu32, path, i);
+  }
   if (fd)
   {
     ok = (fwrite (binary, 1u, len, fd) == len);
@@ -120,6 +125,7 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
     ok = ok && (rename (tmp_path, path) == 0);
     if (!ok) remove (tmp_path);
   }
+  free (tmp_path);
   return ok;
 }
 
-- 
2.43.0


From 6c559dcc60e9ff3a7a8519853c367d2690347e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 67/76] fix: crash reading a directory or when file read fails

---
 src/c/file.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index e600cb4..ede55fb 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -70,6 +70,7 @@ extern bool iot_file_delete (const char * path)
 
 #else // _AZURESPHERE_
 #include <dirent.h>
+#include <sys/stat.h>
 #include <regex.h>
 
 bool iot_file_delete (const char * path)
@@ -87,16 +88,21 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    struct stat st;
+    if (fstat (fileno (fd), &st) == 0 && S_ISREG (st.st_mode) && st.st_size > 0) // Return NULL if file empty
     {
-      rewind (fd);
+      size = (size_t) st.st_size;
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      if (ret && fread (ret, size, 1u, fd) == 1u)
+      {
+        ret[size] = 0; // String NULL terminator
+      }
+      else // Read failed
+      {
+        free (ret);
+        ret = NULL;
+        size = 0;
+      }
     }
     fclose (fd);
   }
-- 
2.43.0


From 54042399bc48e55e54e1815bde58d25ad6f645ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 68/76] fix: directory left open when listed with invalid
 expression

---
 src/c/file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index ede55fb..0ec26cf 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -150,10 +150,14 @@ bool iot_file_write (const char * path, const char * str)
 iot_data_t * iot_file_list (const char * directory, const char * regex_str)
 {
   iot_data_t * list = NULL;
-  DIR *d = opendir (directory);
-  if (!d) goto DONE;
   regex_t regex;
   if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  DIR *d = opendir (directory);
+  if (!d)
+  {
+    if (regex_str) regfree (&regex);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
-- 
2.43.0


From 8429cea8bee597b0dfe31e88bd08abd165a6423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 69/76] fix: files missing from list

---
 src/c/file.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 0ec26cf..d16447f 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -71,6 +71,7 @@ extern bool iot_file_delete (const char * path)
 #else // _AZURESPHERE_
 #include <dirent.h>
 #include <sys/stat.h>
+#include <fcntl.h>
 #include <regex.h>
 
 bool iot_file_delete (const char * path)
@@ -160,9 +161,15 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
-  while ((dir = readdir (d)))
+  while ((errno = 0, dir = readdir (d)))
   {
-    if (dir->d_type == DT_REG)
+    struct stat st;
+    bool regular = (dir->d_type == DT_REG);
+    if (dir->d_type == DT_UNKNOWN) // Type not provided by file system
+    {
+      regular = (fstatat (dirfd (d), dir->d_name, &st, AT_SYMLINK_NOFOLLOW) == 0) && S_ISREG (st.st_mode);
+    }
+    if (regular)
     {
       size_t nmatch = 0;
       if (!regex_str || regexec (&regex, dir->d_name, nmatch, NULL, 0) == 0)
@@ -171,6 +178,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
       }
     }
   }
+  if (errno) // Directory read failed
+  {
+    iot_data_free (list);
+    list = NULL;
+  }
   if (regex_str) regfree (&regex);
   closedir (d);
 DONE:
-- 
2.43.0


From d9d2e5d5db2566f2254ed37213d80e4ab9a22019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 70/76] fix: crash listing configurations of missing directory

---
 src/c/store.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/store.c b/src/c/store.c
index af570c6..7d313e2 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -96,14 +96,15 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
+  static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  if (!file_list) return NULL;
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (".json") - 1u));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0


From 49f05c8abb72ca836358628bfcf430c845ad0bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 71/76] fix: deeply nested JSON takes time quadratic in its
 depth

---
 src/c/json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/json.c b/src/c/json.c
index aed0e35..2ad96fd 100644
--- a/src/c/json.c
+++ b/src/c/json.c
@@ -211,11 +211,11 @@ int iot_json_parse (iot_json_parser *parser, const char * json, size_t len, iot_
         }
         type = (c == '}' ? IOT_JSON_OBJECT : IOT_JSON_ARRAY);
 
-        if (parser->toknext < 1)
+        if (parser->toksuper == -1)
         {
           return IOT_JSON_ERROR_INVAL;
         }
-        token = &tokens[parser->toknext - 1];
+        token = &tokens[parser->toksuper];
         for (;;)
         {
           if (token->start != -1 && token->end == -1)
-- 
2.43.0


From 7754616d37cdb2d657597b44685b1be4129525d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 72/76] fix: removing a leaf from a map left it unbalanced

---
 src/c/data.c | 59 ++++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index bee21c7..8cff1f6 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2946,11 +2946,6 @@ static inline iot_node_t * iot_node_uncle (const iot_node_t * node)
   return gp ? ((node->parent == gp->left) ? gp->right : gp->left) : NULL;
 }
 
-static inline iot_node_t * iot_node_sibling (const iot_node_t * node)
-{
-  return IS_LEFT (node) ? node->parent->right : node->parent->left;
-}
-
 static inline iot_node_t * iot_node_alloc (iot_node_t * parent, iot_data_t * key, iot_data_t * value)
 {
   bool heap = iot_data_alloc_from_heap;
@@ -3056,24 +3051,28 @@ static void iot_node_insert_balance (iot_data_map_t * map, iot_node_t * k)
   map->tree->colour = IOT_NODE_BLACK;
 }
 
-static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x)
+/* Restore balance after removal of a black node, where x (possibly NULL) now occupies a place below parent */
+
+static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x, iot_node_t * parent)
 {
-  while (x != map->tree && IS_BLACK (x))
+  while (parent && IS_BLACK (x))
   {
-    iot_node_t * s = iot_node_sibling (x);
-    if (IS_LEFT (x))
+    bool left = (x == parent->left);
+    iot_node_t * s = left ? parent->right : parent->left;
+    if (left)
     {
       if (IS_RED (s)) // case 3.1
       {
         s->colour = IOT_NODE_BLACK;
-        x->parent->colour = IOT_NODE_RED;
-        iot_node_rol (map, x->parent);
-        s = x->parent->right;
+        parent->colour = IOT_NODE_RED;
+        iot_node_rol (map, parent);
+        s = parent->right;
       }
       if (IS_LEFT_BLACK (s) && IS_RIGHT_BLACK (s)) // case 3.2
       {
         iot_node_set_colour (s, IOT_NODE_RED);
-        x = x->parent;
+        x = parent;
+        parent = x->parent;
       }
       else
       {
@@ -3082,14 +3081,15 @@ static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x)
           iot_node_set_colour (s->left, IOT_NODE_BLACK);
           iot_node_set_colour (s, IOT_NODE_RED);
           iot_node_ror (map, s);
-          s = x->parent->right;
+          s = parent->right;
         }
         // case 3.4
-        iot_node_set_colour (s, iot_node_colour (x->parent));
-        x->parent->colour = IOT_NODE_BLACK;
+        iot_node_set_colour (s, iot_node_colour (parent));
+        parent->colour = IOT_NODE_BLACK;
         if (s) iot_node_set_colour (s->right, IOT_NODE_BLACK);
-        iot_node_rol (map, x->parent);
+        iot_node_rol (map, parent);
         x = map->tree;
+        parent = NULL;
       }
     }
     else
@@ -3097,14 +3097,15 @@ static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x)
       if (IS_RED (s)) // case 3.1
       {
         s->colour = IOT_NODE_BLACK;
-        x->parent->colour = IOT_NODE_RED;
-        iot_node_ror (map, x->parent);
-        s = x->parent->left;
+        parent->colour = IOT_NODE_RED;
+        iot_node_ror (map, parent);
+        s = parent->left;
       }
       if (IS_RIGHT_BLACK (s) && IS_LEFT_BLACK (s)) // case 3.2
       {
         iot_node_set_colour (s, IOT_NODE_RED);
-        x = x->parent;
+        x = parent;
+        parent = x->parent;
       }
       else
       {
@@ -3113,18 +3114,19 @@ static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x)
           iot_node_set_colour (s->right, IOT_NODE_BLACK);
           iot_node_set_colour (s, IOT_NODE_RED);
           iot_node_rol (map, s);
-          s = x->parent->left;
+          s = parent->left;
         }
         // case 3.4
-        iot_node_set_colour (s, iot_node_colour (x->parent));
-        x->parent->colour = IOT_NODE_BLACK;
+        iot_node_set_colour (s, iot_node_colour (parent));
+        parent->colour = IOT_NODE_BLACK;
         if (s) iot_node_set_colour (s->left, IOT_NODE_BLACK);
-        iot_node_ror (map, x->parent);
+        iot_node_ror (map, parent);
         x = map->tree;
+        parent = NULL;
       }
     }
   }
-  x->colour = IOT_NODE_BLACK;
+  iot_node_set_colour (x, IOT_NODE_BLACK);
 }
 
 static inline iot_node_t * iot_node_find (const iot_node_t * node, const iot_data_t * key)
@@ -3178,6 +3180,7 @@ static bool iot_node_remove (iot_data_map_t * map, const iot_data_t * key)
   {
     iot_node_t * x;
     iot_node_t * y = z;
+    iot_node_t * parent = z->parent;
     iot_node_colour_t col = y->colour;
     if (z->left == NULL)
     {
@@ -3197,9 +3200,11 @@ static bool iot_node_remove (iot_data_map_t * map, const iot_data_t * key)
       if (y->parent == z)
       {
         if (x) x->parent = y;
+        parent = y;
       }
       else
       {
+        parent = y->parent;
         iot_node_transplant (map, y, y->right);
         y->right = z->right;
         y->right->parent = y;
@@ -3210,7 +3215,7 @@ static bool iot_node_remove (iot_data_map_t * map, const iot_data_t * key)
       y->colour = z->colour;
     }
     iot_node_delete (z);
-    if (x && (col == IOT_NODE_BLACK)) iot_node_remove_balance (map, x);
+    if (col == IOT_NODE_BLACK) iot_node_remove_balance (map, x, parent);
   }
   return (z != NULL);
 }
-- 
2.43.0


From 9f69c328b620d90f46157b25857b189981e12614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 73/76] fix: race in the first check of a thread priority

---
 src/c/thread.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index 11485d9..440e050 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -35,13 +35,8 @@ static void * zephyr_func_wrapper (void * data)
 
 bool iot_thread_priority_valid (int priority)
 {
-  static int max_priority = -2;
-  static int min_priority = -2;
-  if (max_priority == -2)
-  {
-    max_priority = sched_get_priority_max (SCHED_FIFO);
-    min_priority = sched_get_priority_min (SCHED_FIFO);
-  }
+  const int max_priority = sched_get_priority_max (SCHED_FIFO);
+  const int min_priority = sched_get_priority_min (SCHED_FIFO);
   return (priority >= min_priority && priority <= max_priority);
 }
 
-- 
2.43.0


From 582bc7d532caf36b0291cf2e300199fe49779ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 74/76] fix: compact a vector in one pass

---
 src/c/data.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 8cff1f6..facf00c 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2084,22 +2084,14 @@ uint32_t iot_data_vector_compact (iot_data_t * vector)
 {
   iot_data_vector_t * vec = (iot_data_vector_t*) vector;
   assert (vector && (vector->type == IOT_DATA_VECTOR));
-  uint32_t new_size = vec->size;
+  uint32_t new_size = 0u;
   for (uint32_t i = 0; i < vec->size; i++)
   {
-    if (vec->values[i] == NULL)
+    iot_data_t * value = vec->values[i];
+    if (value)
     {
-      new_size--;
-      for (uint32_t j = i + 1; j < vec->size; j++)
-      {
-        if (vec->values[j])
-        {
-          vec->values[i] = vec->values[j];
-          vec->values[j] = NULL;
-          new_size++;
-          break;
-        }
-      }
+      vec->values[i] = NULL;
+      vec->values[new_size++] = value;
     }
   }
   vec->size = new_size;
-- 
2.43.0


From 77db840278a49332a7427637cee40825030171c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 75/76] fix: change a logger's level and state together

---
 include/iot/logger.h |  2 +-
 src/c/logger.c       | 20 ++++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/iot/logger.h b/include/iot/logger.h
index d770e4e..20070da 100644
--- a/include/iot/logger.h
+++ b/include/iot/logger.h
@@ -44,7 +44,7 @@ typedef enum iot_loglevel_t
 typedef struct iot_logger_t
 {
   iot_component_t component;      /**< Component base */
-  volatile iot_loglevel_t level;  /**< Log level */
+  _Atomic (iot_loglevel_t) level; /**< Log level */
 } iot_logger_t;
 
 /**
diff --git a/src/c/logger.c b/src/c/logger.c
index d413bcf..71116ab 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -39,7 +39,7 @@ static time_t time (time_t *t)
 typedef struct iot_logger_impl_t
 {
   iot_logger_t base;                  // Public part of logger
-  volatile iot_loglevel_t save;       // Last saved log level
+  iot_loglevel_t save;                // Last saved log level, protected by component lock
   char * name;                        // Name of logger
   iot_log_function_t impl;            // Log implementation function
   iot_log_free_fn_t freectx;          // Function to free log context
@@ -89,11 +89,20 @@ void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...)
   va_end (args);
 }
 
+// Set level according to state, saved level restored when restarted
+static void iot_logger_update_level (iot_logger_t * logger, const iot_loglevel_t * save)
+{
+  iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
+  iot_component_state_t state = iot_component_lock (&logger->component);
+  if (save) impl->save = *save;
+  logger->level = (state == IOT_COMPONENT_STOPPED) ? IOT_LOG_NONE : impl->save;
+  iot_component_unlock (&logger->component);
+}
+
 void iot_logger_set_level (iot_logger_t * logger, iot_loglevel_t level)
 {
   assert (logger);
-  ((iot_logger_impl_t*) logger)->save = level;
-  if (logger->component.state != IOT_COMPONENT_STOPPED) logger->level = level; // Otherwise set when restarted
+  iot_logger_update_level (logger, &level);
 }
 
 iot_logger_t * iot_logger_alloc_custom (const char * name, iot_loglevel_t level, bool start, iot_logger_t * next, iot_log_function_t impl, void * ctx, iot_log_free_fn_t freectx)
@@ -138,16 +147,15 @@ void iot_logger_add_ref (iot_logger_t * logger)
 void iot_logger_start (iot_logger_t * logger)
 {
   assert (logger);
-  const iot_logger_impl_t * impl = (const iot_logger_impl_t*) logger;
   iot_component_set_running (&logger->component);
-  logger->level = impl->save;
+  iot_logger_update_level (logger, NULL);
 }
 
 void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
   iot_component_set_stopped (&logger->component);
-  logger->level = IOT_LOG_NONE;
+  iot_logger_update_level (logger, NULL);
 }
 
 static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message)
-- 
2.43.0


From b225b763eaab0ac00eb72b693735251aea108f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:35 +0000
Subject: [PATCH 76/76] fix: map iterator has_next wrong when iterating
 backwards

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index facf00c..e15faf5 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2315,7 +2315,7 @@ bool iot_data_map_iter_next (iot_data_map_iter_t * iter)
 bool iot_data_map_iter_has_next (const iot_data_map_iter_t * iter)
 {
   assert (iter && iter->_map);
-  return (iter->_count < iter->_map->size);
+  return (iter->_node ? iot_node_next (iter->_node) : iter->_map->tree) != NULL;
 }
 
 static inline iot_node_t * iot_node_end (iot_node_t * node)
-- 
2.43.0

