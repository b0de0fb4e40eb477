// C28: how much work an operation on a value or text is. Monitor: basic blocks of the library executed (compiler instrumentation reporting each to this
// driver) plus the bytes handled by the C library's string and memory functions on the library's behalf, for the same operation on a value or
// text of n parts and on one of sixteen times as many, alike in everything else.
// LINK: -Wl,--wrap=strlen,--wrap=strcmp,--wrap=strncmp,--wrap=strcasecmp,--wrap=memcmp,--wrap=strcpy,--wrap=strncpy,--wrap=strcat,--wrap=strncat,--wrap=strchr,--wrap=strrchr,--wrap=strstr,--wrap=strspn,--wrap=strcspn,--wrap=strpbrk,--wrap=strdup,--wrap=strndup,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memchr,--wrap=strnlen,--wrap=stpcpy
#include "vh.hpp"
#include "iot/data.h"
#include "iot/base64.h"
#include "iot/config.h"
#include "iot/hash.h"
#include "iot/queue.h"
#include <functional>
using namespace vh;
typedef std::string Str;
static thread_local uint64_t g_steps; static thread_local bool g_on; static std::atomic<uint64_t> g_blocks;
extern "C" {
void __sanitizer_cov_trace_pc (void) { g_steps += g_on; }
#define B(n) do { if (g_on) g_steps += 1 + (uint64_t) (n) / 8; } while (0)
size_t __real_strlen (const char *); int __real_strcmp (const char *, const char *); int __real_strncmp (const char *, const char *, size_t); int __real_strcasecmp (const char *, const char *); int __real_memcmp (const void *, const void *, size_t); char * __real_strcpy (char *, const char *); char * __real_strncpy (char *, const char *, size_t); char * __real_strcat (char *, const char *); char * __real_strncat (char *, const char *, size_t); char * __real_strchr (const char *, int); char * __real_strrchr (const char *, int); char * __real_strstr (const char *, const char *); size_t __real_strspn (const char *, const char *); size_t __real_strcspn (const char *, const char *); char * __real_strpbrk (const char *, const char *); char * __real_strdup (const char *); char * __real_strndup (const char *, size_t); void * __real_memcpy (void *, const void *, size_t); void * __real_memmove (void *, const void *, size_t); void * __real_memset (void *, int, size_t); void * __real_memchr (const void *, int, size_t); size_t __real_strnlen (const char *, size_t); char * __real_stpcpy (char *, const char *);
static size_t common (const char * a, const char * b, size_t m) { size_t k = 0; while (k < m && a[k] && a[k] == b[k]) k++; return k; }
size_t __wrap_strlen (const char * s) { size_t n = __real_strlen (s); B (n); return n; }
size_t __wrap_strnlen (const char * s, size_t m) { size_t n = __real_strnlen (s, m); B (n); return n; }
int __wrap_strcmp (const char * a, const char * b) { if (g_on) B (common (a, b, SIZE_MAX)); return __real_strcmp (a, b); }
int __wrap_strncmp (const char * a, const char * b, size_t m) { if (g_on) B (common (a, b, m)); return __real_strncmp (a, b, m); }
int __wrap_strcasecmp (const char * a, const char * b) { if (g_on) B (common (a, b, SIZE_MAX)); return __real_strcasecmp (a, b); }
int __wrap_memcmp (const void * a, const void * b, size_t n) { B (n); return __real_memcmp (a, b, n); }
char * __wrap_strcpy (char * d, const char * s) { B (__real_strlen (s)); return __real_strcpy (d, s); }
char * __wrap_stpcpy (char * d, const char * s) { B (__real_strlen (s)); return __real_stpcpy (d, s); }
char * __wrap_strncpy (char * d, const char * s, size_t n) { B (n); return __real_strncpy (d, s, n); }
char * __wrap_strcat (char * d, const char * s) { B (__real_strlen (d) + __real_strlen (s)); return __real_strcat (d, s); }
char * __wrap_strncat (char * d, const char * s, size_t n) { B (__real_strlen (d) + __real_strnlen (s, n)); return __real_strncat (d, s, n); }
char * __wrap_strchr (const char * s, int c) { char * r = __real_strchr (s, c); B (r ? (size_t) (r - s) : __real_strlen (s)); return r; }
char * __wrap_strrchr (const char * s, int c) { B (__real_strlen (s)); return __real_strrchr (s, c); }
char * __wrap_strstr (const char * s, const char * t) { char * r = __real_strstr (s, t); B (r ? (size_t) (r - s) : __real_strlen (s)); return r; }
size_t __wrap_strspn (const char * s, const char * t) { size_t n = __real_strspn (s, t); B (n); return n; }
size_t __wrap_strcspn (const char * s, const char * t) { size_t n = __real_strcspn (s, t); B (n); return n; }
char * __wrap_strpbrk (const char * s, const char * t) { char * r = __real_strpbrk (s, t); B (r ? (size_t) (r - s) : __real_strlen (s)); return r; }
char * __wrap_strdup (const char * s) { B (__real_strlen (s)); return __real_strdup (s); }
char * __wrap_strndup (const char * s, size_t n) { B (__real_strnlen (s, n)); return __real_strndup (s, n); }
void * __wrap_memcpy (void * d, const void * s, size_t n) { B (n); return __real_memcpy (d, s, n); }
void * __wrap_memmove (void * d, const void * s, size_t n) { B (n); return __real_memmove (d, s, n); }
void * __wrap_memset (void * d, int c, size_t n) { B (n); return __real_memset (d, c, n); }
void * __wrap_memchr (const void * s, int c, size_t n) { void * r = __real_memchr (s, c, n); B (r ? (size_t) ((const char *) r - (const char *) s) : n); return r; }
}
template <class F> static uint64_t steps (F f) { g_steps = 0; g_on = true; f (); g_on = false; g_blocks += g_steps; return g_steps; }

// ---- values: n parts of one kind, alike for every n but for their number
struct Par { unsigned w; uint64_t salt; bool text_keys, heap; iot_data_type_t t; };
static uint64_t part (const Par & p, unsigned k) { return Rng::mix (p.salt + k); }
static iot_data_t * text (const Par & p, unsigned k) { static const char A[] = "abcdefghijklmnop\"\\\n\t/<&' \x7f"; Str s; uint64_t x = part (p, k); for (unsigned j = 0; j < p.w; j++) { s += A[x % 26]; x = Rng::mix (x + j); } return iot_data_alloc_string (s.c_str (), IOT_DATA_COPY); }
static iot_data_t * scalar (const Par & p, unsigned k)
{
  uint64_t x = part (p, k);
  switch (p.t) { case IOT_DATA_INT8: return iot_data_alloc_i8 ((int8_t) x); case IOT_DATA_UINT16: return iot_data_alloc_ui16 ((uint16_t) x); case IOT_DATA_INT64: return iot_data_alloc_i64 ((int64_t) x); case IOT_DATA_UINT64: return iot_data_alloc_ui64 (x); case IOT_DATA_FLOAT64: return iot_data_alloc_f64 ((double) (int64_t) x / 3e9); case IOT_DATA_FLOAT32: return iot_data_alloc_f32 ((float) (int32_t) x / 7); case IOT_DATA_BOOL: return iot_data_alloc_bool (x & 1); case IOT_DATA_NULL: return iot_data_alloc_null (); case IOT_DATA_STRING: return text (p, k); default: return iot_data_alloc_i32 ((int32_t) x); }
}
static iot_data_t * key (const Par & p, unsigned k) { if (!p.text_keys) return iot_data_alloc_ui64 (part (p, k)); char s[40]; snprintf (s, sizeof s, "k%016lx", (unsigned long) part (p, k)); return iot_data_alloc_string (s, IOT_DATA_COPY); }
static iot_data_t * small (const Par & p, unsigned k)
{
  Par q = p; q.text_keys = true; iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); for (unsigned j = 0; j < 4; j++) { static const char * const N[] = { "id", "name", "value", "flags" }; iot_data_string_map_add (m, N[j], j == 1 ? text (p, k) : scalar (p, k + j)); } return m;
}
enum Shape { LIST, TLIST, VECTOR, MAP, STRING, BINARY, ARRAY, RECORDS, DEEPV, DEEPL, DEEPM, MAPMAP, ROWS, SAME, SPARSE, LONGTEXTS, SHAPES };
static const char * const SN[] = { "list", "list of one type", "vector", "map", "string", "binary", "array", "vector of records", "nested vectors", "nested lists", "nested maps", "map of maps", "vector of rows", "vector of equal texts", "mostly unset vector", "few long texts" };
static iot_data_t * make (Shape s, const Par & p, unsigned n)
{
  switch (s)
  {
    case LIST: { iot_data_t * l = iot_data_alloc_list (); for (unsigned k = 0; k < n; k++) if (p.salt & 1) iot_data_list_tail_push (l, scalar (p, k)); else iot_data_list_head_push (l, scalar (p, k)); return l; }
    case TLIST: { iot_data_t * l = iot_data_alloc_typed_list (p.t); for (unsigned k = 0; k < n; k++) iot_data_list_tail_push (l, scalar (p, k)); return l; }
    case VECTOR: { iot_data_t * v = iot_data_alloc_vector (n); for (unsigned k = 0; k < n; k++) iot_data_vector_add (v, k, scalar (p, k)); return v; }
    case SAME: { iot_data_t * v = iot_data_alloc_vector (n); for (unsigned k = 0; k < n; k++) iot_data_vector_add (v, k, iot_data_alloc_string (k % 7 ? "equal text" : "the other", IOT_DATA_COPY)); return v; }
    case SPARSE: { iot_data_t * v = iot_data_alloc_vector (n); for (unsigned k = 0; k < n; k += 5) iot_data_vector_add (v, k, scalar (p, k)); return v; }
    case MAP: { iot_data_t * m = iot_data_alloc_map (p.text_keys ? IOT_DATA_STRING : IOT_DATA_UINT64); for (unsigned k = 0; k < n; k++) iot_data_map_add (m, key (p, k), scalar (p, k)); return m; }
    case STRING: { Par q = p; q.w = n * 4; return text (q, 1); }
    case LONGTEXTS: { Par q = p; q.w = n; iot_data_t * v = iot_data_alloc_vector (6); for (unsigned k = 0; k < 6; k++) iot_data_vector_add (v, k, text (q, k)); return v; }
    case BINARY: { std::vector<uint8_t> b (n * 4); for (auto & c : b) c = (uint8_t) part (p, (unsigned) (&c - b.data ())); return iot_data_alloc_binary (b.data (), (uint32_t) b.size (), IOT_DATA_COPY); }
    case ARRAY: { std::vector<uint64_t> b (n); for (unsigned k = 0; k < n; k++) b[k] = p.t == IOT_DATA_FLOAT64 || p.t == IOT_DATA_FLOAT32 ? 0x3ff0000000000000u + k : part (p, k); iot_data_type_t t = p.t <= IOT_DATA_FLOAT64 ? p.t : IOT_DATA_UINT32; if (t == IOT_DATA_FLOAT32) for (unsigned k = 0; k < 2 * n; k++) ((float *) b.data ())[k] = (float) k; return iot_data_alloc_array (b.data (), n, t, IOT_DATA_COPY); }
    case RECORDS: { iot_data_t * v = iot_data_alloc_vector (n / 4); for (unsigned k = 0; k < n / 4; k++) iot_data_vector_add (v, k, small (p, k)); return v; }
    case DEEPV: { iot_data_t * v = scalar (p, 0); for (unsigned k = 0; k < n; k++) { iot_data_t * o = iot_data_alloc_vector (2); iot_data_vector_add (o, k & 1, v); iot_data_vector_add (o, 1 - (k & 1), scalar (p, k)); v = o; } return v; }
    case DEEPL: { iot_data_t * v = scalar (p, 0); for (unsigned k = 0; k < n; k++) { iot_data_t * o = iot_data_alloc_list (); iot_data_list_tail_push (o, v); if (k & 1) iot_data_list_tail_push (o, scalar (p, k)); v = o; } return v; }
    case DEEPM: { iot_data_t * v = scalar (p, 0); for (unsigned k = 0; k < n; k++) { iot_data_t * o = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (o, "in", v); if (k & 1) iot_data_string_map_add (o, "by", scalar (p, k)); v = o; } return v; }
    case MAPMAP: { iot_data_t * m = iot_data_alloc_map (p.text_keys ? IOT_DATA_STRING : IOT_DATA_UINT64); for (unsigned k = 0; k < n / 4; k++) iot_data_map_add (m, key (p, k), small (p, k)); return m; }
    default: { unsigned w = 16; iot_data_t * v = iot_data_alloc_vector (n / w); for (unsigned k = 0; k < n / w; k++) { iot_data_t * row = iot_data_alloc_vector (w); for (unsigned j = 0; j < w; j++) iot_data_vector_add (row, j, scalar (p, k * w + j)); iot_data_vector_add (v, k, row); } return v; }
  }
}
static bool never (const iot_data_t *, const void *) { return false; }
static bool deep (Shape s) { return s == DEEPV || s == DEEPL || s == DEEPM; }
static bool vecs (Shape s) { return s == VECTOR || s == RECORDS || s == ROWS || s == SAME || s == SPARSE || s == LONGTEXTS || s == DEEPV; }
static bool lists (Shape s) { return s == LIST || s == TLIST || s == DEEPL; }
static bool maps (Shape s) { return s == MAP || s == MAPMAP || s == DEEPM; }
static iot_data_t * parse (const char * j, unsigned how) { switch (how) { case 0: return iot_data_from_json (j); case 1: return iot_data_from_json_with_ordering (j, true); default: { iot_data_t * c = iot_data_alloc_map (IOT_DATA_STRING), * d = iot_data_from_json_with_cache (j, how == 3, c); iot_data_free (c); return d; } } }
// the work of operation `op` on the value of n parts, or 0 when the operation does not apply
static uint64_t work (Shape s, const Par & p, unsigned n, unsigned op, const char ** name)
{
#define N(x) *name = x
  uint64_t w = 0; iot_data_t * v = NULL;
  if (op == 0) { N ("building"); w = steps ([&] { v = make (s, p, n); }); iot_data_free (v); return w; }
  v = make (s, p, n);
  switch (op)
  {
    case 1: N ("freeing"); return steps ([&] { iot_data_free (v); });
    case 2: { N ("copying"); iot_data_t * c = NULL; w = steps ([&] { c = iot_data_copy (v); }); iot_data_free (c); break; }
    case 3: { N ("shallow copying"); iot_data_t * c = NULL; w = steps ([&] { c = iot_data_shallow_copy (v); }); iot_data_free (c); break; }
    case 4: if (deep (s)) break; { N ("comparing"); iot_data_t * c = make (s, p, n); bool e = false; w = steps ([&] { e = iot_data_equal (v, c); }); VH_CHECK (e, "equal", "two like values (%s) differ", SN[s]); iot_data_free (c); break; }
    case 5: if (deep (s)) break; { N ("comparing by value"); iot_data_t * c = make (s, p, n); int e = 1; w = steps ([&] { e = iot_data_compare_value (v, c) | !iot_data_equal_value (v, c); }); VH_CHECK (!e, "equal", "two like values (%s) differ", SN[s]); iot_data_free (c); break; }
    case 6: { N ("hashing"); static volatile uint32_t h; w = steps ([&] { h = iot_data_hash (v); }); (void) h; break; }
    case 7: { N ("writing JSON"); char * j = NULL; w = steps ([&] { j = iot_data_to_json (v); }); free (j); break; }
    case 8: { N ("writing JSON into a large buffer"); char * j = NULL; w = steps ([&] { j = iot_data_to_json_with_size (v, 1u << 20); }); free (j); break; }
    case 9: case 10: case 11: case 12: { static const char * const R[] = { "reading JSON", "reading JSON, ordered", "reading JSON with a cache", "reading JSON with a cache, ordered" }; N (R[op - 9]); char * j = iot_data_to_json (v); iot_data_t * c = NULL; w = steps ([&] { c = parse (j, op - 9); }); VH_CHECK (c != NULL, "parse", "the JSON of a %s of %u is refused", SN[s], n); iot_data_free (c); free (j); break; }
    case 13: { N ("writing CBOR"); iot_data_t * c = NULL; w = steps ([&] { c = iot_data_to_cbor (v); }); iot_data_free (c); break; }
    case 14: if (deep (s)) break; { N ("compressing"); w = steps ([&] { iot_data_compress (v); }); break; }
    case 15: { if (deep (s) && s != DEEPV) break; N ("iterating"); w = steps ([&] { iot_data_iter_t it; if (lists (s) || maps (s) || vecs (s)) { iot_data_iter (v, &it); while (iot_data_iter_next (&it)) (void) iot_data_iter_value (&it); while (iot_data_iter_prev (&it)) (void) iot_data_iter_has_next (&it); } else if (s == ARRAY || s == BINARY) { iot_data_array_iter_t ai; iot_data_array_iter (v, &ai); while (iot_data_array_iter_next (&ai)) (void) iot_data_array_iter_value (&ai); } }); break; }
    case 16: if (!vecs (s)) break; N ("counting elements"); w = steps ([&] { (void) iot_data_vector_element_count (v, p.t, true); }); break;
    case 17: { if (!vecs (s)) break; N ("converting to an array"); iot_data_t * c = NULL; w = steps ([&] { c = iot_data_vector_to_array (v, IOT_DATA_FLOAT64, true); }); iot_data_free (c); break; }
    case 18: { if (!vecs (s)) break; N ("converting to a vector"); iot_data_t * c = NULL; w = steps ([&] { c = iot_data_vector_to_vector (v, IOT_DATA_STRING, true); }); iot_data_free (c); break; }
    case 19: { if (!vecs (s)) break; N ("finding the dimensions"); iot_data_t * c = NULL; uint32_t tot; w = steps ([&] { c = iot_data_vector_dimensions (v, &tot); }); iot_data_free (c); break; }
    case 20: { N ("transforming"); iot_data_t * c = NULL; w = steps ([&] { c = iot_data_transform (v, IOT_DATA_FLOAT64); }); iot_data_free (c); break; }
    case 21: if (deep (s)) break; if (lists (s)) { N ("emptying from one end"); w = steps ([&] { iot_data_t * e; while ((e = (p.salt & 2) ? iot_data_list_head_pop (v) : iot_data_list_tail_pop (v))) iot_data_free (e); }); }
      else if (maps (s)) { N ("removing every key"); w = steps ([&] { for (unsigned k = 0; k < n; k++) { iot_data_t * kk = key (p, k); iot_data_map_remove (v, kk); iot_data_free (kk); } }); }
      else if (vecs (s)) { N ("compacting"); w = steps ([&] { iot_data_vector_compact (v); }); } break;
    case 22: if (deep (s)) break; if (lists (s)) { N ("looking for what is not there"); w = steps ([&] { iot_data_list_find (v, never, NULL); iot_data_list_remove (v, never, NULL); }); }
      else if (maps (s)) { N ("looking up every key"); w = steps ([&] { for (unsigned k = 0; k < n; k++) { iot_data_t * kk = key (p, k); (void) iot_data_map_get (v, kk); iot_data_free (kk); } }); }
      else if (vecs (s)) { N ("looking for what is not there"); w = steps ([&] { iot_data_vector_find (v, never, NULL); for (unsigned k = 0; k < iot_data_vector_size (v); k++) (void) iot_data_vector_get (v, k); }); } break;
    case 23: if (deep (s)) break; if (lists (s)) { N ("removing while iterating"); w = steps ([&] { iot_data_list_iter_t it; iot_data_list_iter (v, &it); bool keep = false; while (iot_data_list_iter_next (&it)) { if ((keep = !keep)) iot_data_list_iter_remove (&it); } }); }
      else if (maps (s)) { N ("merging"); iot_data_t * o = make (s, { p.w, p.salt + 77, p.text_keys, p.heap, p.t }, n); w = steps ([&] { iot_data_map_merge (v, o); }); iot_data_free (o); }
      else if (vecs (s)) { N ("resizing"); w = steps ([&] { iot_data_vector_resize (v, n + n / 2); iot_data_vector_resize (v, n / 3); }); } break;
    case 24: if (s == BINARY || s == ARRAY) { N ("converting binary"); iot_data_t * c = NULL, * d = NULL; w = steps ([&] { c = s == BINARY ? iot_data_string_from_binary (v) : iot_data_array_transform (v, IOT_DATA_FLOAT64); d = iot_data_copy (v); if (s == BINARY) iot_data_binary_to_array (d); else iot_data_array_to_binary (d); }); if (c) iot_data_free (c); iot_data_free (d); } break;
    case 25: if (deep (s)) break; { N ("comparing with the next size"); iot_data_t * c = make (s, p, n + 4); static volatile int x; w = steps ([&] { x = iot_data_compare (v, c) + iot_data_equal (v, c); }); (void) x; iot_data_free (c); break; }
    default: if (lists (s) && !deep (s)) { N ("emptying"); w = steps ([&] { iot_data_list_empty (v); }); } else if (maps (s) && !deep (s)) { N ("emptying"); w = steps ([&] { iot_data_map_empty (v); }); } break;
  }
  iot_data_free (v); return w;
}
enum { OPS = 27 };
static void judge (uint64_t a, uint64_t b, const char * op, const char * what, unsigned n, const Par & p)
{
  evaluation (); count ("work_compared"); distinct (std::hash<Str> () (Str (op) + what)); static double worst; double ratio = (double) b / (double) (a ? a : 1);
  if (getenv ("WORK_DUMP")) printf ("%6.2f %s | %s n=%u %lu %lu\n", ratio, op, what, n, (unsigned long) a, (unsigned long) b);
  double most = !strncmp (op, "compressing", 11) ? 70 : 44;   // few distinct values make lookups among many dearer than among few
  VH_CHECK ((double) b <= most * (double) a + 4000, "work", "%s (%s): %lu steps for %u parts, %lu for sixteen times as many (width %u, salt %lu, type %d)", op, what, (unsigned long) a, n, (unsigned long) b, p.w, (unsigned long) p.salt, (int) p.t);
  if (ratio > worst) { worst = ratio; if (want_sample ()) show ("%s of a %s: %lu steps for %u parts, %lu for sixteen times as many", op, what, (unsigned long) a, n, (unsigned long) b); }
}
static void m_value (Rng & r, uint64_t i)
{
  static const iot_data_type_t T[] = { IOT_DATA_INT8, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_BOOL, IOT_DATA_STRING, IOT_DATA_STRING };
  Shape s = (Shape) (i % SHAPES); Par p { 1 + (unsigned) r.below (r.chance (1, 5) ? 60 : 12), r.next (), r.chance (1, 2), false, r.pick (T) }; unsigned n = 80 + 16 * (unsigned) r.below (r.chance (1, 4) ? 24 : 6); if (deep (s) && n > 200) n = 200;
  unsigned op = (unsigned) arg_int ("op", (long) ((i / SHAPES) % OPS)); s = (Shape) arg_int ("shape", s); const char * name = ""; log_op ("%s, operation %u, n %u", SN[s], op, n);
  uint64_t a = work (s, p, n, op, &name); if (!*name) return; uint64_t b = work (s, p, 16 * n, op, &name); judge (a, b, name, SN[s], n, p); count (op < 9 ? "operations_on_values" : "more_operations_on_values");
}
// ---- texts
static Str doc (unsigned kind, const Par & p, unsigned n, const char ** name)
{
  Str s; auto num = [&] (unsigned k) { return std::to_string (part (p, k) % 100000); };
  switch (kind)
  {
    case 0: N ("XML of many elements"); s = "<a>"; for (unsigned k = 0; k < n; k++) s += "<b c='" + num (k) + "'>t" + num (k) + "</b>"; return s + "</a>";
    case 1: N ("XML of many attributes"); s = "<a"; for (unsigned k = 0; k < n; k++) s += " n" + std::to_string (k + 100000) + "='" + num (k) + "'"; return s + "/>";
    case 2: N ("XML of much text"); s = "<a>"; for (unsigned k = 0; k < n; k++) s += (p.salt & 1) ? "text &amp; more " : "words of text <!-- c -->"; return s + "</a>";
    case 3: N ("XML, deeply nested"); { n /= 4; Str e; for (unsigned k = 0; k < n; k++) { s += "<e>"; e += "</e>"; } return s + "x" + e; }
    case 4: N ("XML of a long attribute"); s = "<a b='"; for (unsigned k = 0; k < n; k++) s += "value &lt; "; return s + "'/>";
    case 5: N ("YAML of many items"); for (unsigned k = 0; k < n; k++) s += "- item " + num (k) + "\n"; return s;
    case 6: N ("YAML of many keys"); for (unsigned k = 0; k < n; k++) s += "k" + std::to_string (part (p, k)) + ": " + num (k) + "\n"; return s;
    case 7: N ("YAML of a long text"); s = (p.salt & 1) ? "a: |\n" : "a: \"\n"; for (unsigned k = 0; k < n; k++) s += "  a line of text\n"; if (!(p.salt & 1)) s += "  \"\n"; return s;
    case 8: N ("YAML records"); for (unsigned k = 0; k < n / 4; k++) s += "- id: " + num (k) + "\n  list: [1, 2, x]\n  m: {a: b}\n"; return s;
    case 9: N ("JSON of many strings"); s = "["; for (unsigned k = 0; k < n; k++) s += (k ? ",\"" : "\"") + Str (p.w, 'x') + "\\u20ac\\n" + num (k) + "\""; return s + "]";
    case 10: N ("JSON of many numbers"); s = "["; for (unsigned k = 0; k < n; k++) s += (k ? ", " : "") + num (k) + ((k & 1) ? ".5" : ""); return s + "]";
    case 11: N ("JSON of many keys"); s = "{"; for (unsigned k = 0; k < n; k++) s += (k ? ",\"" : "\"") + std::to_string (part (p, k)) + "\":" + num (k); return s + "}";
    case 12: N ("JSON, deeply nested"); { n /= 2; Str e; for (unsigned k = 0; k < n; k++) { s += (p.salt & 1) ? "[1," : "{\"a\":"; e += (p.salt & 1) ? "]" : "}"; } return s + "0" + e; }
    case 13: N ("JSON with much space"); s = "["; for (unsigned k = 0; k < n; k++) s += Str (20, ' ') + (k ? ",\n" : "") + "true"; return s + "]";
    case 14: N ("JSON left open"); { for (unsigned k = 0; k < n; k++) s += (p.salt & 1) ? "[" : "[1, \"a\", "; return s; }
    case 15: N ("JSON of one key many times"); s = "{"; for (unsigned k = 0; k < n; k++) s += Str (k ? "," : "") + "\"k\":" + num (k); return s + "}";
    case 16: N ("base64 text"); for (unsigned k = 0; k < n; k++) s += "QUJDREVG"; return s;
    case 17: N ("text with references"); for (unsigned k = 0; k < n; k++) s += (k % 3) ? "plain ${VH_W} " : "${VH_W}"; return s;
    case 18: N ("text with few references"); for (unsigned k = 0; k < n; k++) s += "plain text $ { "; return s + "${VH_W}";
    case 19: N ("plain text"); for (unsigned k = 0; k < n; k++) s += "plain text "; return s;
    case 20: N ("binary text"); for (unsigned k = 0; k < n; k++) s += "BE EF"; return s;
    case 21: N ("XML left open"); for (unsigned k = 0; k < n / 4; k++) s += "<a b='c'>text"; return s;
    default: N ("YAML flow"); s = "["; for (unsigned k = 0; k < n; k++) s += Str (k ? ", " : "") + "{a: " + num (k) + "}"; return s + "]";
  }
}
enum { DOCS = 23 };
static uint64_t twork (unsigned kind, const Par & p, unsigned n, bool & ok)
{
  const char * nm; Str s = doc (kind, p, n, &nm); uint64_t w = 0; iot_data_t * v = NULL; const char * c = s.c_str ();
  switch (kind)
  {
    case 0: case 1: case 2: case 3: case 4: case 21: w = steps ([&] { v = iot_data_from_xml (c); }); break;
    case 5: case 6: case 7: case 8: case 22: { iot_data_t * e = NULL; w = steps ([&] { v = iot_data_from_yaml (c, &e); }); if (e) iot_data_free (e); break; }
    case 16: { size_t sz = 0; std::vector<char> o (s.size () + 8); w = steps ([&] { sz = iot_b64_maxdecodesize (c); sz = o.size (); iot_b64_decode (c, o.data (), &sz); v = iot_data_alloc_array_from_base64 (c); std::vector<char> b (4 * s.size ()); iot_b64_encode (c, s.size (), b.data (), b.size ()); }); break; }
    case 17: case 18: { char * o = NULL; w = steps ([&] { o = iot_config_substitute_env (c, NULL); }); ok = o != NULL; free (o); return w; }
    case 19: { static volatile uint32_t h; w = steps ([&] { h = iot_hash (c); h = iot_hash_data ((const uint8_t *) c, s.size ()); v = iot_data_alloc_string (c, IOT_DATA_COPY); h = iot_data_hash (v); iot_data_free (v); v = iot_data_alloc_string_fmt ("%s-%d", c, 4); iot_data_t * k = iot_data_alloc_string (c, IOT_DATA_REF), * b = iot_data_binary_from_string (k); iot_data_free (k); if (b) iot_data_free (b); }); break; }
    case 20: { iot_data_t * d = iot_data_alloc_string (c, IOT_DATA_REF), * b = NULL; w = steps ([&] { b = iot_data_binary_from_string (d); int64_t x; iot_data_cast (d, IOT_DATA_INT64, &x); }); iot_data_free (d); if (b) iot_data_free (b); ok = true; return w; }
    default: { unsigned how = (unsigned) (p.salt >> 8) % 4; w = steps ([&] { v = parse (c, how); }); }
  }
  ok = v != NULL; if (v) iot_data_free (v); return w;
}
static void m_text (Rng & r, uint64_t i)
{
  unsigned kind = (unsigned) (i % DOCS); Par p { 1 + (unsigned) r.below (20), r.next (), true, false, IOT_DATA_INT32 }; unsigned n = 80 + 16 * (unsigned) r.below (r.chance (1, 4) ? 24 : 6);
  setenv ("VH_W", Str (1 + r.below (r.chance (1, 3) ? 60 : 6), 'v').c_str (), 1); const char * nm; Str s = doc (kind, p, 1, &nm); log_op ("%s, n %u", nm, n); bool oka = false, okb = false;
  uint64_t a = twork (kind, p, n, oka), b = twork (kind, p, 16 * n, okb); VH_CHECK (oka == okb, "outcome", "%s: %s with %u parts but %s with sixteen times as many", nm, oka ? "accepted" : "refused", n, okb ? "accepted" : "refused"); if (oka) count ("texts_accepted"); else count ("texts_refused"); judge (a, b, "decoding", nm, n, p);
}
// ---- queues
static void m_queue (Rng & r, uint64_t)
{
  Par p { 4, r.next (), true, false, IOT_DATA_INT32 }; unsigned n = 80 + 16 * (unsigned) r.below (20); unsigned how = (unsigned) r.below (3);
  auto run = [&] (unsigned m) { std::vector<iot_data_t *> d; for (unsigned k = 0; k < m; k++) d.push_back (scalar (p, k)); uint64_t w = steps ([&] { iot_queue_t * q = iot_queue_alloc (how == 1 ? m / 8 : m); if (how == 1) iot_queue_setmaxsize (q, m); for (unsigned k = 0; k < m; k++) { if (how == 2 && k > m / 2) iot_data_free (iot_queue_dequeue (q)); iot_queue_enqueue (q, d[k]); (void) iot_queue_size (q); } iot_queue_setmaxsize (q, m + m / 3); if (p.salt & 1) { iot_data_t * o; while ((o = iot_queue_try_dequeue (q))) iot_data_free (o); } iot_queue_free (q); }); return w; };
  uint64_t a = run (n), b = run (16 * n); judge (a, b, "filling and emptying", how == 0 ? "queue" : how == 1 ? "resized queue" : "wrapped queue", n, p); count ("queues");
}
static const Mode modes[] = { { "value", m_value, false }, { "text", m_text, false }, { "queue", m_queue, false } };
int main (int argc, char ** argv)
{
  uint64_t a = steps ([] { iot_data_t * v = iot_data_alloc_vector (50); for (unsigned k = 0; k < 50; k++) iot_data_vector_add (v, k, iot_data_alloc_ui32 (k)); iot_data_free (v); }); if (a > 200) count ("library_reports_steps");
  return run (argc, argv, modes, 3);
}
