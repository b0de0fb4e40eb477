// Sizes far beyond those the other drivers use: texts, sequences, maps, queues and pools of tens of thousands to hundreds of thousands of elements,
// around the limits of the narrower integer types. Oracles: the standard containers, closed forms, and encoders written here.
#include "jref.hpp"
#include "iot/queue.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"
#include "iot/container.h"
#include "iot/config.h"
#include "iot/base64.h"
#include "iot/file.h"
#include "iot/store.h"
#include "iot/logger.h"
#include <algorithm>
#include <map>
#include <pthread.h>
#include <sys/stat.h>
using namespace vh;
static uint32_t big (Rng & r, uint32_t over = 140000)
{
  static const uint32_t B[] = { 65535, 65536, 65537 }, S[] = { 255, 256, 257, 32767, 32768, 32769, 4095, 4096, 4097 };
  switch (r.below (6)) { case 0: return r.pick (B); case 1: return r.pick (S); case 2: return 65538 + (uint32_t) r.below (over); default: return 65538 + (uint32_t) r.below (3000); }
}
static std::string chars (Rng & r, size_t n, const char * from) { size_t k = strlen (from); std::string s (n, 0); for (auto & c : s) c = from[r.below (k)]; return s; }
static std::string bytes (Rng & r, size_t n) { std::string s (n, 0); for (auto & c : s) c = (char) r.next (); return s; }
static const char PLAIN[] = "abcdefghijklmnopqrstuvwxyz0123456789 .-_";
static void done (const char * what, uint64_t n, uint64_t h = 0) { count ("large_cases"); count ("elements_handled", n); distinct (Rng::mix (n * 31 + h) ^ hash_bytes (what, strlen (what))); evaluation (); if (want_sample ()) show ("%s of %llu", what, (unsigned long long) n); }
static iot_data_t * istr (const std::string & s) { return iot_data_alloc_string (s.c_str (), IOT_DATA_COPY); }
// ---- C07
static iot_data_t * mkey (bool text, uint64_t k) { return text ? istr ("key" + std::to_string (k)) : iot_data_alloc_ui64 (k); }
static void m_map (Rng & r, uint64_t)
{
  bool text = r.chance (1, 2); uint32_t n = big (r, 60000); std::vector<uint32_t> order (n); for (uint32_t k = 0; k < n; k++) order[k] = k;
  int how = (int) r.below (3); if (how == 1) std::reverse (order.begin (), order.end ()); if (how == 2) for (uint32_t k = n; k > 1; k--) std::swap (order[k - 1], order[r.below (k)]);
  log_op ("map of %u %s keys, order %d", n, text ? "text" : "integer", how);
  iot_data_t * m = iot_data_alloc_map (text ? IOT_DATA_STRING : IOT_DATA_UINT64); std::vector<bool> in (n);
  for (uint32_t k : order) { iot_data_map_add (m, mkey (text, k), iot_data_alloc_ui32 (k)); in[k] = true; if (!(k & 4095)) progress (); }
  size_t size = n;
  auto check = [&] (const char * when)
  {
    VH_CHECK (iot_data_map_size (m) == size, "large-map", "%s: size %u, expected %zu", when, iot_data_map_size (m), size);
    iot_data_map_iter_t it; iot_data_map_iter (m, &it); size_t seen = 0; const iot_data_t * last = NULL; std::vector<bool> got (n);
    while (iot_data_map_iter_next (&it)) { const iot_data_t * k = iot_data_map_iter_key (&it); uint32_t v = iot_data_ui32 (iot_data_map_iter_value (&it)); VH_CHECK (v < n && in[v] && !got[v], "large-map", "%s: value %u visited again or absent", when, v); got[v] = true; seen++; VH_CHECK (!last || iot_data_compare (last, k) < 0, "large-map", "%s: keys out of order", when); last = k; }
    VH_CHECK (seen == size, "large-map", "%s: %zu entries visited of %zu", when, seen, size);
    while (iot_data_map_iter_prev (&it)) seen--;
    VH_CHECK (seen == 0, "large-map", "%s: %zu entries not visited backwards", when, seen); progress ();
    for (int q = 0; q < 300; q++) { uint32_t k = (uint32_t) r.below (n + 3); iot_data_t * key = mkey (text, k); const iot_data_t * v = iot_data_map_get (m, key); VH_CHECK (k < n && in[k] ? v && iot_data_ui32 (v) == k : !v, "large-map", "%s: lookup of %u", when, k); iot_data_free (key); }
    evaluation (300 + size);
  };
  check ("filled"); iot_data_t * c = iot_data_copy (m); VH_CHECK (iot_data_equal (c, m) && iot_data_hash (c) == iot_data_hash (m) && iot_data_compare (c, m) == 0, "large-map", "a copy differs"); progress ();
  unsigned part = 1 + (unsigned) r.below (8); for (uint32_t k = 0; k < n; k++) if (part == 8 ? k > 2 : r.chance (part, 8)) { iot_data_t * key = mkey (text, k); VH_CHECK (iot_data_map_remove (m, key), "large-map", "%u not removed", k); iot_data_free (key); in[k] = false; size--; }
  check ("thinned"); VH_CHECK (size == n || !iot_data_equal (c, m), "large-map", "equal to the copy after removals"); iot_data_free (c); iot_data_free (m); done (text ? "map of text keys" : "map of integer keys", n, (uint64_t) how * 9 + part);
}
// ---- C08
static void m_seq (Rng & r, uint64_t)
{
  uint32_t n = big (r); bool list = r.chance (1, 2); log_op ("%s of %u", list ? "list" : "vector", n);
  if (list)
  {
    iot_data_t * l = iot_data_alloc_list (); std::vector<uint32_t> front, back; // front reversed, then back
    for (uint32_t k = 0; k < n; k++) { iot_data_t * v = iot_data_alloc_ui32 (k); if (r.chance (1, 2)) { iot_data_list_tail_push (l, v); front.push_back (k); } else { iot_data_list_head_push (l, v); back.push_back (k); } }
    std::vector<uint32_t> want (front.rbegin (), front.rend ()); want.insert (want.end (), back.begin (), back.end ());
    auto check = [&] (const char * when)
    {
      VH_CHECK (iot_data_list_length (l) == want.size (), "large-list", "%s: length %u, expected %zu", when, iot_data_list_length (l), want.size ());
      iot_data_list_iter_t it; iot_data_list_iter (l, &it); size_t k = 0; while (iot_data_list_iter_next (&it)) { VH_CHECK (k < want.size () && iot_data_ui32 (iot_data_list_iter_value (&it)) == want[k], "large-list", "%s: element %zu differs", when, k); k++; }
      VH_CHECK (k == want.size (), "large-list", "%s: %zu visited", when, k); while (iot_data_list_iter_prev (&it)) k--; VH_CHECK (k == 0, "large-list", "%s: %zu not visited backwards", when, k); evaluation (want.size ());
    };
    check ("filled"); iot_data_list_iter_t it; iot_data_list_iter (l, &it); std::vector<uint32_t> left; unsigned one = 2 + (unsigned) r.below (40); while (iot_data_list_iter_next (&it)) { uint32_t v = iot_data_ui32 (iot_data_list_iter_value (&it)); if (v % one == 1) iot_data_list_iter_remove (&it); else left.push_back (v); }
    want.swap (left); check ("thinned");
    for (int k = 0; k < 50 && !want.empty (); k++) { bool t = r.chance (1, 2); iot_data_t * v = t ? iot_data_list_tail_pop (l) : iot_data_list_head_pop (l); VH_CHECK (v && iot_data_ui32 (v) == (t ? want.front () : want.back ()), "large-list", "popped element differs"); iot_data_free (v); if (t) want.erase (want.begin ()); else want.pop_back (); }
    check ("popped"); iot_data_free (l);
  }
  else
  {
    iot_data_t * v = iot_data_alloc_vector (r.chance (1, 2) ? n : (uint32_t) r.below (n)); uint32_t at = iot_data_vector_size (v); if (at < n) { if (r.chance (1, 2)) iot_data_vector_resize (v, at + (n - at) / 2); iot_data_vector_resize (v, n); }
    VH_CHECK (iot_data_vector_size (v) == n, "large-vector", "size %u, expected %u", iot_data_vector_size (v), n); unsigned hole = 2 + (unsigned) r.below (30); uint32_t held = 0, texts = 0;
    for (uint32_t k = 0; k < n; k++) if (k % hole) { bool t = k % 7 == 3; iot_data_vector_add (v, k, t ? istr (std::to_string (k)) : iot_data_alloc_ui32 (k)); held++; texts += t; }
    auto check = [&] (const iot_data_t * e, uint32_t k) { bool t = k % 7 == 3; VH_CHECK (k % hole ? e && (t ? iot_data_type (e) == IOT_DATA_STRING && std::to_string (k) == iot_data_string (e) : iot_data_type (e) == IOT_DATA_UINT32 && iot_data_ui32 (e) == k) : !e, "large-vector", "element %u differs", k); };
    for (uint32_t k = 0; k < n; k++) check (iot_data_vector_get (v, k), k);
    iot_data_vector_iter_t it; iot_data_vector_iter (v, &it); uint32_t c = 0; while (iot_data_vector_iter_next (&it)) { VH_CHECK (iot_data_vector_iter_index (&it) == c, "large-vector", "index %u at position %u", iot_data_vector_iter_index (&it), c); check (iot_data_vector_iter_value (&it), c); c++; } VH_CHECK (c == n, "large-vector", "%u visited of %u", c, n); while (iot_data_vector_iter_prev (&it)) c--; VH_CHECK (!c, "large-vector", "%u not visited backwards", c);
    VH_CHECK (iot_data_vector_element_count (v, IOT_DATA_MULTI, false) == held && iot_data_vector_element_count (v, IOT_DATA_STRING, false) == texts && iot_data_vector_element_count (v, IOT_DATA_UINT32, true) == held - texts, "large-vector", "counts differ");
    iot_data_t * a = iot_data_vector_to_array (v, IOT_DATA_UINT32, false); VH_CHECK (iot_data_array_length (a) == held - texts && iot_data_array_size (a) == (held - texts) * 4, "large-array", "array of %u, expected %u", iot_data_array_length (a), held - texts); uint32_t j = 0; iot_data_array_iter_t ai; iot_data_array_iter (a, &ai);
    for (uint32_t k = 0; k < n; k++) if (k % hole && k % 7 != 3) { VH_CHECK (*(uint32_t *) iot_data_array_get (a, j) == k && iot_data_array_iter_next (&ai) && iot_data_array_iter_index (&ai) == j && *(const uint32_t *) iot_data_array_iter_value (&ai) == k, "large-array", "element %u differs", j); j++; } VH_CHECK (!iot_data_array_iter_next (&ai), "large-array", "more elements than %u", j); iot_data_free (a);
    {
      static const iot_data_type_t T[] = { IOT_DATA_UINT8, IOT_DATA_UINT16, IOT_DATA_UINT32, IOT_DATA_UINT64 }; uint32_t w = (uint32_t) r.below (4), u = 1u << w; std::string raw = bytes (r, (size_t) n * u); a = iot_data_alloc_array ((void *) raw.data (), n, T[w], r.chance (1, 2) ? IOT_DATA_COPY : IOT_DATA_REF); j = 0; iot_data_array_iter (a, &ai);
      VH_CHECK (iot_data_array_length (a) == n && iot_data_array_size (a) == n * u, "large-array", "array of %u elements of %u bytes, expected %u", iot_data_array_length (a), iot_data_array_size (a), n);
      while (iot_data_array_iter_next (&ai)) { VH_CHECK (j < n && iot_data_array_iter_index (&ai) == j && !memcmp (iot_data_array_iter_value (&ai), raw.data () + (size_t) j * u, u) && !memcmp (iot_data_array_get (a, j), raw.data () + (size_t) j * u, u), "large-array", "element %u differs", j); j++; } VH_CHECK (j == n, "large-array", "%u visited of %u", j, n);
      while (iot_data_array_iter_prev (&ai)) j--; VH_CHECK (!j, "large-array", "%u not visited backwards", j); iot_data_free (a);
    }
    VH_CHECK (iot_data_vector_compact (v) == held && iot_data_vector_size (v) == held, "large-vector", "compacted to %u of %u", iot_data_vector_size (v), held); j = 0; for (uint32_t k = 0; k < n; k++) if (k % hole) check (iot_data_vector_get (v, j++), k);
    uint32_t less = (uint32_t) r.below (held + 1); iot_data_vector_resize (v, less); VH_CHECK (iot_data_vector_size (v) == less, "large-vector", "size after shrinking"); iot_data_free (v); evaluation (3ull * n);
  }
  done (list ? "list" : "vector", n);
}
// ---- C09, C11: one long value and a neighbour that differs near its end
static iot_data_t * longv (int kind, uint32_t n, uint32_t odd, uint32_t salt)
{
  auto b = [&] (uint32_t k) { uint64_t z = Rng::mix (k * 77ull + salt); return (uint8_t) (k == odd ? ~z : z); };
  switch (kind)
  {
    case 0: { std::string s (n, 0); for (uint32_t k = 0; k < n; k++) s[k] = (char) ('0' + b (k) % 64 + (k == odd)); return istr (s); }
    case 1: case 2: { std::string s (n, 0); for (uint32_t k = 0; k < n; k++) s[k] = (char) b (k); return kind == 1 ? iot_data_alloc_binary ((void *) s.data (), n, IOT_DATA_COPY) : iot_data_alloc_array ((void *) s.data (), n / 4, IOT_DATA_UINT32, IOT_DATA_COPY); }
    case 3: { iot_data_t * v = iot_data_alloc_vector (n); for (uint32_t k = 0; k < n; k++) iot_data_vector_add (v, k, iot_data_alloc_ui8 (b (k))); return v; }
    case 4: { iot_data_t * v = iot_data_alloc_list (); for (uint32_t k = 0; k < n; k++) iot_data_list_tail_push (v, iot_data_alloc_ui8 (b (k))); return v; }
    default: { iot_data_t * v = iot_data_alloc_map (IOT_DATA_UINT32); for (uint32_t k = 0; k < n; k++) iot_data_map_add (v, iot_data_alloc_ui32 (k), iot_data_alloc_ui8 (b (k))); return v; }
  }
}
static void m_value (Rng & r, uint64_t)
{
  static const char * K[] = { "text", "binary", "array", "vector", "list", "map" }; int kind = (int) r.below (6); uint32_t n = big (r), salt = (uint32_t) r.below (1000), odd = r.chance (1, 2) ? n / 4 * 4 - 1 : n > 65540 ? 65536 + (uint32_t) r.below (n / 4 * 4 - 65536) : (uint32_t) r.below (n / 4 * 4); log_op ("%s of %u, different at %u", K[kind], n, odd);
  iot_data_t * a = longv (kind, n, UINT32_MAX, salt), * b = longv (kind, n, UINT32_MAX, salt), * c = longv (kind, n, odd, salt); uint64_t live = iot_data_ref_count (a); progress ();
  VH_CHECK (iot_data_equal (a, b) && iot_data_compare (a, b) == 0 && iot_data_hash (a) == iot_data_hash (b) && iot_data_equal_value (a, b), "large-equal", "two %ss of %u built alike differ", K[kind], n);
  int ac = iot_data_compare (a, c), ca = iot_data_compare (c, a); VH_CHECK (ac && ca && (ac < 0) == (ca > 0) && !iot_data_equal (a, c), "large-equal", "%s of %u with element %u different: compare %d and %d", K[kind], n, odd, ac, ca); progress ();
  iot_data_t * d = iot_data_copy (c), * e = iot_data_shallow_copy (c); VH_CHECK (iot_data_equal (c, d) && iot_data_equal (e, c) && iot_data_compare (d, a) * (double) ca > 0, "large-copy", "copy of a %s of %u differs", K[kind], n); VH_CHECK (iot_data_ref_count (a) == live, "large-copy", "reference count changed");
  iot_data_free (c); VH_CHECK (iot_data_equal (d, e), "large-copy", "copies differ once the original is gone"); if (kind >= 3) { iot_data_compress (d); VH_CHECK (iot_data_equal (d, e), "large-compress", "%s of %u differs once compressed", K[kind], n); }
  iot_data_free (a); iot_data_free (b); iot_data_free (d); iot_data_free (e); done (K[kind], n, odd);
}
// ---- C02, C03
static void m_json (Rng & r, uint64_t)
{
  int kind = (int) r.below (6); uint32_t n = big (r, 60000); std::string want; iot_data_t * v, * back = NULL; log_op ("json kind %d of %u", kind, n);
  switch (kind)
  {
    case 0: case 1: { std::string s = kind ? bytes (r, n) : std::string (); want = "\""; if (kind == 0) for (uint32_t k = 0; k < n; k++) { char c = r.chance (1, 9) ? "\"\\\n\t"[r.below (4)] : PLAIN[r.below (sizeof PLAIN - 1)]; s += c; if (c == '"' || c == '\\') want += '\\', want += c; else if (c == '\n') want += "\\n"; else if (c == '\t') want += "\\t"; else want += c; } else want += ref_b64 (s); want += '"'; v = kind ? iot_data_alloc_binary ((void *) s.data (), n, IOT_DATA_COPY) : istr (s); back = kind ? istr (ref_b64 (s)) : istr (s); break; }
    case 2: { std::vector<uint16_t> a (n); v = NULL; want = "["; back = iot_data_alloc_vector (n); for (uint32_t k = 0; k < n; k++) { a[k] = (uint16_t) r.next (); want += (k ? "," : "") + std::to_string (a[k]); iot_data_vector_add (back, k, iot_data_alloc_i64 (a[k])); } want += "]"; v = iot_data_alloc_array (a.data (), n, IOT_DATA_UINT16, IOT_DATA_COPY); break; }
    case 3: case 4: { v = kind == 3 ? iot_data_alloc_vector (n) : iot_data_alloc_list (); back = iot_data_alloc_vector (n); want = "["; for (uint32_t k = 0; k < n; k++) { int64_t x = (int64_t) r.next () >> r.below (60); bool b = r.chance (1, 10); iot_data_t * e = b ? iot_data_alloc_bool (x & 1) : iot_data_alloc_i64 (x); if (kind == 3) iot_data_vector_add (v, k, e); else iot_data_list_head_push (v, e); iot_data_vector_add (back, k, iot_data_add_ref (e)); want += (k ? "," : ""); want += b ? (x & 1 ? "true" : "false") : std::to_string (x); } want += "]"; break; }
    default: { v = iot_data_alloc_map (IOT_DATA_STRING); std::map<std::string, uint32_t> m; for (uint32_t k = 0; k < n; k++) m["m" + std::to_string (r.below (10 * n))] = k; for (auto & kv : m) iot_data_map_add (v, istr (kv.first), iot_data_alloc_i64 (kv.second)); back = iot_data_add_ref (v); break; }
  }
  progress (); char * t = iot_data_to_json (v); std::string text; // white space between elements is not prescribed
  if (kind < 2) text = t; else for (char * p = t; *p; p++) if (*p != ' ' && *p != '\n') text += *p;
  if (kind < 5) { size_t k = 0; while (k < text.size () && k < want.size () && text[k] == want[k]) k++; VH_CHECK (text == want, "large-json", "text of %zu characters, expected %zu, differs at %zu: %s", text.size (), want.size (), k, quote (text.substr (k, 40)).c_str ()); }
  size_t len = strlen (t); std::string buf (len + 1, 'x'); VH_CHECK (iot_data_to_json_with_buffer (v, &buf[0], (uint32_t) len + 1) && buf.c_str () == std::string (t), "large-json", "text written to a buffer of exactly its size differs");
  char * u = iot_data_to_json_with_size (v, 1 + (uint32_t) r.below (len)); VH_CHECK (!strcmp (u, t), "large-json", "text depends on the initial size"); free (u); progress ();
  iot_data_t * w = iot_data_from_json (t); VH_CHECK (w && iot_data_equal (w, back), "large-json", "decoded value differs from what was encoded"); char * t2 = iot_data_to_json (w); VH_CHECK (kind == 1 || kind == 2 || !strcmp (t, t2), "large-json", "encoding the decoded value gives other text");
  free (t2); free (t); iot_data_free (v); iot_data_free (w); iot_data_free (back); done ("JSON text", len, (uint64_t) kind);
}
// ---- C04: kinds with a counted head
static void m_cbor (Rng & r, uint64_t)
{
  int kind = (int) r.below (5); uint32_t n = big (r, 60000); std::string want; auto head = [&] (int major, uint32_t k) { if (k < 24) want += (char) (major << 5 | (int) k); else if (k < 256) { want += (char) (major << 5 | 24); want += (char) k; } else if (k < 65536) { want += (char) (major << 5 | 25); want += (char) (k >> 8); want += (char) k; } else { want += (char) (major << 5 | 26); for (int s = 24; s >= 0; s -= 8) want += (char) (k >> s); } };
  iot_data_t * v; log_op ("cbor kind %d of %u", kind, n);
  switch (kind)
  {
    case 0: { std::string s = chars (r, n, PLAIN); v = istr (s); head (3, n); want += s; break; }
    case 1: { std::string s = bytes (r, n); v = iot_data_alloc_binary ((void *) s.data (), n, IOT_DATA_COPY); head (2, n); want += s; break; }
    case 2: case 3: { v = kind == 2 ? iot_data_alloc_vector (n) : iot_data_alloc_list (); head (4, n); for (uint32_t k = 0; k < n; k++) { iot_data_t * e = iot_data_alloc_ui32 (k); head (0, k); if (kind == 2) iot_data_vector_add (v, k, e); else iot_data_list_head_push (v, e); } break; }
    default: { v = iot_data_alloc_map (IOT_DATA_UINT32); head (5, n); for (uint32_t k = 0; k < n; k++) { iot_data_map_add (v, iot_data_alloc_ui32 (k), iot_data_alloc_bool (k & 1)); head (0, k); want += k & 1 ? '\xf5' : '\xf4'; } break; }
  }
  iot_data_t * c = iot_data_to_cbor (v); uint32_t size = iot_data_array_size (c); size_t k = 0; const char * p = (const char *) iot_data_address (c); while (k < size && k < want.size () && p[k] == want[k]) k++;
  VH_CHECK (size == want.size () && k == size, "large-cbor", "kind %d: %u bytes, expected %zu, differ at %zu", kind, size, want.size (), k); iot_data_free (c); iot_data_free (v); done ("CBOR item", size, (uint64_t) kind);
}
// ---- C05
static const iot_data_t * at (const iot_data_t * m, const char * k) { const iot_data_t * v = m && iot_data_type (m) == IOT_DATA_MAP ? iot_data_string_map_get (m, k) : NULL; return v; }
static void m_markup (Rng & r, uint64_t)
{
  uint32_t n = big (r, 60000); int kind = (int) r.below (7); std::string doc, s; log_op ("markup kind %d of %u", kind, n);
  if (kind < 4)
  {
    uint32_t kids = kind == 2 ? n : 3; if (kind == 0 || kind == 1) s = chars (r, n, PLAIN);
    doc = "<root a='"; if (kind == 1) doc += s; doc += "'>"; if (kind == 0) doc += "<c>" + s + "</c>"; else for (uint32_t k = 0; k < kids; k++) doc += "<c>" + std::to_string (k) + "</c>"; if (kind == 3) for (uint32_t k = 0; k < n; k++) doc += k & 1 ? "&lt;" : "&#66;"; doc += "</root>";
    iot_data_t * v = iot_data_from_xml (doc.c_str ()); progress (); VH_CHECK (v, "large-xml", "document of %zu characters refused", doc.size ());
    const iot_data_t * at_ = at (v, "attributes"), * ch = at (v, "children"); VH_CHECK (at (v, "name") && !strcmp (iot_data_string (at (v, "name")), "root"), "large-xml", "name of the root");
    if (kind == 1) { const iot_data_t * a = at (at_, "a"); VH_CHECK (a && s == iot_data_string (a), "large-xml", "attribute value of %u characters differs", n); }
    if (kind == 3) { std::string want; for (uint32_t k = 0; k < n; k++) want += k & 1 ? '<' : 'B'; const iot_data_t * c = at (v, "content"); VH_CHECK (c && want == iot_data_string (c), "large-xml", "content of %u characters differs", n); }
    uint32_t got = 0; VH_CHECK (ch, "large-xml", "no children"); bool l = iot_data_type (ch) == IOT_DATA_LIST; iot_data_list_iter_t li; iot_data_vector_iter_t vi; if (l) iot_data_list_iter (ch, &li); else iot_data_vector_iter (ch, &vi);
    while (l ? iot_data_list_iter_next (&li) : iot_data_vector_iter_next (&vi)) { const iot_data_t * c = at (l ? iot_data_list_iter_value (&li) : iot_data_vector_iter_value (&vi), "content"); VH_CHECK (c && (kind == 0 ? s : std::to_string (got)) == iot_data_string (c), "large-xml", "child %u differs", got); got++; } VH_CHECK (got == (kind == 0 ? 1 : kids), "large-xml", "%u children", got); iot_data_free (v);
  }
  else
  {
    n = std::min (n, 90000u); if (kind == 6) { s = chars (r, n, "abcdefgh") ; doc = "k: \"" + s + "\"\n"; } else for (uint32_t k = 0; k < n; k++) doc += kind == 4 ? "- " + std::to_string (k) + "\n" : "k" + std::to_string (k) + ": " + std::to_string (k) + "\n";
    iot_data_t * ex = NULL, * v = iot_data_from_yaml (doc.c_str (), &ex); progress (); VH_CHECK (v && !ex, "large-yaml", "document of %zu characters refused", doc.size ());
    if (kind == 6) { VH_CHECK (at (v, "k") && s == iot_data_string (at (v, "k")), "large-yaml", "text of %u characters differs", n); }
    else if (kind == 4) { VH_CHECK (iot_data_type (v) == IOT_DATA_VECTOR && iot_data_vector_size (v) == n, "large-yaml", "%u elements", n); for (uint32_t k = 0; k < n; k++) { uint64_t x = 0; VH_CHECK (iot_data_cast (iot_data_vector_get (v, k), IOT_DATA_UINT64, &x) && x == k, "large-yaml", "element %u differs", k); } }
    else { VH_CHECK (iot_data_type (v) == IOT_DATA_MAP && iot_data_map_size (v) == n, "large-yaml", "%u entries", n); for (uint32_t k = 0; k < n; k += 1 + (uint32_t) r.below (9)) { uint64_t x = 0; const iot_data_t * e = at (v, ("k" + std::to_string (k)).c_str ()); VH_CHECK (e && iot_data_cast (e, IOT_DATA_UINT64, &x) && x == k, "large-yaml", "entry %u differs", k); } }
    iot_data_free (v);
  }
  done (kind < 4 ? "XML document" : "YAML document", doc.size (), (uint64_t) kind);
}
// ---- C06
static void m_b64 (Rng & r, uint64_t)
{
  uint32_t n = big (r); std::string s = bytes (r, n), want = ref_b64 (s); log_op ("base64 of %u", n); size_t sz = iot_b64_encodesize (n); VH_CHECK (sz == want.size () + 1, "large-b64", "encoded size %zu, expected %zu", sz, want.size () + 1);
  std::string out (sz + 8, '#'); VH_CHECK (iot_b64_encode (s.data (), n, &out[0], sz) && want == out.c_str () && out.substr (sz) == "########", "large-b64", "encoding of %u bytes differs", n);
  size_t len = iot_b64_maxdecodesize (want.c_str ()); VH_CHECK (len >= n && len <= n + 3, "large-b64", "decoded size at most %zu for %u bytes", len, n); std::string back (len, 0); VH_CHECK (iot_b64_decode (want.c_str (), &back[0], &len) && len == n && !memcmp (back.data (), s.data (), n), "large-b64", "decoding gives %zu bytes of %u, or others", len, n);
  iot_data_t * a = iot_data_alloc_array_from_base64 (want.c_str ()); VH_CHECK (a && iot_data_array_length (a) == n && !memcmp (iot_data_address (a), s.data (), n), "large-b64", "array value differs"); iot_data_free (a);
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING), * key = istr ("k"); iot_data_string_map_add (m, "k", istr (want)); VH_CHECK (iot_data_map_base64_to_array (m, key), "large-b64", "map member refused"); const iot_data_t * x = iot_data_string_map_get (m, "k"); VH_CHECK (iot_data_array_length (x) == n && !memcmp (iot_data_address (x), s.data (), n), "large-b64", "map member differs"); iot_data_free (m); iot_data_free (key);
  iot_data_t * b = iot_data_alloc_binary ((void *) s.data (), n, IOT_DATA_COPY); uint32_t tl = 0; void * p = iot_data_binary_take (b, &tl); VH_CHECK (p && tl == n && !memcmp (p, s.data (), n), "large-b64", "bytes taken differ"); free (p); iot_data_free (b);
  iot_data_t * t = istr (want), * bt = iot_data_binary_from_string (t), * tb = iot_data_string_from_binary (bt); VH_CHECK (iot_data_array_length (bt) == want.size () && !memcmp (iot_data_address (bt), want.data (), want.size ()) && iot_data_equal (t, tb), "large-b64", "string and binary differ"); iot_data_free (t); iot_data_free (bt); iot_data_free (tb); done ("base64 text", want.size ());
}
// ---- C12
static void m_num (Rng & r, uint64_t)
{
  uint32_t n = big (r); std::vector<int32_t> a (n); for (auto & x : a) x = (int32_t) r.next () >> r.below (31); log_op ("numbers: %u", n); std::vector<int8_t> want; for (auto x : a) if (x >= -128 && x <= 127) want.push_back ((int8_t) x);
  iot_data_t * d = iot_data_alloc_array (a.data (), n, IOT_DATA_INT32, IOT_DATA_COPY), * t = iot_data_array_transform (d, IOT_DATA_INT8); VH_CHECK (iot_data_array_length (t) == want.size () && (want.empty () || !memcmp (iot_data_address (t), want.data (), want.size ())), "large-numbers", "%u of %zu elements convert, or differ", iot_data_array_length (t), want.size ()); iot_data_free (t);
  iot_data_t * v = iot_data_alloc_vector (2), * p[2]; uint32_t cut = (uint32_t) r.below (n + 1); for (int k = 0; k < 2; k++) { uint32_t lo = k ? cut : 0, hi = k ? n : cut; p[k] = iot_data_alloc_vector (hi - lo); for (uint32_t j = lo; j < hi; j++) iot_data_vector_add (p[k], j - lo, iot_data_alloc_i32 (a[j])); iot_data_vector_add (v, (uint32_t) k, p[k]); }
  t = iot_data_vector_to_array (v, IOT_DATA_INT8, true); VH_CHECK (iot_data_array_length (t) == want.size () && (want.empty () || !memcmp (iot_data_address (t), want.data (), want.size ())), "large-numbers", "nested vectors: %u of %zu elements convert, or differ", iot_data_array_length (t), want.size ()); iot_data_free (t);
  t = iot_data_vector_to_vector (v, IOT_DATA_INT8, true); VH_CHECK (iot_data_vector_size (t) == want.size (), "large-numbers", "vector of %u, expected %zu", iot_data_vector_size (t), want.size ()); for (uint32_t k = 0; k < want.size (); k++) VH_CHECK (iot_data_i8 (iot_data_vector_get (t, k)) == want[k], "large-numbers", "element %u differs", k);
  iot_data_free (t); iot_data_free (v); iot_data_free (d); done ("numbers", n, cut);
}
// ---- C14
static void m_queue (Rng & r, uint64_t)
{
  uint32_t n = big (r), max = r.chance (1, 3) ? 0 : n; log_op ("queue of %u, maximum %u", n, max); iot_queue_t * q = iot_queue_alloc (max); uint64_t in = 0, out = 0; VH_CHECK (iot_queue_maxsize (q) == max, "large-queue", "maximum");
  auto put = [&] { iot_data_t * d = iot_data_alloc_ui64 (in); if (r.chance (1, 2)) iot_queue_enqueue (q, d); else { bool ok = iot_queue_try_enqueue (q, d); VH_CHECK (ok, "large-queue", "refused at length %llu, maximum %u", (unsigned long long) (in - out), max); } in++; }; auto get = [&] { iot_data_t * d = r.chance (1, 2) ? iot_queue_dequeue (q) : iot_queue_try_dequeue (q); VH_CHECK (d && iot_data_ui64 (d) == out, "large-queue", "item %llu is missing", (unsigned long long) out); iot_data_free (d); out++; }; auto size = [&] { VH_CHECK (iot_queue_size (q) == in - out, "large-queue", "length %u, expected %llu", iot_queue_size (q), (unsigned long long) (in - out)); };
  while (in < n) { put (); if (!(in % 997)) size (); } size (); if (max) { iot_data_t * d = iot_data_alloc_ui64 (0); VH_CHECK (!iot_queue_try_enqueue (q, d), "large-queue", "accepted beyond its maximum of %u", max); iot_data_free (d); }
  uint32_t turns = (uint32_t) r.below (2 * n); for (uint32_t k = 0; k < turns; k++) { get (); put (); } size (); uint32_t leave = (uint32_t) r.below (n); while (in - out > leave) get (); size (); iot_queue_free (q); done ("queue", n, turns);
}
// ---- C15, C16
struct Gate { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; bool open = false; std::vector<uint32_t> ran; uint32_t inside = 0, peak = 0; };
static Gate * g_gate;
static void * wait_gate (void *) { Gate * g = g_gate; pthread_mutex_lock (&g->m); g->inside++; if (g->inside > g->peak) g->peak = g->inside; pthread_cond_broadcast (&g->c); while (!g->open) pthread_cond_wait (&g->c, &g->m); g->inside--; pthread_mutex_unlock (&g->m); return NULL; }
static void * note (void * p) { Gate * g = g_gate; pthread_mutex_lock (&g->m); g->ran.push_back ((uint32_t) (uintptr_t) p); pthread_mutex_unlock (&g->m); return NULL; }
static void m_pool (Rng & r, uint64_t)
{
  bool many = r.chance (1, 8); Gate g; g_gate = &g; auto open = [&] { pthread_mutex_lock (&g.m); g.open = true; pthread_cond_broadcast (&g.c); pthread_mutex_unlock (&g.m); };
  if (many)
  { // more threads than a byte counts
    unsigned t = 250 + (unsigned) r.below (20); log_op ("pool of %u threads", t); iot_threadpool_t * p = iot_threadpool_alloc ((uint16_t) t, 0, -1, -1, NULL); iot_threadpool_start (p); for (unsigned k = 0; k < t; k++) iot_threadpool_add_work (p, wait_gate, NULL, -1);
    pthread_mutex_lock (&g.m); while (g.inside < t) pthread_cond_wait (&g.c, &g.m); pthread_mutex_unlock (&g.m); open (); iot_threadpool_wait (p); VH_CHECK (g.inside == 0 && g.peak == t, "large-pool", "%u of %u jobs at once", g.peak, t); iot_threadpool_free (p); done ("pool threads", t); return;
  }
  uint32_t n = big (r, 30000), max = r.chance (1, 3) ? 0 : n; log_op ("pool of 1 thread, %u jobs, limit %u", n, max); iot_threadpool_t * p = iot_threadpool_alloc (1, max, -1, -1, NULL); iot_threadpool_start (p);
  iot_threadpool_add_work (p, wait_gate, NULL, -1); pthread_mutex_lock (&g.m); while (!g.inside) pthread_cond_wait (&g.c, &g.m); pthread_mutex_unlock (&g.m); g.ran.reserve (n + 8);
  for (uint32_t k = 0; k < n; k++) { if (r.chance (1, 2)) iot_threadpool_add_work (p, note, (void *) (uintptr_t) k, -1); else VH_CHECK (iot_threadpool_try_work (p, note, (void *) (uintptr_t) k, -1), "large-pool", "job %u of at most %u refused", k, max); if (!(k & 1023)) progress (); }
  if (max) VH_CHECK (!iot_threadpool_try_work (p, note, NULL, -1), "large-pool", "a job beyond the limit of %u accepted", max);
  open (); iot_threadpool_wait (p); VH_CHECK (g.ran.size () == n, "large-pool", "%zu of %u jobs ran", g.ran.size (), n); for (uint32_t k = 0; k < n; k++) VH_CHECK (g.ran[k] == k, "large-pool", "job %u ran in place %u", g.ran[k], k); iot_threadpool_free (p); done ("pool jobs", n); evaluation (n);
}
// ---- C17: each of many schedules runs as often as it should
static std::vector<uint8_t> * g_runs; static std::atomic<uint64_t> g_total, g_freed;
static void * sched_run (void * p) { (*g_runs)[(uintptr_t) p]++; g_total++; return NULL; }
static void sched_free (void *) { g_freed++; }
static void m_sched (Rng & r, uint64_t)
{
  uint32_t n = r.chance (1, 3) ? 65530 + (uint32_t) r.below (3000) : 300 + (uint32_t) r.below (3000); std::vector<uint8_t> runs (n); g_runs = &runs; g_total = g_freed = 0; log_op ("%u schedules", n); iot_scheduler_t * s = iot_scheduler_alloc (-1, -1, NULL); std::vector<iot_schedule_t *> v (n); uint64_t last = 0, want = 0;
  for (uint32_t k = 0; k < n; k++) { unsigned times = 1 + k % 3; v[k] = iot_schedule_create (s, sched_run, sched_free, (void *) (uintptr_t) k, IOT_MS_TO_NS (1) + k, r.below (1000), times, NULL, -1); VH_CHECK (v[k] && (k == 0 || iot_schedule_id (v[k]) > last), "large-scheduler", "schedule identifier %llu after %llu", (unsigned long long) iot_schedule_id (v[k]), (unsigned long long) last); last = iot_schedule_id (v[k]); VH_CHECK (iot_schedule_add (s, v[k]), "large-scheduler", "schedule %u not added", k); want += times; if (!(k & 1023)) progress (); }
  iot_scheduler_start (s); uint64_t t0 = now_ns (); while (g_total < want && now_ns () - t0 < 60000000000ull) { usleep (1000); progress (); } usleep (5000); iot_scheduler_stop (s);
  VH_CHECK (g_total == want, "large-scheduler", "%llu runs of %u schedules, expected %llu", (unsigned long long) g_total.load (), n, (unsigned long long) want); for (uint32_t k = 0; k < n; k++) VH_CHECK (runs[k] == 1 + k % 3, "large-scheduler", "schedule %u ran %u times", k, runs[k]);
  uint32_t gone = (uint32_t) r.below (n); for (uint32_t k = 0; k < gone; k++) iot_schedule_delete (s, v[k]); VH_CHECK (g_freed == gone, "large-scheduler", "%llu arguments released of %u", (unsigned long long) g_freed.load (), gone); iot_scheduler_free (s); VH_CHECK (g_freed == n, "large-scheduler", "%llu arguments released of %u at the end", (unsigned long long) g_freed.load (), n); done ("schedules", n, gone); evaluation (n);
}
// ---- C22
static void m_env (Rng & r, uint64_t)
{
  uint32_t n = big (r, 60000); std::string val = chars (r, r.chance (1, 2) ? n : r.below (5000), PLAIN), s, want; setenv ("VH_LARGE", val.c_str (), 1); log_op ("environment value of %zu", val.size ()); while (s.size () < n) { std::string t = chars (r, r.below (20000), PLAIN); s += t; want += t; if (r.chance (1, 2) && want.size () < 3000000) { s += "${VH_LARGE}"; want += val; } }
  char * out = iot_config_substitute_env (s.c_str (), NULL); VH_CHECK (out && want == out, "large-substitution", "text of %zu with values of %zu: %s", s.size (), val.size (), out ? "differs" : "refused"); free (out); iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m, "k", istr (want)); const char * g = iot_config_string (m, "k", true, NULL); VH_CHECK (g && want == g, "large-substitution", "text of %zu read back differs", want.size ()); free ((void *) g); iot_data_free (m); unsetenv ("VH_LARGE"); done ("substituted text", want.size (), s.size ());
}
// ---- C23
static void m_file (Rng & r, uint64_t)
{
  uint32_t n = r.chance (1, 2) ? big (r) : 1000000 + (uint32_t) r.below (3000000); std::string s = bytes (r, n); const char * d = arg ("dir", "."); std::string path = std::string (d) + "/large.json", name = "large"; log_op ("file of %u", n);
  VH_CHECK (iot_file_write_binary (path.c_str (), (const uint8_t *) s.data (), n), "large-file", "writing %u bytes failed", n); size_t len = 0; uint8_t * b = iot_file_read_binary (path.c_str (), &len); VH_CHECK (b && len == n && !memcmp (b, s.data (), n), "large-file", "%zu bytes read of %u, or others", len, n); free (b);
  std::string t = chars (r, n / 2, PLAIN); VH_CHECK (iot_store_config_save (name.c_str (), d, t.c_str ()), "large-file", "saving failed"); char * c = iot_store_config_load (name.c_str (), d); VH_CHECK (c && t == c, "large-file", "configuration of %zu read back differs", t.size ()); free (c); VH_CHECK (iot_store_config_delete (name.c_str (), d), "large-file", "deleting failed");
  if (r.chance (1, 4))
  { // a directory of many files
    unsigned k = 300 + (unsigned) r.below (1500); std::string sub = std::string (d) + "/many"; mkdir (sub.c_str (), 0700); for (unsigned j = 0; j < k; j++) VH_CHECK (iot_store_config_save (("f" + std::to_string (j)).c_str (), sub.c_str (), "{}"), "large-file", "saving %u failed", j);
    iot_data_t * l = iot_store_config_list (sub.c_str ()); VH_CHECK (l && iot_data_list_length (l) == k, "large-file", "%u configurations listed of %u", l ? iot_data_list_length (l) : 0, k); std::vector<bool> got (k); iot_data_list_iter_t it; iot_data_list_iter (l, &it); while (iot_data_list_iter_next (&it)) { unsigned j = (unsigned) atoi (iot_data_list_iter_string_value (&it) + 1); VH_CHECK (j < k && !got[j], "large-file", "%s listed again", iot_data_list_iter_string_value (&it)); got[j] = true; } iot_data_free (l);
    for (unsigned j = 0; j < k; j++) VH_CHECK (iot_store_config_delete (("f" + std::to_string (j)).c_str (), sub.c_str ()), "large-file", "deleting %u failed", j); VH_CHECK (rmdir (sub.c_str ()) == 0, "large-file", "something else left behind"); count ("configurations_listed", k); progress ();
  }
  done ("file", n);
}
// ---- C20
static void m_cont (Rng & r, uint64_t)
{
  uint32_t n = r.chance (1, 4) ? 65530 + (uint32_t) r.below (300) : 250 + (uint32_t) r.below (2000); log_op ("container of %u components", n); iot_container_t * c = iot_container_alloc ("large"); std::string pad (r.below (3) ? 1 : 300, 'n'); auto nm = [&] (uint32_t k) { return pad + std::to_string (k); };
  for (uint32_t k = 0; k < n; k++) { iot_container_add_component (c, IOT_LOGGER_TYPE, nm (k).c_str (), "{\"Name\":\"l\",\"Level\":\"None\"}"); if (!(k & 1023)) progress (); }
  auto check = [&] (uint32_t from, const char * when) { iot_data_t * l = iot_container_list_components (c, NULL); VH_CHECK (l && iot_data_list_length (l) == n - from, "large-container", "%s: %u components listed of %u", when, l ? iot_data_list_length (l) : 0, n - from); iot_data_free (l); for (int q = 0; q < 200; q++) { uint32_t k = (uint32_t) r.below (n + 2); iot_component_t * x = iot_container_find_component (c, nm (k).c_str ()); VH_CHECK (k >= from && k < n ? x && nm (k) == x->name : !x, "large-container", "%s: lookup of component %u", when, k); } progress (); };
  check (0, "filled"); iot_container_start (c); iot_container_stop (c); uint32_t gone = (uint32_t) r.below (n < 5000 ? n : 2000); for (uint32_t k = 0; k < gone; k++) { iot_container_delete_component (c, nm (k).c_str ()); if (!(k & 255)) progress (); } check (gone, "thinned"); iot_container_free (c); done ("components", n, gone);
}
// ---- C10: one value, many owners; C19: one component, many references
static std::atomic<uint64_t> g_let_go;
static void let_go (void *) { g_let_go++; }
static void quiet_log (iot_logger_t *, iot_loglevel_t, uint64_t, const char *, const void *) { }
static void m_refs (Rng & r, uint64_t)
{
  uint32_t n = r.chance (1, 3) ? big (r, 200000) : 65534 + (uint32_t) r.below (8); int kind = (int) r.below (6), how = (int) r.below (5); g_let_go = 0; int mine = 0; log_op ("%u references to kind %d, held by %d", n, kind, how);
  iot_data_t * v = kind == 0 ? iot_data_alloc_i64 (7) : kind == 1 ? istr ("owned") : kind == 2 ? iot_data_alloc_binary ((void *) "bytes", 5, IOT_DATA_COPY) : kind == 3 ? iot_data_alloc_map (IOT_DATA_STRING) : iot_data_alloc_pointer (&mine, let_go); iot_data_t * was = kind < 3 ? iot_data_copy (v) : NULL; if (kind == 3) iot_data_string_map_add (v, "p", iot_data_alloc_pointer (&mine, let_go));
  uint32_t base = iot_data_ref_count (v); bool counted = kind >= 3;
  auto alive = [&] (uint32_t more, const char * when) { VH_CHECK (iot_data_ref_count (v) == base + more, "large-refs", "%s: %u references, expected %u", when, iot_data_ref_count (v), base + more); VH_CHECK (g_let_go == 0, "large-refs", "%s: released with references left", when); if (kind < 3) VH_CHECK (iot_data_equal (v, was), "large-refs", "%s: the value has changed", when); };
  if (how == 0) { for (uint32_t k = 0; k < n; k++) VH_CHECK (iot_data_add_ref (v) == v, "large-refs", "another value returned"); alive (n, "held"); for (uint32_t k = 0; k < n; k++) { iot_data_free (v); if (k % 7919 == 0) alive (n - 1 - k, "letting go"); } }
  else
  {
    iot_data_t * h = how == 1 ? iot_data_alloc_vector (n) : how == 2 ? iot_data_alloc_list () : how == 3 ? iot_data_alloc_map (IOT_DATA_UINT32) : NULL; iot_queue_t * q = how == 4 ? iot_queue_alloc (0) : NULL;
    for (uint32_t k = 0; k < n; k++) { iot_data_add_ref (v); if (how == 1) iot_data_vector_add (h, k, v); else if (how == 2) iot_data_list_head_push (h, v); else if (how == 3) iot_data_map_add (h, iot_data_alloc_ui32 (k), v); else iot_queue_enqueue (q, v); } alive (n, "held"); progress ();
    if (h && r.chance (1, 2)) { iot_data_t * s = iot_data_shallow_copy (h); iot_data_free (h); h = s; alive (n, "shallow copy"); } if (h) iot_data_free (h); else { uint32_t some = (uint32_t) r.below (n); for (uint32_t k = 0; k < some; k++) iot_data_free (iot_queue_dequeue (q)); alive (n - some, "taken from the queue"); iot_queue_free (q); }
  }
  alive (0, "let go"); iot_data_free (was); iot_data_free (v); VH_CHECK (g_let_go == (counted ? 1u : 0u), "large-refs", "released %llu times", (unsigned long long) g_let_go.load ()); done ("references", n, (uint64_t) (kind * 8 + how));
}
static void m_objrefs (Rng & r, uint64_t)
{
  uint32_t n = r.chance (1, 3) ? big (r, 200000) : 65534 + (uint32_t) r.below (8); int kind = (int) r.below (3); g_let_go = 0; log_op ("%u references to object %d", n, kind);
  iot_logger_t * l = iot_logger_alloc_custom ("l", IOT_LOG_NONE, true, NULL, quiet_log, (void *) &g_let_go, let_go); iot_threadpool_t * p = kind == 1 ? iot_threadpool_alloc (1, 0, -1, -1, l) : NULL; iot_scheduler_t * s = kind == 2 ? iot_scheduler_alloc (-1, -1, l) : NULL;
  if (p) iot_threadpool_start (p); if (s) iot_scheduler_start (s); for (uint32_t k = 0; k < n; k++) if (p) iot_threadpool_add_ref (p); else if (s) iot_scheduler_add_ref (s); else iot_logger_add_ref (l);
  for (uint32_t k = 0; k < n; k++) { if (p) iot_threadpool_free (p); else if (s) iot_scheduler_free (s); else iot_logger_free (l); if (!(k & 8191)) progress (); }
  VH_CHECK (g_let_go == 0, "large-refs", "the logger was released with a reference left"); static std::atomic<int> ran; ran = 0; if (p) { iot_threadpool_add_work (p, [] (void *) -> void * { ran++; return NULL; }, NULL, -1); iot_threadpool_wait (p); VH_CHECK (ran == 1, "large-refs", "the pool no longer works with one reference left"); }
  if (s) { iot_schedule_t * e = iot_schedule_create (s, [] (void *) -> void * { ran++; return NULL; }, NULL, NULL, IOT_MS_TO_NS (1), 0, 1, NULL, -1); iot_schedule_add (s, e); uint64_t t0 = now_ns (); while (!ran && now_ns () - t0 < 20000000000ull) usleep (200); VH_CHECK (ran == 1, "large-refs", "the scheduler no longer works with one reference left"); }
  if (p) iot_threadpool_free (p); if (s) iot_scheduler_free (s); VH_CHECK (g_let_go == 0, "large-refs", "the logger was released with a reference left"); iot_logger_free (l); VH_CHECK (g_let_go == 1, "large-refs", "the logger was released %llu times", (unsigned long long) g_let_go.load ()); done ("object references", n, (uint64_t) kind);
}
int main (int argc, char ** argv)
{
  iot_component_factory_add (iot_logger_factory ()); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  static const Mode modes[] = { { "map", m_map, true }, { "seq", m_seq, true }, { "value", m_value, true }, { "json", m_json, true }, { "cbor", m_cbor, true }, { "markup", m_markup, true }, { "b64", m_b64, true }, { "num", m_num, true }, { "queue", m_queue, true }, { "pool", m_pool, true }, { "sched", m_sched, true }, { "env", m_env, true }, { "file", m_file, true }, { "cont", m_cont, true }, { "refs", m_refs, true }, { "objrefs", m_objrefs, true } };
  return run (argc, argv, modes, sizeof modes / sizeof modes[0]);
}
