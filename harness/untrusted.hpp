// What is judged of one untrusted text: nothing is read outside it or changed, the outcome is the documented failure or a complete value,
// it is the same again, and an ordinary text decodes as ever afterwards. Memory, undefined behaviour, assertions and leaks are the sanitizers'.
#pragma once
#include "textgen.hpp"
#include "iot/iot.h"
#include "iot/json.h"
#include "iot/base64.h"
#include "iot/config.h"
#include <time.h>
#include <math.h>
namespace un {
using tg::Str;
struct Seen { uint64_t shape = 14695981039346656037ull; unsigned nodes = 0; bool nan = false; };
inline void mix (Seen & s, uint64_t x) { s.shape = (s.shape ^ x) * 1099511628211ull; }
inline void walk (const iot_data_t * d, Seen & s, unsigned depth)
{
  VH_CHECK (d != NULL, "untrusted-value", "a value is missing"); iot_data_type_t t = iot_data_type (d); s.nodes++; if (s.nodes < 40) mix (s, (uint64_t) t + 1); VH_CHECK (iot_data_type_name (d) != NULL && iot_data_ref_count (d) < 1000000, "untrusted-value", "type %d", (int) t);
  switch (t)
  {
    case IOT_DATA_STRING: { const char * p = iot_data_string (d); VH_CHECK (p, "untrusted-value", "string without text"); size_t n = strlen (p); if (s.nodes < 40) mix (s, n > 8 ? 9 : n); break; }
    case IOT_DATA_BOOL: iot_data_bool (d); break; case IOT_DATA_NULL: break; case IOT_DATA_INT64: iot_data_i64 (d); break; case IOT_DATA_UINT64: iot_data_ui64 (d); break; case IOT_DATA_FLOAT64: if (std::isnan (iot_data_f64 (d))) s.nan = true; break; case IOT_DATA_FLOAT32: if (std::isnan (iot_data_f32 (d))) s.nan = true; break;
    case IOT_DATA_INT8: case IOT_DATA_UINT8: case IOT_DATA_INT16: case IOT_DATA_UINT16: case IOT_DATA_INT32: case IOT_DATA_UINT32: VH_CHECK (iot_data_address (d) != NULL, "untrusted-value", "number without a value"); break;
    case IOT_DATA_ARRAY: case IOT_DATA_BINARY: { const unsigned char * p = (const unsigned char *) iot_data_address (d); uint32_t n = iot_data_array_size (d); unsigned x = 0; for (uint32_t k = 0; k < n; k++) x += p[k]; if (x == 77777777) mix (s, 1); break; }
    case IOT_DATA_VECTOR: { iot_data_vector_iter_t i; iot_data_vector_iter (d, &i); uint32_t n = 0; while (iot_data_vector_iter_next (&i)) { walk (iot_data_vector_iter_value (&i), s, depth + 1); n++; } VH_CHECK (n == iot_data_vector_size (d), "untrusted-value", "vector of %u has %u elements", iot_data_vector_size (d), n); break; }
    case IOT_DATA_LIST: { iot_data_list_iter_t i; iot_data_list_iter (d, &i); uint32_t n = 0; while (iot_data_list_iter_next (&i)) { walk (iot_data_list_iter_value (&i), s, depth + 1); n++; } VH_CHECK (n == iot_data_list_length (d), "untrusted-value", "list of %u has %u elements", iot_data_list_length (d), n); break; }
    case IOT_DATA_MAP:
    {
      iot_data_map_iter_t i; iot_data_map_iter (d, &i); uint32_t n = 0; const iot_data_t * last = NULL;
      while (iot_data_map_iter_next (&i)) { const iot_data_t * k = iot_data_map_iter_key (&i), * v = iot_data_map_iter_value (&i); walk (k, s, depth + 1); walk (v, s, depth + 1); if (last) VH_CHECK (iot_data_compare (last, k) < 0, "untrusted-value", "map keys out of order or twice"); last = k; if (n < 50) VH_CHECK (iot_data_map_get (d, k) == v, "untrusted-value", "an entry cannot be found by its key"); n++; }
      VH_CHECK (n == iot_data_map_size (d), "untrusted-value", "map of %u has %u entries", iot_data_map_size (d), n); break;
    }
    default: vh::fail ("untrusted-value", "a decoder made a value of type %d", (int) t);
  }
}
inline void whole (const iot_data_t * d, Seen & s, bool encodable)
{
  walk (d, s, 0); iot_data_hash (d); if (!s.nan) VH_CHECK (iot_data_equal (d, d) && iot_data_compare (d, d) == 0, "untrusted-value", "a decoded value does not equal itself");
  iot_data_t * c = iot_data_copy (d); if (!s.nan) VH_CHECK (iot_data_equal (c, d), "untrusted-value", "the copy of a decoded value differs"); Seen s2; walk (c, s2, 0); VH_CHECK (s2.shape == s.shape && s2.nodes == s.nodes, "untrusted-value", "the copy of a decoded value has another shape"); iot_data_free (c);
  if (encodable) { char * j = iot_data_to_json (d); VH_CHECK (j, "untrusted-value", "a decoded value cannot be encoded as JSON"); free (j); iot_data_t * b = iot_data_to_cbor (d); VH_CHECK (b && iot_data_array_size (b) > 0, "untrusted-value", "a decoded value cannot be encoded as CBOR"); iot_data_free (b); }
}
// the text in a block of its exact size, so that any access beyond it is seen
struct Text { char * p; size_t n; Str keep; explicit Text (const Str & s) : keep (s) { n = strlen (s.c_str ()); p = (char *) malloc (n + 1); memcpy (p, s.c_str (), n + 1); } void same () const { VH_CHECK (!memcmp (p, keep.c_str (), n + 1), "untrusted-input", "the text decoded was changed"); } ~Text () { free (p); } };
inline uint64_t cpu () { struct timespec t; clock_gettime (CLOCK_THREAD_CPUTIME_ID, &t); return (uint64_t) t.tv_sec * 1000000000ull + (uint64_t) t.tv_nsec; }
static const char * const OK_JSON = "{\"a\":[1,-2,35,\"x\\u0041\",null,true,{\"b\":{}}],\"key\":\"value\"}";
inline void sink (iot_logger_t *, iot_loglevel_t, uint64_t, const char *, const void *) {}
inline iot_logger_t * quiet () { static iot_logger_t * l; if (!l) l = iot_logger_alloc_custom ("u", IOT_LOG_ERROR, true, NULL, sink, NULL, NULL); return l; }
inline void set_env () { setenv ("VH_A", "value of A", 1); setenv ("VH_EMPTY", "", 1); setenv ("VH_REF", "${VH_A}", 1); setenv ("VH_LONG", Str (3000, 'L').c_str (), 1); unsetenv ("NOSUCH"); }
inline bool judge (int kind, const Str & text, Seen & s)
{
  Text t (text); uint64_t t0 = cpu (); bool ok = false;
  switch (kind)
  {
    case tg::JSON:
    {
      iot_data_t * d = iot_data_from_json (t.p); VH_CHECK (d, "untrusted-value", "no value at all"); ok = iot_data_type (d) != IOT_DATA_NULL; /* a refused text gives null */ t.same (); if (d) { whole (d, s, true); VH_CHECK (!s.nan, "untrusted-value", "JSON gave not-a-number"); }
      iot_data_t * o = iot_data_from_json_with_ordering (t.p, true); VH_CHECK (!o == !d, "untrusted-same", "decoded with ordering %s, without %s", o ? "succeeds" : "fails", d ? "succeeds" : "fails"); if (o) { VH_CHECK (iot_data_compare (o, o) == 0, "untrusted-value", "not equal to itself"); Seen so; walk (o, so, 0); VH_CHECK (so.nodes == s.nodes, "untrusted-same", "decoded with ordering it has other elements"); if (iot_data_type (o) == IOT_DATA_MAP) { char * j = iot_data_to_json (o); VH_CHECK (j, "untrusted-value", "an ordered value cannot be encoded"); free (j); } iot_data_free (o); }
      iot_data_t * cache = iot_data_alloc_typed_map (IOT_DATA_STRING, IOT_DATA_STRING); iot_data_t * c1 = iot_data_from_json_with_cache (t.p, false, cache), * c2 = iot_data_from_json_with_cache (t.p, t.n & 1, cache); VH_CHECK (!c1 == !d && !c2 == !d, "untrusted-same", "decoding with a cache has another outcome"); if (d) { VH_CHECK (iot_data_equal (c1, d), "untrusted-same", "decoded with a cache it differs"); }
      iot_data_t * v = iot_data_from_json_with_cache (OK_JSON, false, cache), * w = iot_data_from_json (OK_JSON); VH_CHECK (v && w && iot_data_equal (v, w), "untrusted-after", "an ordinary document decodes otherwise afterwards"); char * j = iot_data_to_json (w); VH_CHECK (j && !strcmp (j, "{\"a\":[1,-2,35,\"xA\",null,true,{\"b\":{}}],\"key\":\"value\"}"), "untrusted-after", "an ordinary document became %s", j ? j : "nothing"); free (j);
      iot_data_free (cache); { Seen z; walk (v, z, 0); } iot_data_free (v); iot_data_free (w); iot_data_free (c2); if (c1) { Seen z; walk (c1, z, 0); iot_data_free (c1); } iot_data_free (d);
      // the tokeniser itself, with as many tokens as it asks for, fewer, and one
      iot_json_parser p; iot_json_init (&p); int n = iot_json_parse (&p, t.p, t.n, NULL, 0); t.same ();
      if (n > 0) { for (int pass = 0; pass < 2; pass++) { uint32_t m = pass ? (uint32_t) n / 2 : (uint32_t) n; if (!m) continue; iot_json_tok_t * tok = (iot_json_tok_t *) malloc (m * sizeof *tok); iot_json_init (&p); int g = iot_json_parse (&p, t.p, t.n, tok, m); VH_CHECK (pass || !ok ? g < 0 || (uint32_t) g <= m : g == n, "untrusted-tokens", "%d tokens counted, %d found in %u", n, g, m); if (g > 0) for (int k = 0; k < g; k++) VH_CHECK (tok[k].start >= 0 && tok[k].end >= tok[k].start && (size_t) tok[k].end <= t.n && tok[k].parent < k && tok[k].size <= (uint32_t) g, "untrusted-tokens", "token %d of %d: %d to %d, parent %d", k, g, tok[k].start, tok[k].end, tok[k].parent); free (tok); } }
      // and of a text with no terminator, its length given
      { char * u = (char *) malloc (t.n ? t.n : 1); memcpy (u, t.p, t.n); iot_json_tok_t * tok = (iot_json_tok_t *) malloc ((t.n + 1) * sizeof *tok); iot_json_init (&p); int g = iot_json_parse (&p, u, t.n, tok, (uint32_t) t.n + 1); iot_json_init (&p); int h = iot_json_parse (&p, t.p, t.n, tok, (uint32_t) t.n + 1); VH_CHECK (g == h, "untrusted-tokens", "%d tokens without a terminator, %d with", g, h); iot_json_init (&p); g = iot_json_parse (&p, u, t.n / 2, tok, (uint32_t) t.n + 1); VH_CHECK (g < 0 || (uint32_t) g <= t.n + 1, "untrusted-tokens", "%d tokens in %zu bytes", g, t.n / 2); VH_CHECK (!memcmp (u, t.p, t.n), "untrusted-input", "the text tokenised was changed"); free (tok); free (u); }
      break;
    }
    case tg::XML: { iot_data_t * d = iot_data_from_xml (t.p); ok = d != NULL; t.same (); if (d) whole (d, s, true); iot_data_t * e = iot_data_from_xml (t.p); VH_CHECK (!e == !d && (!d || iot_data_equal (d, e)), "untrusted-same", "decoded again it differs"); iot_data_free (e); iot_data_free (d); d = iot_data_from_xml ("<a b='c'>t<d/></a>"); VH_CHECK (d, "untrusted-after", "an ordinary document is refused afterwards"); iot_data_free (d); break; }
    case tg::YAML:
    {
      iot_data_t * x = NULL, * d = iot_data_from_yaml (t.p, &x), * y = NULL; ok = d != NULL; t.same (); if (d) { whole (d, s, true); VH_CHECK (!x, "untrusted-value", "both a value and an error"); } if (x) { VH_CHECK (iot_data_type (x) == IOT_DATA_STRING, "untrusted-value", "the error is no text"); Seen z; walk (x, z, 0); }
      iot_data_t * e = iot_data_from_yaml (t.p, &y); VH_CHECK (!e == !d && !x == !y && (!d || s.nan || iot_data_equal (d, e)) && (!x || iot_data_equal (x, y)), "untrusted-same", "decoded again it differs"); iot_data_free (e); iot_data_free (d); iot_data_free (x); iot_data_free (y); x = NULL;
      d = iot_data_from_yaml ("a: [1, {b: c}]\n", &x); VH_CHECK (d && !x, "untrusted-after", "an ordinary document is refused afterwards"); iot_data_free (d); break;
    }
    case tg::B64:
    {
      iot_data_t * d = iot_data_alloc_array_from_base64 (t.p); ok = d != NULL; t.same (); if (d) whole (d, s, true); size_t m = iot_b64_maxdecodesize (t.p);
      for (int pass = 0; pass < 3; pass++) { size_t cap = pass == 0 ? m : pass == 1 ? m / 2 : 0, len = cap; unsigned char * b = (unsigned char *) malloc (cap ? cap : 1); bool g = iot_b64_decode (t.p, b, &len); if (g) { VH_CHECK (len <= cap, "untrusted-b64", "%zu bytes reported in %zu", len, cap); VH_CHECK (d != NULL, "untrusted-same", "decodes into a buffer but not into an array"); VH_CHECK (len == iot_data_array_size (d) && !memcmp (b, iot_data_address (d), len), "untrusted-same", "decodes into something else"); } else if (pass == 0) VH_CHECK (!d || iot_data_array_size (d) == 0, "untrusted-same", "decodes into an array but not into a buffer of its size"); free (b); }
      t.same (); iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING), * key = iot_data_alloc_string ("k", IOT_DATA_REF); iot_data_map_add (map, key, iot_data_alloc_string (t.p, IOT_DATA_COPY)); bool g = iot_data_map_base64_to_array (map, key); VH_CHECK (g == (d != NULL), "untrusted-same", "converted in a map it %s", g ? "decodes" : "does not decode"); { Seen z; walk (map, z, 0); } iot_data_free (map); iot_data_free (d); break;
    }
    case tg::STR:
    {
      if (!t.n) break;
      static const iot_data_type_t T[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_BOOL, IOT_DATA_STRING, IOT_DATA_NULL, IOT_DATA_POINTER, IOT_DATA_ARRAY, IOT_DATA_BINARY, IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP };
      for (iot_data_type_t y : T)
      {
        iot_data_t * d = iot_data_alloc_from_string (y, t.p), * e = iot_data_alloc_from_strings (iot_data_type_string (y), t.p); t.same (); VH_CHECK (!d == !e, "untrusted-same", "from_string and from_strings disagree for type %s", iot_data_type_string (y)); mix (s, d ? 3 : 5);
        if (d) { ok = true; VH_CHECK (iot_data_type (d) == y && iot_data_type (e) == y, "untrusted-value", "a %s was made for %s", iot_data_type_name (d), iot_data_type_string (y)); Seen z; whole (d, z, !z.nan && y <= IOT_DATA_STRING && false); if (!z.nan) VH_CHECK (iot_data_equal (d, e), "untrusted-same", "made again it differs"); if (y <= IOT_DATA_FLOAT64 && !z.nan) { for (iot_data_type_t c : T) if (c <= IOT_DATA_FLOAT64) { uint64_t out = 0; iot_data_cast (d, c, &out); } } s.nodes += z.nodes; }
        iot_data_free (d); iot_data_free (e);
      }
      iot_data_type_t y = iot_data_name_type (t.p); (void) y; iot_data_t * d = iot_data_alloc_from_strings (t.p, "1"); if (d) { Seen z; walk (d, z, 0); iot_data_free (d); } t.same (); iot_hash (t.p); break;
    }
    default:
    {
      char * a = iot_config_substitute_env (t.p, quiet ()), * b; t.same (); ok = a != NULL; b = iot_config_substitute_env (t.p, quiet ()); VH_CHECK (!a == !b && (!a || !strcmp (a, b)), "untrusted-same", "substituted again it differs"); if (a) { mix (s, strlen (a) % 64); VH_CHECK (t.keep.find ("${") != Str::npos || t.keep == a, "untrusted-value", "a text without references became another"); } free (a); free (b);
      a = iot_config_substitute_env ("x${VH_A}y", quiet ()); VH_CHECK (a && !strcmp (a, "xvalue of Ay"), "untrusted-after", "an ordinary text is substituted otherwise afterwards"); free (a); break;
    }
  }
  uint64_t used = cpu () - t0; VH_CHECK (used < 20000000000ull, "untrusted-slow", "%zu bytes took %.1f s", t.n, (double) used / 1e9);
  mix (s, ok ? 1 : 0); return ok;
}
}
