// C02: encoding to JSON; C03: decoding JSON. Oracles: a strict RFC 8259 parser written here, and documents generated with their meaning.
#include "jref.hpp"
#include "iot/json.h"
#include <set>
using namespace vh;
extern "C" iot_data_static_t iot_data_order;
static const iot_data_t * ORDER () { return IOT_DATA_STATIC (&iot_data_order); }

// what the library's decoder should give back for a parsed document (J denotes it)
static V widen (const V & v);
static std::string key_text (const V & k)
{
  if (k.t == IOT_DATA_STRING) return k.s;
  if (k.t == IOT_DATA_BINARY) return ref_b64 (k.s);
  return "";
}
static V widen (const V & v)
{
  if (v.hole () || v.t == IOT_DATA_NULL) return vnull ();
  if (is_sint (v.t)) return vint (IOT_DATA_INT64, v.i);
  if (is_uint (v.t)) { if (v.u <= INT64_MAX) return vint (IOT_DATA_INT64, (int64_t) v.u); V x = v; x.t = IOT_DATA_UINT64; return x; }
  if (is_flt (v.t)) return vflt (IOT_DATA_FLOAT64, v.d);
  V x;
  switch (v.t)
  {
    case IOT_DATA_BOOL: case IOT_DATA_STRING: return v;
    case IOT_DATA_BINARY: return vstr (ref_b64 (v.s));
    case IOT_DATA_ARRAY: x.t = IOT_DATA_VECTOR; for (size_t k = 0; k < v.s.size () / width (v.et); k++) x.e.push_back (widen (arr_elem (v, k))); return x;
    case IOT_DATA_VECTOR: case IOT_DATA_LIST: x.t = IOT_DATA_VECTOR; for (auto & e : v.e) x.e.push_back (widen (e)); return x;
    case IOT_DATA_MAP: x.t = IOT_DATA_MAP; x.kt = IOT_DATA_STRING; for (auto & kv : v.m) vmap_set (x, vstr (key_text (kv.first)), widen (kv.second)); return x;
    default: return x;
  }
}
static bool f32_inside (const V & v)
{
  if (v.t == IOT_DATA_FLOAT32 || (v.t == IOT_DATA_ARRAY && v.et == IOT_DATA_FLOAT32)) return true;
  for (auto & e : v.e) if (f32_inside (e)) return true;
  for (auto & kv : v.m) if (f32_inside (kv.first) || f32_inside (kv.second)) return true;
  return false;
}
// A value whose maps have keys of one type, so distinct keys denote distinct members
static bool single_key_types (const V & v)
{
  if (v.t == IOT_DATA_MAP) { iot_data_type_t t = IOT_DATA_INVALID; for (auto & kv : v.m) { if (t != IOT_DATA_INVALID && kv.first.t != t) return false; t = kv.first.t; if (!single_key_types (kv.first) || !single_key_types (kv.second)) return false;
      if (is_composed (kv.first.t) || kv.first.t == IOT_DATA_ARRAY) { for (auto & kv2 : v.m) if (&kv2 != &kv && !veq (kv2.first, kv.first)) { V a = widen (kv.first), b = widen (kv2.first); if (veq (a, b)) return false; } } } }
  for (auto & e : v.e) if (!single_key_types (e)) return false;
  return true;
}
static bool string_keys_only (const V & v)
{
  for (auto & kv : v.m) if ((kv.first.t != IOT_DATA_STRING && kv.first.t != IOT_DATA_BINARY) || !string_keys_only (kv.second)) return false;
  for (auto & e : v.e) if (!string_keys_only (e)) return false;
  return true;
}
static GenOpt gopt (Rng & r)
{
  GenOpt o; o.depth = 1 + r.below (4); o.width = 1 + r.below (6); o.holes = r.chance (1, 3); o.string_keys = r.chance (1, 2); o.composed_keys = r.chance (1, 4);
  o.long_strings = r.chance (1, 6); o.neg_zero = true; o.metadata = r.chance (1, 4); o.utf8 = !r.chance (1, 6);
  return o;
}
static void check_text (const char * t, const V & v, const char * key)
{
  JV j; JParse p (t);
  VH_CHECK (p.doc (j), "json-malformed", "%s: %s in %s", key, p.err.c_str (), quote (std::string (t).substr (0, 600)).c_str ());
  std::string why;
  VH_CHECK (jmatch (j, v, why), "json-wrong", "%s: %s; text %s", key, why.c_str (), quote (std::string (t).substr (0, 600)).c_str ());
}
static void m_encode (Rng & r, uint64_t)
{
  GenOpt o = gopt (r);
  V v = gen_value (r, o);
  if (!single_key_types (v)) { count ("skipped_ambiguous_keys"); return; }
  if (v.t == IOT_DATA_POINTER) return;
  distinct (vhash (v));
  iot_data_t * d = build_random (v, r);
  bool early = r.chance (1, 2); uint32_t h0 = early ? iot_data_hash (d) : 0;
  char * t = iot_data_to_json (d);
  log_op ("value %s", quote (vshow (v)).substr (0, 300).c_str ());
  check_text (t, v, "default");
  size_t n = strlen (t);
  for (int k = 0; k < 5; k++)
  {
    uint32_t sz = k == 0 ? 1 : k == 1 ? (uint32_t) n + 1 : k == 2 ? (uint32_t) n + (n == 0) : 1 + (uint32_t) r.below (n + 40);
    char * u = iot_data_to_json_with_size (d, sz);
    VH_CHECK (!strcmp (t, u), "json-size-dependent", "initial size %u gives %s, not %s", sz, quote (std::string (u).substr (0, 300)).c_str (), quote (std::string (t).substr (0, 300)).c_str ());
    free (u); evaluation ();
  }
  { // caller's buffer, not from the heap, exactly large enough (documented minimum 32): must be used in place, nothing written past it
    size_t sz = std::max<size_t> (n + 1, 32) + (r.chance (1, 3) ? r.below (40) : 0);
    static char arena[1 << 20];
    if (sz + 64 < sizeof arena)
    {
      char * b = arena + 32; memset (arena, 0x5a, sz + 64);
      char * u = iot_data_to_json_with_buffer (d, b, (uint32_t) sz);
      VH_CHECK (u == b && !strcmp (t, b), "json-buffer", "caller's buffer of %zu for %zu characters not used, or text differs", sz, n);
      for (size_t k = 0; k < 32; k++) VH_CHECK (arena[k] == 0x5a && b[sz + k] == 0x5a, "json-buffer-overrun", "byte %zu beyond caller's buffer of %zu changed", k, sz);
    }
  }
  { // decoding gives back the value, widened
    iot_data_t * back = iot_data_from_json (t);
    if (string_keys_only (v)) { V w = widen (v); if (!f32_inside (v)) CHECK_MATCH (back, w, "json-roundtrip"); }
    char * t2 = iot_data_to_json (back);
    if (!f32_inside (v)) { JV a, b; JParse pa (t2); VH_CHECK (pa.doc (a), "json-malformed", "re-encoded: %s", pa.err.c_str ()); }
    free (t2); iot_data_free (back); count ("roundtrips");
  }
  CHECK_MATCH (d, v, "json-encode-changes-value");
  if (early) VH_CHECK (iot_data_hash (d) == h0, "json-encode-changes-value", "hash changed by encoding");
  if (want_sample ()) show ("%s -> %s", vshow (v).substr (0, 200).c_str (), quote (std::string (t).substr (0, 200)).c_str ());
  free (t); iot_data_free (d); evaluation ();
}
// Explicit member order (all keys, some keys, absent keys), nested
static void m_order (Rng & r, uint64_t)
{
  GenOpt o = gopt (r); o.string_keys = true; o.depth = 2; o.metadata = false;
  V v; v.t = IOT_DATA_MAP; v.kt = IOT_DATA_STRING;
  unsigned n = r.below (9);
  for (unsigned k = 0; k < n; k++) { V x = gen_value (r, o); if (!single_key_types (x)) x = vnull (); vmap_set (v, vstr (gen_string (r, o)), x); }
  iot_data_t * d = build_random (v, r);
  std::vector<V> keys; for (auto & kv : v.m) keys.push_back (kv.first);
  for (size_t k = keys.size (); k > 1; k--) std::swap (keys[k - 1], keys[r.below (k)]);
  if (!keys.empty () && r.chance (1, 3)) keys.resize (1 + r.below (keys.size ()));
  std::vector<V> want = keys;
  if (r.chance (1, 3)) { V a = vstr ("absent" + std::to_string (r.below (9))); if (!vmap_find (v, a)) keys.insert (keys.begin () + r.below (keys.size () + 1), a); }
  iot_data_t * ord = iot_data_alloc_vector ((uint32_t) keys.size ());
  for (size_t k = 0; k < keys.size (); k++) iot_data_vector_add (ord, (uint32_t) k, build (keys[k]));
  iot_data_set_metadata (d, ord, ORDER ());
  char * t = iot_data_to_json (d);
  JV j; JParse p (t);
  VH_CHECK (p.doc (j) && j.k == JV::OBJ, "json-malformed", "%s in %s", p.err.c_str (), quote (t).c_str ());
  VH_CHECK (j.o.size () == want.size (), "json-order", "%zu members, %zu asked for: %s", j.o.size (), want.size (), quote (t).c_str ());
  for (size_t k = 0; k < want.size (); k++)
  {
    std::string why;
    VH_CHECK (j.o[k].first == want[k].s, "json-order", "member %zu is %s, not %s", k, quote (j.o[k].first).c_str (), quote (want[k].s).c_str ());
    VH_CHECK (jmatch (j.o[k].second, *vmap_find (v, want[k]), why), "json-wrong", "%s", why.c_str ());
  }
  // decode with ordering, encode again: the same text but for number formatting; compare member order at every level
  iot_data_t * back = iot_data_from_json_with_ordering (t, true);
  char * t2 = iot_data_to_json (back);
  JV j2; JParse p2 (t2);
  VH_CHECK (p2.doc (j2), "json-malformed", "%s in %s", p2.err.c_str (), quote (t2).c_str ());
  std::function<bool (const JV &, const JV &)> same = [&] (const JV & a, const JV & b) -> bool
  {
    if (a.k != b.k) return false;
    if (a.k == JV::NUM) { double x = strtod (a.s.c_str (), nullptr), y = strtod (b.s.c_str (), nullptr); return x == y; }
    if (a.s != b.s || a.a.size () != b.a.size () || a.o.size () != b.o.size ()) return false;
    for (size_t k = 0; k < a.a.size (); k++) if (!same (a.a[k], b.a[k])) return false;
    for (size_t k = 0; k < a.o.size (); k++) if (a.o[k].first != b.o[k].first || !same (a.o[k].second, b.o[k].second)) return false;
    return true;
  };
  VH_CHECK (same (j, j2), "json-order", "ordered decode and encode of %s gives %s", quote (t).c_str (), quote (t2).c_str ());
  distinct (hash_bytes (t, strlen (t))); evaluation ();
  free (t2); free (t); iot_data_free (back); iot_data_free (d);
}

// ---- C03: documents with their meaning
struct Doc {
  Rng & r; std::string t; bool spaces; unsigned budget = 120; bool dup = true;
  std::vector<size_t> brackets;   // offsets of structural brackets
  explicit Doc (Rng & rr) : r (rr), spaces (rr.chance (2, 3)) {}
  void ws () { if (!spaces) return; static const char c[] = " \t\r\n"; while (r.chance (1, 3)) t += c[r.below (4)]; }
  void u4 (unsigned c) { static const char * hl = "0123456789abcdef", * hu = "0123456789ABCDEF"; t += "\\u"; for (int k = 12; k >= 0; k -= 4) { const char * h = r.chance (1, 2) ? hl : hu; unsigned i = (c >> k) & 15; t += h[i]; } }
  void str (const std::string & s)
  {
    t += '"';
    for (size_t k = 0; k < s.size (); )
    {
      unsigned char c = (unsigned char) s[k];
      size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
      uint32_t cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
      for (size_t q = 1; q < n; q++) cp = cp << 6 | ((unsigned char) s[k + q] & 63);
      const char * sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
      bool must = c < 0x20 || c == '"' || c == '\\';
      if ((must || r.chance (1, 5)) && sh && r.chance (3, 4)) t += sh;
      else if (must || r.chance (1, 5)) { if (cp >= 0x10000) { u4 (0xd800 + ((cp - 0x10000) >> 10)); u4 (0xdc00 + ((cp - 0x10000) & 0x3ff)); } else u4 (cp); }
      else t.append (s, k, n);
      k += n;
    }
    t += '"';
  }
  V num ()
  {
    V v; std::string s;
    switch (r.below (6))
    {
      case 0: { int64_t i = (int64_t) gen_u64 (r); s = std::to_string (i); v = vint (IOT_DATA_INT64, i); break; }
      case 1: { uint64_t u = gen_u64 (r); s = std::to_string (u); if (u <= INT64_MAX) v = vint (IOT_DATA_INT64, (int64_t) u); else { v.t = IOT_DATA_UINT64; v.u = u; } break; }
      case 2: // too big for 64 bits, or just about
      {
        if (r.chance (1, 2)) { bool neg = r.chance (1, 2); s = neg ? "-" : ""; s += (char) ('1' + r.below (9)); unsigned n = 19 + r.below (8); for (unsigned k = 0; k < n; k++) s += (char) ('0' + r.below (10)); }
        else { static const char * k[] = {"18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "18446744073709551617", "-18446744073709551616", "99999999999999999999", "-0", "0"}; s = r.pick (k); }
        errno = 0; if (s[0] == '-') { long long x = strtoll (s.c_str (), nullptr, 10); v = errno ? vflt (IOT_DATA_FLOAT64, strtod (s.c_str (), nullptr)) : vint (IOT_DATA_INT64, x); }
        else { unsigned long long x = strtoull (s.c_str (), nullptr, 10); if (errno) v = vflt (IOT_DATA_FLOAT64, strtod (s.c_str (), nullptr)); else if (x <= INT64_MAX) v = vint (IOT_DATA_INT64, (int64_t) x); else { v.t = IOT_DATA_UINT64; v.u = x; } }
        if (v.t == IOT_DATA_FLOAT64) count ("integers_beyond_64_bits");
        break;
      }
      default:
      {
        char b[64]; double d = gen_f64 (r, false, false);
        static const char * f[] = {"%.17g", "%.16e", "%.3E", "%.1f", "%.6f", "%.20g"};
        snprintf (b, sizeof b, r.pick (f), fabs (d) > 1e15 || fabs (d) < 1e-9 ? d / (r.chance (1, 2) ? 1 : 3) : d); b[63] = 0;
        s = b; if (strlen (b) > 60) s = "1.5e3";
        if (s.find_first_of (".eE") == std::string::npos) s += r.chance (1, 2) ? ".0" : r.chance (1, 2) ? "e0" : "E+00";
        v = vflt (IOT_DATA_FLOAT64, strtod (s.c_str (), nullptr));
        break;
      }
    }
    t += s; return v;
  }
  V val (unsigned depth)
  {
    V v; if (budget) budget--;
    GenOpt o; o.long_strings = r.chance (1, 10);
    switch (r.below (depth ? 9 : 5))
    {
      case 0: { static const char * l[] = {"null", "true", "false"}; unsigned k = r.below (3); t += l[k]; return k ? vbool (k == 1) : vnull (); }
      case 1: case 2: return num ();
      case 3: case 4: { std::string s = gen_string (r, o); str (s); return vstr (s); }
      case 5: case 6:
      {
        v.t = IOT_DATA_VECTOR; brackets.push_back (t.size ()); t += '['; ws ();
        unsigned n = budget > 4 ? r.below (6) : 0;
        for (unsigned k = 0; k < n; k++) { if (k) { t += ','; ws (); } v.e.push_back (val (depth - 1)); ws (); }
        brackets.push_back (t.size ()); t += ']'; return v;
      }
      default:
      {
        v.t = IOT_DATA_MAP; v.kt = IOT_DATA_STRING; brackets.push_back (t.size ()); t += '{'; ws ();
        unsigned n = budget > 4 ? r.below (6) : 0; std::vector<std::string> ks; bool ordered_dup = false;
        for (unsigned k = 0; k < n; k++)
        {
          if (k) { t += ','; ws (); }
          std::string key = dup && !ks.empty () && r.chance (1, 8) ? (ordered_dup = true, r.pick (ks)) : gen_string (r, o);
          ks.push_back (key); str (key); ws (); t += ':'; ws ();
          V x = val (depth - 1); ws ();
          if (vmap_find (v, vstr (key))) count ("duplicate_members");
          vmap_set (v, vstr (key), x);
        }
        v.s.clear ();
        orders.push_back (ks);
        brackets.push_back (t.size ()); t += '}'; return v;
      }
    }
  }
  std::vector<std::vector<std::string>> orders;   // post-order: keys of each object as written
};
// post-order walk matching Doc's order is not possible once duplicates drop a value, so order is checked for documents without duplicates
static void check_orders (const iot_data_t * d, const JV & j)
{
  if (j.k == JV::ARR) { for (size_t k = 0; k < j.a.size (); k++) check_orders (iot_data_vector_get (d, (uint32_t) k), j.a[k]); return; }
  if (j.k != JV::OBJ) return;
  const iot_data_t * ord = iot_data_get_metadata (d, ORDER ());
  VH_CHECK (ord && iot_data_type (ord) == IOT_DATA_VECTOR, "json-order-missing", "no member order recorded");
  // each member once, in order of first (or of last) appearance
  std::vector<std::string> first, last;
  for (auto & m : j.o) if (std::find (first.begin (), first.end (), m.first) == first.end ()) first.push_back (m.first);
  for (auto it = j.o.rbegin (); it != j.o.rend (); ++it) if (std::find (last.begin (), last.end (), it->first) == last.end ()) last.insert (last.begin (), it->first);
  VH_CHECK (iot_data_vector_size (ord) == first.size (), "json-order-size", "order records %u members of %zu", iot_data_vector_size (ord), first.size ());
  bool f = true, l = true;
  for (size_t k = 0; k < first.size (); k++)
  {
    const iot_data_t * e = iot_data_vector_get (ord, (uint32_t) k);
    VH_CHECK (e && iot_data_type (e) == IOT_DATA_STRING, "json-order-wrong", "order element %zu is not a string", k);
    if (first[k] != iot_data_string (e)) f = false;
    if (last[k] != iot_data_string (e)) l = false;
  }
  VH_CHECK (f || l, "json-order-wrong", "recorded member order is not document order");
  count ("orders_checked");
  std::set<std::string> done;
  for (auto it = j.o.rbegin (); it != j.o.rend (); ++it) if (done.insert (it->first).second) check_orders (iot_data_string_map_get (d, it->first.c_str ()), it->second);
}
static void m_decode (Rng & r, uint64_t)
{
  Doc doc (r); doc.budget = 20 + r.below (r.chance (1, 8) ? 600 : 80);
  doc.ws (); V v = doc.val (1 + r.below (6)); doc.ws ();
  if (doc.t.find_first_not_of (" \t\r\n") == std::string::npos) return;
  std::string keep = doc.t;
  log_op ("doc %s", quote (doc.t).substr (0, 700).c_str ());
  JV j; JParse p (doc.t); std::string why;
  VH_CHECK (p.doc (j), "harness-generator", "generated document is malformed: %s", p.err.c_str ());
  bool ordered = r.chance (1, 2);
  iot_data_t * d = r.chance (1, 2) && !ordered ? iot_data_from_json (doc.t.c_str ()) : iot_data_from_json_with_ordering (doc.t.c_str (), ordered);
  CHECK_MATCH (d, v, "json-decode");
  if (ordered) check_orders (d, j);
  // with caches: empty, warm with this document's strings, holding unrelated strings
  iot_data_t * cache = iot_data_alloc_map (IOT_DATA_STRING);
  if (r.chance (1, 2)) { Doc other (r); other.val (3); iot_data_free (iot_data_from_json_with_cache (other.t.c_str (), false, cache)); }
  for (int k = 0; k < 2; k++)
  {
    iot_data_t * c = iot_data_from_json_with_cache (doc.t.c_str (), ordered, cache);
    CHECK_MATCH (c, v, "json-decode-cache");
    VH_CHECK (iot_data_equal (c, d) && iot_data_hash (c) == iot_data_hash (d), "json-decode-cache", "decoding with a cache differs");
    if (ordered) check_orders (c, j);
    if (k) { iot_data_free (cache); cache = nullptr; CHECK_MATCH (c, v, "json-decode-cache"); }   // value outlives the cache
    iot_data_free (c);
  }
  // insignificant whitespace changes nothing
  {
    std::string t2; bool in = false;
    for (size_t k = 0; k < doc.t.size (); k++)
    {
      char c = doc.t[k];
      if (in) { t2 += c; if (c == '\\') t2 += doc.t[++k]; else if (c == '"') in = false; continue; }
      if (c == '"') in = true;
      bool punct = strchr ("{}[]:,", c) != nullptr;
      if (strchr (" \t\r\n", c)) { if (r.chance (1, 2)) t2 += c; continue; }
      if (punct && r.chance (1, 4)) t2 += r.pick (std::vector<std::string>{" ", "\n", "\t", "\r\n  "});
      t2 += c;
      if (punct && r.chance (1, 4)) t2 += r.pick (std::vector<std::string>{" ", "\n", "\t", "\r\n  "});
    }
    iot_data_t * w = iot_data_from_json (t2.c_str ());
    CHECK_MATCH (w, v, "json-decode-whitespace");
    iot_data_free (w);
  }
  VH_CHECK (keep == doc.t, "json-input-changed", "decoding changed its input");
  distinct (hash_bytes (doc.t.data (), doc.t.size ())); evaluation (4);
  if (want_sample ()) show ("%s", quote (doc.t).substr (0, 300).c_str ());
  iot_data_free (d);
}
// Truncated and bracket-mismatched documents never give a container
static void m_broken (Rng & r, uint64_t)
{
  Doc doc (r); doc.budget = 40; doc.ws ();
  do { doc.t.clear (); doc.brackets.clear (); doc.budget = 40; doc.val (1 + r.below (4)); } while (doc.brackets.empty ());
  if (doc.t[0] != '{' && doc.t[0] != '[') return;
  auto refused = [&] (const std::string & t, const char * how)
  {
    log_op ("%s: %s", how, quote (t).substr (0, 300).c_str ());
    JV j; JParse p (t); if (p.doc (j)) return;     // still a document (cannot be)
    iot_data_t * d = iot_data_from_json (t.c_str ());
    iot_data_type_t ty = iot_data_type (d);
    VH_CHECK (!is_composed (ty), "json-broken-accepted", "%s document gives a container: %s", how, quote (t).substr (0, 400).c_str ());
    iot_data_free (d); evaluation ();
  };
  size_t n = doc.t.size ();
  for (size_t k = 1; k < n; k++) if (n < 200 || r.chance (200, n)) { refused (doc.t.substr (0, k), "truncated"); count ("truncations"); }
  for (size_t k = 0; k < doc.brackets.size () && k < 60; k++)
  {
    size_t at = doc.brackets[k]; std::string t = doc.t; char c = t[at];
    std::string a = t; a[at] = c == '{' ? '[' : c == '[' ? '{' : c == '}' ? ']' : '}'; refused (a, "mismatched");
    std::string b = t; b[at] = c == '{' ? '}' : c == '[' ? ']' : c == '}' ? '{' : '['; refused (b, "mismatched");
    std::string e = t; e.erase (at, 1); refused (e, "bracket removed");
    count ("bracket_edits", 3);
  }
  // a closing or opening bracket inserted anywhere outside a string
  bool in = false;
  for (size_t k = 0; k < n; k++)
  {
    char c = doc.t[k];
    if (in) { if (c == '\\') k++; else if (c == '"') in = false; continue; }
    if (c == '"') in = true;
    if (n < 150 || r.chance (150, n)) { std::string t = doc.t; t.insert (k, 1, "{}[]"[r.below (4)]); refused (t, "bracket inserted"); count ("bracket_edits"); }
  }
  { std::string t = doc.t; t += "]}"[r.below (2)]; refused (t, "bracket appended"); }
  distinct (hash_bytes (doc.t.data (), doc.t.size ()));
}
// Nesting: exact value within the supported depth
static void m_deep (Rng & r, uint64_t)
{
  unsigned depth = 1 + r.below (200); std::string t, close; V v = vint (IOT_DATA_INT64, 7); std::vector<bool> kinds;
  for (unsigned k = 0; k < depth; k++) { bool m = r.chance (1, 2); kinds.push_back (m); t += m ? "{\"k\":" : "["; close.insert (0, m ? "}" : "]"); }
  for (unsigned k = depth; k-- > 0; ) { V o; if (kinds[k]) { o.t = IOT_DATA_MAP; o.kt = IOT_DATA_STRING; o.m.push_back ({vstr ("k"), v}); } else { o.t = IOT_DATA_VECTOR; o.e.push_back (v); } v = o; }
  t += "7" + close;
  iot_data_t * d = iot_data_from_json (t.c_str ());
  CHECK_MATCH (d, v, "json-decode-deep");
  char * s = iot_data_to_json (d);
  VH_CHECK (t == s, "json-encode-deep", "nested document encodes differently");
  free (s); iot_data_free (d); evaluation (); distinct (hash_bytes (t.data (), t.size ()));
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = {{"encode", m_encode, true}, {"order", m_order, true}, {"decode", m_decode, true}, {"broken", m_broken, true}, {"deep", m_deep, true}};
  return run (argc, argv, modes, 5);
}
