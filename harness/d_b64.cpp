// C06: base64 and binary/string conversions. Oracle: an RFC 4648 codec written here (ref_b64 in jref.hpp and dec below).
#include "jref.hpp"
using namespace vh;
static std::string gen_bytes (Rng & r, size_t max, bool nonul = false)
{
  size_t n = r.below (3) ? r.below (20) : r.below (max + 1); std::string s; int mode = (int) r.below (4);
  for (size_t k = 0; k < n; k++) { char c = mode == 0 ? (char) r.next () : mode == 1 ? (char) "\x00\xff\xfb\xfe\x3f\x80\x7f"[r.below (7)] : mode == 2 ? (char) (k * 37 + 11) : (char) (r.chance (1, 2) ? 0xff : 0x3e); if (nonul && !c) c = 1; s += c; }
  return s;
}
// 1 = decodes to out; 0 = must be refused; -1 = not specified
static int dec (const std::string & t, std::string & out)
{
  static const char * A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string sym; size_t pad = 0;
  for (char c : t) { if (c == '\n') continue; if (c == '=') { pad++; continue; } if (!c || !strchr (A, c)) return 0; if (pad) return 0; sym += c; }
  out.clear (); unsigned acc = 0, bits = 0;
  for (char c : sym) { acc = (acc << 6 | (unsigned) (strchr (A, c) - A)) & 0xffffff; bits += 6; if (bits >= 8) { bits -= 8; out += (char) (acc >> bits & 255); } }
  if (sym.size () % 4 == 1) return 0;
  return 1;
}
static char arena[1 << 16];
static void raw_decode (const std::string & t, size_t cap, const char * how)
{
  std::string want; int ok = dec (t, want);
  memset (arena, 0x5a, cap + 64); size_t len = cap;
  char * out = arena + 32;
  bool b = iot_b64_decode (t.c_str (), out, &len);
  for (size_t k = 0; k < 32; k++) VH_CHECK (arena[k] == 0x5a && out[cap + k] == 0x5a, "b64-overrun", "%s: byte beyond the buffer of %zu written decoding %s", how, cap, quote (t).c_str ());
  if (ok == 1 && want.size () <= cap)
  {
    VH_CHECK (b && len == want.size () && !memcmp (out, want.data (), len), "b64-decode", "%s: %s decodes to %s (%s, length %zu)", how, quote (t).c_str (), quote (std::string (out, b ? std::min (len, cap) : 0)).c_str (), b ? "true" : "false", len);
    for (size_t k = len; k < cap; k++) VH_CHECK (out[k] == 0x5a, "b64-overrun", "%s: byte %zu written beyond the %zu decoded", how, k, len);
  }
  else { VH_CHECK (!b, "b64-accepted", "%s: %s accepted with room for %zu", how, quote (t).c_str (), cap); count (ok ? "refused_too_small" : "refused_invalid"); }
  // the advertised maximum suffices
  if (ok == 1) VH_CHECK (iot_b64_maxdecodesize (t.c_str ()) >= want.size (), "b64-maxsize", "advertised %zu for %zu bytes", iot_b64_maxdecodesize (t.c_str ()), want.size ());
  evaluation ();
}
static void m_codec (Rng & r, uint64_t idx)
{
  std::string b = gen_bytes (r, idx % 7 ? 60 : 4000), t = ref_b64 (b);
  // encode: exact size, one less, more
  size_t es = iot_b64_encodesize (b.size ());
  VH_CHECK (es == t.size () + 1, "b64-encodesize", "%zu advertised for %zu bytes", es, b.size ());
  for (int k = 0; k < 4; k++)
  {
    size_t cap = k == 0 ? es : k == 1 ? es - 1 : k == 2 ? r.below (es) : es + r.below (20);
    memset (arena, 0x5a, cap + 64);
    static char src[8192]; memcpy (src, b.data (), b.size ());
    bool ok = iot_b64_encode (src, b.size (), arena + 32, cap);
    VH_CHECK (ok == (cap >= es), "b64-encode-result", "%zu bytes into %zu gives %d", b.size (), cap, ok);
    for (size_t q = 0; q < 32; q++) VH_CHECK (arena[q] == 0x5a && arena[32 + cap + q] == 0x5a, "b64-overrun", "encoding wrote beyond the buffer of %zu", cap);
    if (ok) { VH_CHECK (!strcmp (arena + 32, t.c_str ()), "b64-encode", "%s encodes to %s", quote (b).c_str (), quote (arena + 32).c_str ()); for (size_t q = es; q < cap; q++) VH_CHECK (arena[32 + q] == 0x5a, "b64-overrun", "wrote beyond the advertised size"); }
    else for (size_t q = 0; q < cap; q++) VH_CHECK (arena[32 + q] == 0x5a, "b64-refused-writes", "refused encoding wrote to the buffer");
    evaluation ();
  }
  // decode, with every kind of destination size
  raw_decode (t, b.size (), "exact"); raw_decode (t, b.size () + r.below (9), "roomy"); if (b.size ()) { raw_decode (t, b.size () - 1, "one short"); raw_decode (t, r.below (b.size ()), "short"); }
  raw_decode (t, iot_b64_maxdecodesize (t.c_str ()), "advertised");
  { std::string u = t; while (!u.empty () && u.back () == '=') u.pop_back (); raw_decode (u, b.size (), "unpadded"); }
  { std::string u; for (char c : t) { u += c; if (r.chance (1, 8)) u += '\n'; } raw_decode (u, b.size (), "line breaks"); raw_decode (u, iot_b64_maxdecodesize (u.c_str ()), "line breaks, advertised"); }
  // mutated text
  for (int k = 0; k < 12; k++)
  {
    std::string u = t; for (unsigned q = 1 + r.below (2); q-- > 0; ) { size_t at = r.below (u.size () + 1); char c = (char) r.range (1, 255); if (r.chance (1, 3)) c = "=\n-_ *AQ/+"[r.below (10)]; switch (r.below (3)) { case 0: u.insert (at, 1, c); break; case 1: if (at < u.size ()) u[at] = c; break; default: if (at < u.size ()) u.erase (at, 1); } }
    raw_decode (u, r.chance (1, 2) ? b.size () + 4 : r.below (b.size () + 4), "mutated");
    std::string want; int ok = dec (u, want);
    iot_data_t * a = iot_data_alloc_array_from_base64 (u.c_str ());
    if (ok == 1) { VH_CHECK (a && iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == IOT_DATA_UINT8 && iot_data_array_length (a) == want.size () && (want.empty () || !memcmp (iot_data_address (a), want.data (), want.size ())), "b64-array", "array from %s is wrong", quote (u).c_str ()); }
    else VH_CHECK (!a, "b64-array-accepted", "array from invalid %s", quote (u).c_str ());
    iot_data_free (a); evaluation ();
  }
  distinct (hash_bytes (b.data (), b.size ())); if (want_sample ()) show ("%zu bytes -> %s", b.size (), t.substr (0, 100).c_str ());
}
// Every byte value at every position of a group: accepted exactly when in the alphabet
static void m_bytes (Rng & r, uint64_t)
{
  std::string base = ref_b64 (gen_bytes (r, 12)); if (base.empty ()) base = "QUJD";
  size_t at = r.below (base.size ());
  for (unsigned c = 1; c < 256; c++) { std::string u = base; u[at] = (char) c; raw_decode (u, 24, "one byte"); count ("byte_values"); }
  distinct (hash_bytes (base.data (), base.size (), at));
}
// Maps: replacing a member in place, or leaving it alone
static void m_map (Rng & r, uint64_t)
{
  GenOpt o; o.depth = 1; iot_data_type_t kt = r.chance (1, 3) ? IOT_DATA_MULTI : r.chance (1, 2) ? IOT_DATA_STRING : IOT_DATA_UINT16;
  V v; v.t = IOT_DATA_MAP; v.kt = kt;
  unsigned n = 1 + r.below (8);
  for (unsigned k = 0; k < n; k++)
  {
    V key = gen_key (r, o, kt); V val;
    switch (r.below (4)) { case 0: val = vstr (ref_b64 (gen_bytes (r, 40))); break; case 1: { std::string s = ref_b64 (gen_bytes (r, 40)); s.insert (r.below (s.size () + 1), 1, "*-_ =A\n"[r.below (7)]); val = vstr (s); break; } case 2: val = vstr (gen_string (r, o)); break; default: val = gen_value (r, o, 1); }
    vmap_set (v, key, val);
  }
  iot_data_t * m = build_random (v, r); iot_data_t * twin = r.chance (1, 2) ? iot_data_copy (m) : nullptr;
  if (r.chance (1, 2)) iot_data_hash (m);
  V orig = v;
  for (unsigned k = 0; k < n; k++)
  {
    V key = r.chance (1, 6) ? gen_key (r, o, kt) : v.m[r.below (v.m.size ())].first;
    V * val = vmap_find (v, key); std::string want; bool expect = val && val->t == IOT_DATA_STRING && dec (val->s, want) == 1;
    iot_data_t * kd = build (key);
    bool got = iot_data_map_base64_to_array (m, kd); iot_data_free (kd);
    log_op ("convert %s", quote (vshow (key)).c_str ());
    VH_CHECK (got == expect, "b64-map-result", "conversion of %s reports %d", val ? vshow (*val).c_str () : "(absent)", got);
    if (expect) { V a; a.t = IOT_DATA_ARRAY; a.et = IOT_DATA_UINT8; a.s = want; *val = a; count ("members_converted"); }
    CHECK_MATCH (m, v, "b64-map"); evaluation ();
  }
  { iot_data_t * f = build (v); VH_CHECK (iot_data_equal (f, m) && iot_data_hash (f) == iot_data_hash (m), "b64-map-hash", "converted map does not equal an equal map"); iot_data_free (f); }
  if (twin) { CHECK_MATCH (twin, orig, "b64-map-copy-changed"); iot_data_free (twin); }
  distinct (vhash (orig)); iot_data_free (m);
}
// String <-> binary <-> array, and taking the bytes
static void m_conv (Rng & r, uint64_t)
{
  std::string s = gen_bytes (r, 300, true);
  iot_data_t * str = r.chance (1, 2) ? iot_data_alloc_string (s.c_str (), IOT_DATA_COPY) : iot_data_alloc_string (strdup (s.c_str ()), IOT_DATA_TAKE);
  iot_data_t * bin = iot_data_binary_from_string (str);
  CHECK_MATCH (bin, vbin (s), "binary-from-string");
  iot_data_t * back = iot_data_string_from_binary (bin);
  CHECK_MATCH (back, vstr (s), "string-from-binary"); VH_CHECK (iot_data_equal (back, str) && iot_data_hash (back) == iot_data_hash (str), "string-from-binary", "round trip is not equal");
  CHECK_MATCH (str, vstr (s), "binary-from-string"); iot_data_free (back); iot_data_free (str); iot_data_free (bin);
  // any bytes from here on
  std::string b = gen_bytes (r, 400); static uint8_t own[512]; memcpy (own, b.data (), b.size ());
  int mode = (int) r.below (3); void * heap = nullptr; if (mode == 1) { heap = malloc (b.size () ? b.size () : 1); memcpy (heap, b.data (), b.size ()); }
  iot_data_t * x = r.chance (1, 2) ? iot_data_alloc_binary (mode == 1 ? heap : own, (uint32_t) b.size (), mode == 0 ? IOT_DATA_COPY : mode == 1 ? IOT_DATA_TAKE : IOT_DATA_REF) : iot_data_alloc_array (mode == 1 ? heap : own, (uint32_t) b.size (), IOT_DATA_UINT8, mode == 0 ? IOT_DATA_COPY : mode == 1 ? IOT_DATA_TAKE : IOT_DATA_REF);
  bool is_bin = iot_data_type (x) == IOT_DATA_BINARY; V vx = vbin (b);
  for (unsigned k = r.below (5); k-- > 0; )
  {
    if (r.chance (1, 2)) { iot_data_array_to_binary (x); is_bin = true; } else { iot_data_binary_to_array (x); is_bin = false; }
    if (r.chance (1, 3)) iot_data_hash (x);
    vx.t = is_bin ? IOT_DATA_BINARY : IOT_DATA_ARRAY; vx.et = IOT_DATA_UINT8; CHECK_MATCH (x, vx, "binary-array-conversion"); evaluation ();
    iot_data_t * f = is_bin ? iot_data_alloc_binary (own, (uint32_t) b.size (), IOT_DATA_REF) : iot_data_alloc_array (own, (uint32_t) b.size (), IOT_DATA_UINT8, IOT_DATA_REF);
    VH_CHECK (iot_data_equal (f, x) && iot_data_hash (f) == iot_data_hash (x), "binary-array-conversion", "converted value does not equal one built of that type"); iot_data_free (f);
  }
  vx.t = is_bin ? IOT_DATA_BINARY : IOT_DATA_ARRAY; vx.et = IOT_DATA_UINT8;
  iot_data_t * shared = r.chance (1, 2) ? iot_data_add_ref (x) : nullptr; uint32_t len = 0xdead;
  uint8_t * p = (uint8_t *) iot_data_binary_take (x, &len);
  VH_CHECK (len == b.size () && (!len || (p && !memcmp (p, b.data (), len))), "binary-take", "took %u bytes of %zu, or other content", len, b.size ());
  VH_CHECK (!len || p != own, "binary-take", "took a buffer that was only referenced");
  if (shared || mode == 2) { CHECK_MATCH (x, vx, "binary-take-shared"); if (len) VH_CHECK (p != iot_data_address (x), "binary-take-shared", "took a buffer still in use"); count ("takes_copied"); }
  else { V e = vx; e.s.clear (); VH_CHECK (iot_data_array_length (x) == 0 || (len && p != iot_data_address (x)), "binary-take", "value still holds the taken buffer"); count ("takes_moved"); }
  iot_data_free (shared); iot_data_free (x);
  if (len) VH_CHECK (!memcmp (p, b.data (), len), "binary-take", "taken bytes changed when the value was freed");
  free (p);
  // typed arrays of wider elements: byte size
  { iot_data_type_t t = (iot_data_type_t) r.below (IOT_DATA_BOOL); uint32_t n = (uint32_t) r.below (20); static uint64_t w[32]; for (auto & q : w) q = r.next (); iot_data_t * a = iot_data_alloc_array (w, n, t, IOT_DATA_COPY); iot_data_t * c = r.chance (1, 2) ? iot_data_add_ref (a) : nullptr; uint32_t l = 77; void * q = iot_data_binary_take (a, &l); VH_CHECK (l == n * width (t) && (!l || !memcmp (q, w, l)), "binary-take", "took %u bytes of an array of %u elements of %u bytes", l, n, width (t)); free (q); iot_data_free (c); iot_data_free (a); }
  // through JSON: the text of a binary decodes to its bytes
  { iot_data_t * jb = iot_data_alloc_binary (own, (uint32_t) b.size (), IOT_DATA_COPY); char * j = iot_data_to_json_with_size (jb, 1 + (uint32_t) r.below (40)); std::string in (j); VH_CHECK (in == "\"" + ref_b64 (b) + "\"", "binary-json", "binary encodes as %s", quote (in).substr (0, 200).c_str ()); free (j); iot_data_free (jb); }
  distinct (hash_bytes (b.data (), b.size (), (uint64_t) mode)); evaluation ();
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = {{"codec", m_codec, true}, {"bytes", m_bytes, true}, {"map", m_map, true}, {"conv", m_conv, true}};
  return run (argc, argv, modes, 4);
}
