// C04: CBOR encoding. Oracle: an independent RFC 8949 decoder written here, comparing each item with the ideal value.
#include "model_impl.hpp"
using namespace vh;
static V arr_elem (const V & a, size_t k)
{
  V v; v.t = a.et; unsigned w = width (a.et); const char * p = a.s.data () + k * w;
  switch (a.et)
  {
#define AE(T, C, F) case T: { C x; memcpy (&x, p, sizeof x); v.F = x; break; }
    AE (IOT_DATA_INT8, int8_t, i) AE (IOT_DATA_UINT8, uint8_t, u) AE (IOT_DATA_INT16, int16_t, i) AE (IOT_DATA_UINT16, uint16_t, u)
    AE (IOT_DATA_INT32, int32_t, i) AE (IOT_DATA_UINT32, uint32_t, u) AE (IOT_DATA_INT64, int64_t, i) AE (IOT_DATA_UINT64, uint64_t, u)
    AE (IOT_DATA_FLOAT32, float, d) AE (IOT_DATA_FLOAT64, double, d) AE (IOT_DATA_BOOL, bool, b)
#undef AE
    default: break;
  }
  return v;
}
static double half (uint16_t h)
{
  int e = (h >> 10) & 31, m = h & 1023; double d = e == 0 ? ldexp (m, -24) : e == 31 ? (m ? NAN : INFINITY) : ldexp (m + 1024, e - 25);
  return h & 0x8000 ? -d : d;
}
// Known finding: negative integers are written with argument -n where RFC 8949 requires -1-n. Only that exact deviation is set apart.
static bool strict_negatives = false;
static uint64_t off_by_one;
struct Dec {
  const uint8_t * p, * e; std::string err;
  bool bad (const std::string & w) { if (err.empty ()) err = w; return false; }
  struct Item { unsigned major; uint64_t arg; unsigned info; };
  bool head (Item & h)
  {
    if (p >= e) return bad ("truncated");
    uint8_t b = *p++; h.major = b >> 5; h.info = b & 31;
    if (h.info < 24) { h.arg = h.info; return true; }
    if (h.info > 27) return bad ("indefinite length or reserved");
    unsigned n = 1u << (h.info - 24);
    if ((size_t) (e - p) < n) return bad ("truncated argument");
    h.arg = 0; while (n--) h.arg = h.arg << 8 | *p++;
    if (h.major == 7 && h.info == 24 && h.arg < 32) return bad ("ill-formed simple value");
    if (h.major != 7 && h.arg < (h.info == 24 ? 24u : h.info == 25 ? 0x100u : h.info == 26 ? 0x10000ull : 0x100000000ull)) return bad ("integer or length not in its shortest form");
    return true;
  }
  bool item (const V & v)
  {
    Item h; if (!head (h)) return false;
    auto no = [&] (const char * w) { return bad (std::string (w) + ": item major " + std::to_string (h.major) + " argument " + std::to_string (h.arg) + " for " + vh::quote (vshow (v)).substr (0, 200)); };
    if (v.hole () || v.t == IOT_DATA_NULL) return (h.major == 7 && h.info == 22) || no ("not null");
    if (is_uint (v.t) || (is_sint (v.t) && v.i >= 0)) return (h.major == 0 && h.arg == (is_uint (v.t) ? v.u : (uint64_t) v.i)) || no ("unsigned differs");
    if (is_sint (v.t))
    {
      if (h.major != 1) return no ("negative integer expected");
      if (h.arg == (uint64_t) (-1 - v.i)) return true;
      if (h.arg == 0u - (uint64_t) v.i && !strict_negatives) { off_by_one++; return true; }
      return no ("negative differs");
    }
    if (is_flt (v.t))
    {
      if (h.major != 7 || h.info < 25 || h.info > 27) return no ("float expected");
      double d;
      if (h.info == 27) memcpy (&d, &h.arg, 8); else if (h.info == 26) { uint32_t b = (uint32_t) h.arg; float f; memcpy (&f, &b, 4); d = f; } else d = half ((uint16_t) h.arg);
      if (std::isnan (v.d)) return std::isnan (d) || no ("NaN expected");
      return (d == v.d && std::signbit (d) == std::signbit (v.d)) || no ("float differs");
    }
    switch (v.t)
    {
      case IOT_DATA_BOOL: return (h.major == 7 && h.info == (v.b ? 21u : 20u)) || no ("boolean differs");
      case IOT_DATA_STRING: case IOT_DATA_BINARY:
      {
        if (h.major != (v.t == IOT_DATA_STRING ? 3u : 2u)) return no ("text or bytes expected");
        if (h.arg != v.s.size () || (size_t) (e - p) < h.arg) return no ("length differs");
        if (memcmp (p, v.s.data (), v.s.size ())) return no ("content differs");
        p += h.arg; return true;
      }
      case IOT_DATA_ARRAY:
      {
        size_t n = v.s.size () / width (v.et);
        if (h.major != 4 || h.arg != n) return no ("array differs");
        for (size_t k = 0; k < n; k++) if (!item (arr_elem (v, k))) return false;
        return true;
      }
      case IOT_DATA_VECTOR: case IOT_DATA_LIST:
        if (h.major != 4 || h.arg != v.e.size ()) return no ("array differs");
        for (auto & x : v.e) if (!item (x)) return false;
        return true;
      case IOT_DATA_MAP:
      {
        if (h.major != 5 || h.arg != v.m.size ()) return no ("map differs");
        std::vector<bool> used (v.m.size ());
        for (size_t k = 0; k < v.m.size (); k++)
        {
          const uint8_t * at = p; bool found = false; std::string why;
          for (size_t q = 0; q < v.m.size () && !found; q++)   // pairs may come in any order
          {
            size_t x = (k + q) % v.m.size ();
            if (used[x]) continue;
            p = at; err.clear ();
            if (!item (v.m[x].first) || !item (v.m[x].second)) { if (why.empty ()) why = err; continue; }
            used[x] = found = true; err.clear ();
          }
          if (!found) { err = why; return false; }
        }
        return true;
      }
      default: return no ("unexpected type");
    }
  }
};
static void check_cbor (const iot_data_t * c, const V & v, const char * how)
{
  VH_CHECK (c && iot_data_type (c) == IOT_DATA_BINARY, "cbor-none", "%s: no binary returned", how);
  Dec d { (const uint8_t *) iot_data_address (c), (const uint8_t *) iot_data_address (c) + iot_data_array_size (c), "" };
  bool ok = d.item (v);
  std::string hex; char b[4]; for (uint32_t k = 0; k < iot_data_array_size (c) && k < 200; k++) { snprintf (b, sizeof b, "%02x", ((const uint8_t *) iot_data_address (c))[k]); hex += b; }
  VH_CHECK (ok, "cbor-wrong", "%s: %s; bytes %s", how, d.err.c_str (), hex.c_str ());
  VH_CHECK (d.p == d.e, "cbor-trailing", "%s: %zu bytes after the item; bytes %s", how, (size_t) (d.e - d.p), hex.c_str ());
}
static void m_encode (Rng & r, uint64_t)
{
  GenOpt o; o.depth = 1 + r.below (4); o.width = 1 + r.below (6); o.nan = true; o.inf = true; o.composed_keys = r.chance (1, 3); o.holes = r.chance (1, 3); o.long_strings = r.chance (1, 5); o.metadata = r.chance (1, 5);
  V v = gen_value (r, o);
  if (r.chance (1, 6)) { v = V (); v.t = IOT_DATA_VECTOR; unsigned n = r.below (70); for (unsigned k = 0; k < n; k++) v.e.push_back (gen_scalar (r, o, (iot_data_type_t) r.below (11))); }   // counts across the length encodings
  if (r.chance (1, 60)) { v = V (); v.t = IOT_DATA_VECTOR; unsigned n = r.chance (1, 3) ? 65530 + r.below (12) : 200 + r.below (120); for (unsigned k = 0; k < n; k++) v.e.push_back (vbool (k & 1)); }
  if (r.chance (1, 20)) { v = vbin (std::string (r.chance (1, 3) ? 65530 + r.below (12) : r.below (300), (char) r.next ())); }
  iot_data_t * d = v.e.size () > 100 ? build (v) : build_random (v, r);
  log_op ("value %s", quote (vshow (v)).substr (0, 300).c_str ());
  iot_data_t * c = iot_data_to_cbor (d);
  check_cbor (c, v, "default size");
  uint32_t n = iot_data_array_size (c);
  for (int k = 0; k < 4; k++)
  {
    uint32_t sz = k == 0 ? 1 : k == 1 ? n : 1 + (uint32_t) r.below (n + 20);
    iot_data_t * e = iot_data_to_cbor_with_size (d, sz);
    VH_CHECK (e && iot_data_array_size (e) == n && !memcmp (iot_data_address (e), iot_data_address (c), n), "cbor-size-dependent", "initial size %u gives other bytes", sz);
    VH_CHECK (iot_data_equal (e, c), "cbor-size-dependent", "initial size %u gives another value", sz);
    iot_data_free (e); evaluation ();
  }
  CHECK_MATCH (d, v, "cbor-changes-value");
  iot_data_free (c); iot_data_free (d);
  if (off_by_one) { count ("negative_integers_off_by_one_as_recorded", off_by_one); off_by_one = 0; }
  distinct (vhash (v)); evaluation ();
  if (want_sample ()) show ("%u bytes for %s", n, vshow (v).substr (0, 200).c_str ());
}
// Every scalar near every boundary of the argument encodings
static void m_scalar (Rng & r, uint64_t)
{
  GenOpt o; o.nan = true; o.inf = true;
  for (int k = 0; k < 40; k++)
  {
    iot_data_type_t t = (iot_data_type_t) r.below (11);
    V v = gen_scalar (r, o, t);
    iot_data_t * d = build (v); iot_data_t * c = iot_data_to_cbor_with_size (d, 1 + (uint32_t) r.below (3));
    check_cbor (c, v, "scalar");
    iot_data_free (c); iot_data_free (d); distinct (vhash (v)); evaluation ();
  }
  off_by_one = 0;
}
static void m_negative (Rng &, uint64_t)   // probe for the recorded finding
{
  iot_data_t * d = iot_data_alloc_i64 (-12); iot_data_t * c = iot_data_to_cbor (d);
  const uint8_t * p = (const uint8_t *) iot_data_address (c); uint32_t n = iot_data_array_size (c);
  VH_CHECK (!(n == 1 && p[0] == 0x2c), "cbor-negative", "-12 encoded as 2c, which denotes -13");
  VH_CHECK (n == 1 && p[0] == 0x2b, "cbor-wrong", "-12 encoded wrongly (%u bytes, first %02x)", n, p[0]);
  iot_data_free (c); iot_data_free (d); evaluation ();
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = {{"encode", m_encode, true}, {"scalar", m_scalar, true}, {"negative", m_negative, true}};
  return run (argc, argv, modes, 3);
}
