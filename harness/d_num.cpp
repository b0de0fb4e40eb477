// C12: numeric conversion and text-to-value parsing are exact or refused.
#include "model_impl.hpp"
#include "castref.hpp"
#include <cinttypes>
using namespace vh;
static GenOpt opt () { GenOpt o; o.nan = o.inf = true; o.pointers = true; o.holes = true; return o; }

static void m_cast (Rng & r, uint64_t idx)
{
  GenOpt o = opt ();
  for (int k = 0; k < 60; k++)
  {
    V v;
    iot_data_type_t st = (iot_data_type_t) r.below (11);
    if (r.chance (1, 25)) v = gen_value (r, o, 1); else v = gen_scalar (r, o, st);
    // values next to the limits of the destination
    iot_data_type_t to = (iot_data_type_t) r.below (11);
    if (is_flt (v.t) && is_int (to) && r.chance (1, 2))
    {
      long double edge = r.chance (1, 2) ? LO[to] : HI[to];
      double e = (double) edge; int steps = (int) r.below (5) - 2;
      if (r.chance (1, 3)) e += (double) steps / 2; else for (int s = 0; s < abs (steps); s++) e = v.t == IOT_DATA_FLOAT32 ? std::nextafterf ((float) e, steps < 0 ? -INFINITY : INFINITY) : std::nextafter (e, steps < 0 ? -INFINITY : INFINITY);
      v.d = v.t == IOT_DATA_FLOAT32 ? (double) (float) e : e;
    }
    else if (is_int (v.t) && is_int (to) && r.chance (1, 2))
    {
      __int128 e = (__int128) (r.chance (1, 2) ? LO[to] : HI[to]) + (int) r.below (5) - 2;
      if (e >= (__int128) LO[v.t] && e <= (__int128) HI[v.t]) { if (is_sint (v.t)) v.i = (int64_t) e; else v.u = (uint64_t) e; }
    }
    iot_data_t * d = build (v);
    unsigned char out[24]; memset (out, 0xA5, sizeof out);
    void * dst = out + 8; // aligned
    bool ok = iot_data_cast (d, to, dst);
    V want; int w = ideal (v, to, want);
    evaluation ();
    if (w >= 0)
    {
      VH_CHECK (ok == (w == 1), "cast-acceptance", "cast of %s to %s %s", vshow (v).c_str (), iot_data_type_string (to), ok ? "succeeded but is out of range" : "refused although in range");
    }
    for (unsigned b = 0; b < sizeof out; b++) if (b < 8 || b >= 8 + (ok ? width (to) : 0)) VH_CHECK (out[b] == 0xA5, "cast-untouched", "cast of %s to %s (%s) wrote outside its destination (byte %u)", vshow (v).c_str (), iot_data_type_string (to), ok ? "ok" : "refused", b);
    if (ok && w == 1)
    {
      V got = raw_to_v (dst, to);
      VH_CHECK (same (got, want), "cast-value", "cast of %s to %s gave %s, expected %s", vshow (v).c_str (), iot_data_type_string (to), vshow (got).c_str (), vshow (want).c_str ());
      count ("casts converted");
    }
    else count ("casts refused");
    uint64_t h = hash_bytes (&to, 1, vhash (v)); distinct (h);
    // transform follows the same rule
    uint32_t refs = iot_data_ref_count (d);
    iot_data_t * t = iot_data_transform (d, to);
    if (v.t == to)
    {
      VH_CHECK (t == d, "transform-same", "transform of %s to its own type returned a different value", vshow (v).c_str ());
      if (!iot_data_is_static (d)) VH_CHECK (iot_data_ref_count (d) == refs + 1, "transform-same", "transform to own type did not take one reference");
    }
    else if (w >= 0)
    {
      VH_CHECK ((t != nullptr) == (w == 1), "transform-acceptance", "transform of %s to %s %s", vshow (v).c_str (), iot_data_type_string (to), t ? "succeeded" : "refused");
      if (t) { V got = snapshot (t); VH_CHECK (same (got, want), "transform-value", "transform of %s to %s gave %s", vshow (v).c_str (), iot_data_type_string (to), vshow (got).c_str ()); }
    }
    iot_data_free (t);
    // and the map/config style accessors
    {
      iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
      iot_data_string_map_add (m, "k", iot_data_add_ref (d));
      memset (out, 0x5A, sizeof out);
      bool ok2 = iot_data_string_map_get_number (m, "k", to, dst);
      VH_CHECK (ok2 == ok, "map-number", "map number lookup of %s as %s gave %d, cast gave %d", vshow (v).c_str (), iot_data_type_string (to), ok2, ok);
      if (ok2 && w == 1) VH_CHECK (same (raw_to_v (dst, to), want), "map-number", "map number lookup value differs for %s as %s", vshow (v).c_str (), iot_data_type_string (to));
      if (!ok2) VH_CHECK (out[8] == 0x5A, "map-number", "failed map number lookup wrote its destination");
      iot_data_free (m);
    }
    CHECK_MATCH (d, v, "source-changed");
    iot_data_free (d);
    if (k == 0 && idx < 3 && want_sample ()) show ("cast %s -> %s: %s", vshow (v).substr (0, 200).c_str (), iot_data_type_string (to), ok ? "converted" : "refused");
  }
}
static std::string pack (const V & x)
{
  char b[8] = {0}; float f = (float) x.d;
  if (x.t == IOT_DATA_FLOAT32) memcpy (b, &f, 4); else if (x.t == IOT_DATA_FLOAT64) memcpy (b, &x.d, 8); else if (x.t == IOT_DATA_BOOL) b[0] = x.b; else if (is_sint (x.t)) memcpy (b, &x.i, 8); else memcpy (b, &x.u, 8);
  return std::string (b, width (x.t));
}
static bool flat (const V & v, bool recurse, std::vector<V> & out)
{
  for (auto & x : v.e) { if (x.hole ()) continue; if (recurse && x.t == IOT_DATA_VECTOR) flat (x, recurse, out); else out.push_back (x); }
  return true;
}
static void m_transform (Rng & r, uint64_t)
{
  GenOpt o = opt (); o.inf = false; // infinity to f32 is unspecified
  for (int k = 0; k < 12; k++)
  {
    iot_data_type_t to = (iot_data_type_t) r.below (11);
    if (to == IOT_DATA_BOOL) o.nan = false; else o.nan = true;
    // array -> array
    V a = gen_typed (r, o, IOT_DATA_ARRAY, 0);
    iot_data_t * d = build_random (a, r);
    V want; want.t = IOT_DATA_ARRAY; want.et = to;
    for (size_t n = 0; n < a.s.size (); n += width (a.et)) { V x = raw_to_v (a.s.data () + n, a.et), y; if (ideal (x, to, y) == 1) want.s += pack (y); }
    log_op ("array_transform %s -> %s", vshow (a).substr (0, 180).c_str (), iot_data_type_string (to));
    iot_data_t * t = iot_data_array_transform (d, to);
    V got = snapshot (t);
    bool nan = false; for (size_t n = 0; is_flt (a.et) && n < a.s.size (); n += width (a.et)) if (std::isnan (raw_to_v (a.s.data () + n, a.et).d)) nan = true;
    VH_CHECK (got.t == want.t && got.et == want.et && got.s.size () == want.s.size () && (nan || got.s == want.s), "array-transform", "%s transformed to %s gave %s, expected %s", vshow (a).c_str (), iot_data_type_string (to), vshow (got).c_str (), vshow (want).c_str ());
    iot_data_free (t); CHECK_MATCH (d, a, "array-transform-source"); iot_data_free (d);
    evaluation (); distinct (vhash (a, to)); count ("array transforms");
    // vector -> array / vector
    V v; v.t = IOT_DATA_VECTOR;
    GenOpt vo = o; vo.depth = 3; vo.maps = r.chance (1, 3); vo.lists = r.chance (1, 3);
    v = gen_typed (r, vo, IOT_DATA_VECTOR, 1 + r.below (3));
    d = build_random (v, r);
    bool recurse = r.chance (1, 2);
    std::vector<V> el; flat (v, recurse, el);
    V wa; wa.t = IOT_DATA_ARRAY; wa.et = to; V wv; wv.t = IOT_DATA_VECTOR; wv.et = to; nan = false;
    for (auto & x : el) { V y; if (ideal (x, to, y) == 1) { wa.s += pack (y); wv.e.push_back (y); if (is_flt (x.t) && std::isnan (x.d)) nan = true; } }
    log_op ("vector_to_array %s -> %s recurse %d", vshow (v).substr (0, 180).c_str (), iot_data_type_string (to), recurse);
    t = iot_data_vector_to_array (d, to, recurse);
    got = snapshot (t);
    VH_CHECK (got.t == wa.t && got.et == wa.et && got.s.size () == wa.s.size () && (nan || got.s == wa.s), "vector-to-array", "%s to array of %s (recurse %d) gave %s, expected %s", vshow (v).c_str (), iot_data_type_string (to), recurse, vshow (got).c_str (), vshow (wa).c_str ());
    iot_data_free (t);
    t = iot_data_vector_to_vector (d, to, recurse);
    std::string why;
    VH_CHECK (matches (t, wv, why), "vector-to-vector", "%s to vector of %s (recurse %d): %s; expected %s", vshow (v).c_str (), iot_data_type_string (to), recurse, why.c_str (), vshow (wv).c_str ());
    // an element already of the type is shared, and the result is a proper value
    iot_data_hash (t); iot_data_t * c = iot_data_copy (t); if (!nan) VH_CHECK (iot_data_equal (c, t), "vector-to-vector-copy", "result of vector_to_vector does not equal its copy");
    iot_data_free (c); iot_data_free (t);
    CHECK_MATCH (d, v, "vector-transform-source"); iot_data_free (d);
    evaluation (2); distinct (vhash (v, to * 2 + recurse)); count ("vector transforms");
    if (want_sample () && k == 0) show ("vector %s -> %s (recurse %d): %zu elements", vshow (v).substr (0, 300).c_str (), iot_data_type_string (to), recurse, wv.e.size ());
  }
}
static std::string i128s (__int128 x) { bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128) x : (unsigned __int128) x; std::string s; do { s.insert (s.begin (), (char) ('0' + (int) (u % 10))); u /= 10; } while (u); return n ? "-" + s : s; }
static void m_parse (Rng & r, uint64_t)
{
  static const char * names[] = {"Int8","UInt8","Int16","UInt16","Int32","UInt32","Int64","UInt64","Float32","Float64","Bool","Pointer","String","Null","Binary","Array","Vector","List","Map","Multi"};
  for (int k = 0; k < 60; k++)
  {
    iot_data_type_t t = (iot_data_type_t) r.below (13);
    if (t == IOT_DATA_POINTER) t = (iot_data_type_t) (IOT_DATA_NULL + r.below (6));
    std::string txt; V want; want.t = t; int expect = 1;
    if (is_int (t))
    {
      __int128 x;
      switch (r.below (4))
      {
        case 0: x = (__int128) (r.chance (1, 2) ? LO[t] : HI[t]) + (int) r.below (7) - 3; break;
        case 1: x = (__int128) gen_u64 (r) * (r.chance (1, 4) ? 37 : 1); break;
        case 2: x = -(__int128) gen_u64 (r); break;
        default: x = (__int128) ((int64_t) gen_u64 (r) % ((int64_t) 1 << (width (t) * 8 - 1 > 62 ? 62 : width (t) * 8 - 1))); break;
      }
      txt = i128s (x);
      if (x >= 0 && r.chance (1, 10)) txt = "+" + txt;
      if (r.chance (1, 10)) { size_t p = (txt[0] == '-' || txt[0] == '+') ? 1 : 0; txt.insert (p, std::string (1 + r.below (5), '0')); }
      expect = (x >= (__int128) LO[t] && x <= (__int128) HI[t]);
      if (is_sint (t)) want.i = (int64_t) x; else want.u = (uint64_t) x;
      if (r.chance (1, 15)) { static const char * bad[] = {"abc", "-", "+", ".", "x1", "--1", "e5"}; txt = r.pick (bad); expect = 0; }
    }
    else if (is_flt (t))
    {
      double d = gen_f64 (r, false, false); char b[64];
      if (t == IOT_DATA_FLOAT32) { if (std::fabs (d) > FLT_MAX) d = 1.5; float f = (float) d; snprintf (b, sizeof b, "%.9g", f); want.d = f; } else { snprintf (b, sizeof b, "%.17g", d); want.d = d; }
      txt = b;
      if (r.chance (1, 15)) { txt = r.chance (1, 2) ? "abc" : "-"; expect = 0; }
    }
    else if (t == IOT_DATA_BOOL) { static const char * tx[] = {"true", "false", "True", "TRUE", "False", "FALSE"}; unsigned n = r.below (6); txt = tx[n]; want.b = n == 0 || n == 2 || n == 3; }
    else if (t == IOT_DATA_STRING) { txt = gen_string (r, opt ()); want.s = txt; }
    else { txt = "1"; expect = 0; }
    bool by_name = r.chance (1, 3);
    std::string nm = names[t]; if (r.chance (1, 3)) for (auto & c : nm) c = r.chance (1, 2) ? toupper (c) : tolower (c);
    log_op ("from_string %s \"%s\"", iot_data_type_string (t), txt.c_str ());
    iot_data_t * d = by_name ? iot_data_alloc_from_strings (nm.c_str (), txt.c_str ()) : iot_data_alloc_from_string (t, txt.c_str ());
    evaluation (); distinct (hash_bytes (txt.data (), txt.size (), t + 77));
    VH_CHECK ((d != nullptr) == (expect == 1), "parse-acceptance", "\"%s\" as %s %s%s", txt.c_str (), iot_data_type_string (t), d ? "accepted as " : "refused", d ? vshow (snapshot (d)).c_str () : "");
    if (d) { V got = snapshot (d); VH_CHECK (same (got, want), "parse-value", "\"%s\" as %s gave %s", txt.c_str (), iot_data_type_string (t), vshow (got).c_str ()); count ("texts parsed"); }
    else count ("texts refused");
    VH_CHECK (iot_data_name_type (nm.c_str ()) == t, "type-name", "type name %s not recognised", nm.c_str ());
    VH_CHECK (strcmp (iot_data_type_string (t), names[t]) == 0, "type-name", "type %d named %s", (int) t, iot_data_type_string (t));
    if (t <= IOT_DATA_BOOL) VH_CHECK (iot_data_type_size (t) == width (t), "type-size", "size of %s is %u", names[t], iot_data_type_size (t));
    iot_data_free (d);
  }
}
static const Mode modes[] = { {"cast", m_cast, true}, {"transform", m_transform, true}, {"parse", m_parse, true} };
int main (int argc, char ** argv) { return run (argc, argv, modes, 3); }
