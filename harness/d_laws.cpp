// C09: comparison is a total order that agrees with equality and hashing.
#include "ops.hpp"
#include "iot/uuid.h"
static int sgn (int x) { return (x > 0) - (x < 0); }
static GenOpt opt (Rng & r)
{
  GenOpt o; o.pointers = true; o.inf = true; o.holes = true; o.width = 4; o.depth = 2 + r.below (2); o.composed_keys = r.chance (1, 4); o.neg_zero = true;
  return o;
}
// -0.0 and 0.0 are equal numbers but differ as array bytes; both are handled by vcmp. Map keys 0.0/-0.0 collapse: exclude them there.
static void strip_neg_zero_keys (V & v)
{
  for (auto & x : v.e) strip_neg_zero_keys (x);
  for (auto & kv : v.m) { strip_neg_zero_keys (kv.second); std::function<void (V &)> f = [&] (V & k) { if (is_flt (k.t) && k.d == 0) k.d = 0.0; for (auto & x : k.e) f (x); for (auto & y : k.m) { f (y.first); f (y.second); } }; f (kv.first); }
}
static bool natural (const V & a, const V & b, int & want)   // natural order defined by the documentation
{
  if (a.t != b.t) return false;
  if (a.t <= IOT_DATA_STRING) { want = vcmp (a, b); return true; }
  if (a.t == IOT_DATA_NULL) { want = 0; return true; }
  if (a.t == IOT_DATA_BINARY || a.t == IOT_DATA_ARRAY) { want = vcmp (a, b); return true; }
  size_t la = a.t == IOT_DATA_MAP ? a.m.size () : a.e.size (), lb = a.t == IOT_DATA_MAP ? b.m.size () : b.e.size ();
  if (la != lb) { want = la < lb ? -1 : 1; return true; }
  return false;
}
static int wide_cmp (const V & a, const V & b)   // exact mathematical comparison of two integers or two floats of any width
{
  if (is_int (a.t)) { __int128 x = is_sint (a.t) ? (__int128) a.i : (__int128) a.u, y = is_sint (b.t) ? (__int128) b.i : (__int128) b.u; return x < y ? -1 : x > y; }
  return a.d < b.d ? -1 : a.d > b.d;
}
static void judge_pair (const V & a, const iot_data_t * da, const V & b, const iot_data_t * db, const char * how)
{
  int ab = sgn (iot_data_compare (da, db)), ba = sgn (iot_data_compare (db, da));
  bool eq = iot_data_equal (da, db), want = veq (a, b);
#define PAIR quote (vshow (a)).substr (0, 300).c_str (), quote (vshow (b)).substr (0, 300).c_str (), how
  VH_CHECK (ab == -ba, "compare-antisymmetric", "compare gives %d and %d: %s / %s (%s)", ab, ba, PAIR);
  VH_CHECK (eq == iot_data_equal (db, da), "equal-symmetric", "equal is not symmetric: %s / %s (%s)", PAIR);
  VH_CHECK (eq == want, "equal", "equal gives %d: %s / %s (%s)", eq, PAIR);
  VH_CHECK ((ab == 0) == eq, "compare-equal-agree", "compare %d, equal %d: %s / %s (%s)", ab, eq, PAIR);
  VH_CHECK (!eq || iot_data_hash (da) == iot_data_hash (db), "hash-agrees", "equal values hash to %08x and %08x: %s / %s (%s)", iot_data_hash (da), iot_data_hash (db), PAIR);
  int nat; if (natural (a, b, nat)) VH_CHECK (ab == nat, "compare-natural", "compare gives %d, natural order %d: %s / %s (%s)", ab, nat, PAIR);
  int vab = sgn (iot_data_compare_value (da, db)), vba = sgn (iot_data_compare_value (db, da));
  bool veqv = iot_data_equal_value (da, db);
  VH_CHECK (vab == -vba, "compare-value-antisymmetric", "compare_value gives %d and %d: %s / %s (%s)", vab, vba, PAIR);
  VH_CHECK (veqv == (vab == 0) && veqv == iot_data_equal_value (db, da), "equal-value-agree", "compare_value %d, equal_value %d: %s / %s (%s)", vab, veqv, PAIR);
  VH_CHECK (!eq || vab == 0, "equal-implies-equal-value", "equal but compare_value %d: %s / %s (%s)", vab, PAIR);
  if ((is_int (a.t) && is_int (b.t)) || (is_flt (a.t) && is_flt (b.t))) { int w = wide_cmp (a, b); VH_CHECK (vab == w, "compare-value", "compare_value gives %d, mathematically %d: %s / %s (%s)", vab, w, PAIR); count ("numeric pairs of any width"); }
  else if (a.t != b.t) VH_CHECK (vab != 0, "compare-value", "different types compare equal by value: %s / %s (%s)", PAIR);
  if (want) count ("equal pairs"); else count (a.t == b.t ? "unequal pairs of one type" : "pairs of two types");
  evaluation ();
#undef PAIR
}
static void m_pool (Rng & r, uint64_t idx)
{
  GenOpt o = opt (r);
  std::vector<V> vs; std::vector<iot_data_t *> ds;
  iot_data_static_t st[6]; unsigned nst = 0;
  unsigned n = 6 + r.below (4);
  bool narrow = r.chance (1, 3);   // all values of one type
  iot_data_type_t one = (iot_data_type_t) r.below (19);
  for (unsigned k = 0; k < n; k++) { vs.push_back (narrow ? gen_typed (r, o, one, o.depth) : gen_value (r, o)); }
  for (unsigned k = 0; k < 6; k++) vs.push_back (vs[r.below (vs.size ())]);
  for (unsigned k = 0; k < 6; k++) vs.push_back (mutate_value (r, o, vs[r.below (vs.size ())]));
  for (unsigned k = 0; k < 3; k++)   // the same number in another width, possibly wrapped inside a container
  {
    V x = vs[r.below (vs.size ())];
    if (is_int (x.t)) { iot_data_type_t t = (iot_data_type_t) r.below (8); V y; y.t = t; if (is_sint (t)) { int sh = 64 - 8 * width (t); int64_t i = is_sint (x.t) ? x.i : (int64_t) x.u; y.i = (int64_t) ((uint64_t) i << sh) >> sh; } else { uint64_t u = is_sint (x.t) ? (uint64_t) x.i : x.u; unsigned bits = 8 * width (t); y.u = bits == 64 ? u : u & ((1ull << bits) - 1); } vs.push_back (y); }
    else if (is_flt (x.t)) vs.push_back (vflt (x.t == IOT_DATA_FLOAT32 ? IOT_DATA_FLOAT64 : IOT_DATA_FLOAT32, std::fabs (x.d) > FLT_MAX && std::isfinite (x.d) ? 1.0 : x.d));
    else { V w; w.t = r.chance (1, 2) ? IOT_DATA_VECTOR : IOT_DATA_LIST; w.e.push_back (x); if (r.chance (1, 2)) w.e.push_back (x); vs.push_back (w); }
  }
  for (auto & v : vs) strip_neg_zero_keys (v);
  for (auto & v : vs)
  {
    iot_data_t * d = nullptr;
    if (nst < 6 && r.chance (1, 3))   // constant storage
    {
      iot_data_static_t * s = &st[nst];
      switch (v.t)
      {
        case IOT_DATA_INT8: d = iot_data_alloc_const_i8 (s, (int8_t) v.i); break;
        case IOT_DATA_UINT8: d = iot_data_alloc_const_ui8 (s, (uint8_t) v.u); break;
        case IOT_DATA_INT16: d = iot_data_alloc_const_i16 (s, (int16_t) v.i); break;
        case IOT_DATA_UINT16: d = iot_data_alloc_const_ui16 (s, (uint16_t) v.u); break;
        case IOT_DATA_INT32: d = iot_data_alloc_const_i32 (s, (int32_t) v.i); break;
        case IOT_DATA_UINT32: d = iot_data_alloc_const_ui32 (s, (uint32_t) v.u); break;
        case IOT_DATA_INT64: d = iot_data_alloc_const_i64 (s, v.i); break;
        case IOT_DATA_UINT64: d = iot_data_alloc_const_ui64 (s, v.u); break;
        case IOT_DATA_STRING: d = iot_data_alloc_const_string (s, v.s.c_str ()); break;
        case IOT_DATA_POINTER: d = iot_data_alloc_const_pointer (s, v.p); break;
        default: break;
      }
      if (d) { nst++; count ("static values"); }
    }
    if (!d) d = r.chance (1, 3) ? build (v) : build_random (v, r);
    if (r.chance (1, 3)) iot_data_hash (d);
    if (r.chance (1, 8) && !v.hole ()) iot_data_compress (d);
    ds.push_back (d);
  }
  size_t m = vs.size ();
  for (size_t a = 0; a < m; a++)
  {
    VH_CHECK (iot_data_compare (ds[a], ds[a]) == 0 && iot_data_equal (ds[a], ds[a]) && iot_data_compare_value (ds[a], ds[a]) == 0, "reflexive", "a value differs from itself: %s", quote (vshow (vs[a])).c_str ());
    VH_CHECK (iot_data_compare (nullptr, ds[a]) < 0 && iot_data_compare (ds[a], nullptr) > 0 && !iot_data_equal (ds[a], nullptr) && !iot_data_equal (nullptr, ds[a]), "compare-null", "NULL does not sort before a value");
    for (size_t b = 0; b <= a; b++) judge_pair (vs[a], ds[a], vs[b], ds[b], "pool");
    distinct (vhash (vs[a]));
  }
  for (unsigned which = 0; which < 2; which++)
  {
    auto fn = which ? iot_data_compare_value : iot_data_compare;
    std::vector<int> c (m * m);
    for (size_t a = 0; a < m; a++) for (size_t b = 0; b < m; b++) c[a * m + b] = sgn (fn (ds[a], ds[b]));
    for (size_t x = 0; x < m; x++) for (size_t y = 0; y < m; y++) for (size_t z = 0; z < m; z++)
      if (c[x * m + y] <= 0 && c[y * m + z] <= 0)
      {
        int xz = c[x * m + z]; bool strict = c[x * m + y] < 0 || c[y * m + z] < 0;
        VH_CHECK (xz <= 0 && (!strict || xz < 0), which ? "compare-value-transitive" : "compare-transitive", "a<=b<=c but compare(a,c)=%d: %s / %s / %s", xz, quote (vshow (vs[x])).substr (0, 200).c_str (), quote (vshow (vs[y])).substr (0, 200).c_str (), quote (vshow (vs[z])).substr (0, 200).c_str ());
      }
    count ("triples judged", m * m * m);
  }
  for (size_t a = 0; a < m; a++) VH_CHECK (veq (snapshot (ds[a]), vs[a]), "compare-changed-value", "comparing changed %s", quote (vshow (vs[a])).c_str ());
  if (idx < 3 && want_sample ()) show ("pool of %zu values, e.g. %s", m, vshow (vs[0]).substr (0, 200).c_str ());
  for (auto d : ds) iot_data_free (d);
}
// A container reached by a random history, its hash taken at random moments, judged against fresh values
static void m_history (Rng & r, uint64_t)
{
  GenOpt o = opt (r); o.neg_zero = false; o.holes = true; o.width = 3; o.depth = 2;
  unsigned kind = r.below (3), steps = 15 + r.below (40);
  iot_data_type_t et = r.chance (2, 3) ? IOT_DATA_MULTI : (iot_data_type_t) r.below (16);
  auto judge = [&] (const iot_data_t * d, const V & m)
  {
    iot_data_t * f = build_random (m, r); judge_pair (m, d, m, f, "history against fresh"); iot_data_free (f);
    V x = mutate_value (r, o, m); f = build (x); judge_pair (m, d, x, f, "history against neighbour"); iot_data_free (f);
    // inside a container
    iot_data_t * l1 = iot_data_alloc_list (), * l2 = iot_data_alloc_list (); V lv; lv.t = IOT_DATA_LIST; lv.e.push_back (m);
    iot_data_list_head_push (l1, iot_data_add_ref (d)); iot_data_list_head_push (l2, build (m));
    judge_pair (lv, l1, lv, l2, "history inside list"); iot_data_free (l1); iot_data_free (l2);
    distinct (vhash (m));
  };
  if (kind == 0)
  {
    MapOps ops (r, o, r.chance (1, 2) ? IOT_DATA_STRING : IOT_DATA_MULTI, et, 3 + r.below (8));
    for (unsigned k = 0; k < steps; k++) { ops.step (); if (r.chance (1, 3)) judge (ops.d, ops.m); }
    judge (ops.d, ops.m);
  }
  else
  {
    SeqOps ops (r, o, kind == 1, et, r.below (8));
    for (unsigned k = 0; k < steps; k++) { ops.step (); if (r.chance (1, 3)) judge (ops.d, ops.m); }
    judge (ops.d, ops.m);
  }
  count ("histories");
}
// Scalars and bytes changed in place
static void m_inplace (Rng & r, uint64_t)
{
  GenOpt o = opt (r);
  for (unsigned rep = 0; rep < 30; rep++)
  {
    V v; iot_data_t * d; const char * how;
    switch (r.below (7))
    {
      case 0: case 1:
      {
        bool up = r.below (2); iot_data_type_t t = (iot_data_type_t) r.below (8);
        v = gen_scalar (r, o, t); if (r.chance (1, 4)) { unsigned b = width (t) * 8; if (is_sint (t)) v.i = (int64_t) ((1ull << (b - 1)) - 1); else v.u = b == 64 ? ~0ull : (1ull << b) - 1; if (!up) { if (is_sint (t)) v.i = -v.i - 1; else v.u = 0; } }
        d = build (v); if (r.chance (1, 2)) iot_data_hash (d);
        unsigned n = 1 + r.below (3);
        for (unsigned k = 0; k < n; k++)
        {
          up ? iot_data_increment (d) : iot_data_decrement (d);
          unsigned sh = 64 - 8 * width (t);
          if (is_sint (t)) v.i = (int64_t) (((uint64_t) v.i + (up ? 1ull : ~0ull)) << sh) >> sh; else v.u = ((v.u + (up ? 1ull : ~0ull)) << sh) >> sh;
        }
        how = "increment/decrement"; break;
      }
      case 2: v = gen_typed (r, o, IOT_DATA_BINARY, 0); d = build (v); if (r.chance (1, 2)) iot_data_hash (d); iot_data_binary_to_array (d); v.t = IOT_DATA_ARRAY; how = "binary to array"; break;
      case 3: do v = gen_typed (r, o, IOT_DATA_ARRAY, 0); while (v.et != IOT_DATA_UINT8); d = build (v); if (r.chance (1, 2)) iot_data_hash (d); iot_data_array_to_binary (d); v.t = IOT_DATA_BINARY; how = "array to binary"; break;
      case 4:
      {
        v = gen_typed (r, o, r.chance (1, 2) ? IOT_DATA_BINARY : IOT_DATA_ARRAY, 0); d = build (v); if (r.chance (1, 2)) iot_data_hash (d);
        uint32_t len = 0; void * p = iot_data_binary_take (d, &len); VH_CHECK (len == v.s.size () && (!len || memcmp (p, v.s.data (), len) == 0), "binary-take", "took %u bytes of %zu", len, v.s.size ()); free (p);
        v.s.clear (); how = "binary take"; break;
      }
      case 5: { V s = gen_scalar (r, o, IOT_DATA_STRING); iot_data_t * sd = build (s); d = iot_data_binary_from_string (sd); iot_data_free (sd); v = vbin (s.s); how = "binary from string"; break; }
      default: { v = gen_scalar (r, o, IOT_DATA_STRING); V b = vbin (v.s); iot_data_t * bd = build (b); d = iot_data_string_from_binary (bd); iot_data_free (bd); how = "string from binary"; break; }
    }
    log_op ("%s giving %s", how, vshow (v).substr (0, 200).c_str ());
    CHECK_MATCH (d, v, "inplace-value");
    iot_data_t * f = build_random (v, r); judge_pair (v, d, v, f, how);
    iot_data_t * a1 = iot_data_alloc_vector (1), * a2 = iot_data_alloc_vector (1); iot_data_vector_add (a1, 0, d); iot_data_vector_add (a2, 0, f);
    V w; w.t = IOT_DATA_VECTOR; w.e.push_back (v); judge_pair (w, a1, w, a2, how);
    iot_data_free (a1); iot_data_free (a2);
    distinct (vhash (v)); count ("in-place changes");
  }
}
// Typecodes: a value matches exactly the typecode of its own type, element type and key type
static void m_typecode (Rng & r, uint64_t)
{
  GenOpt o = opt (r);
  for (unsigned k = 0; k < 20; k++)
  {
    V a = gen_value (r, o), b = r.chance (1, 2) ? mutate_value (r, o, a) : gen_value (r, o);
    iot_data_t * da = build_random (a, r), * db = build_random (b, r); iot_typecode_t ta, tb; iot_data_typecode (da, &ta); iot_data_typecode (db, &tb);
    auto et = [] (const V & v) { return v.t >= IOT_DATA_BINARY ? v.et : IOT_DATA_INVALID; }; auto kt = [] (const V & v) { return v.t == IOT_DATA_MAP ? v.kt : IOT_DATA_INVALID; };
    bool same = a.t == b.t && et (a) == et (b) && kt (a) == kt (b);
    VH_CHECK (ta.type == a.t && (a.t < IOT_DATA_ARRAY || ta.element_type == a.et) && (a.t != IOT_DATA_MAP || ta.key_type == a.kt), "typecode", "typecode %u/%u/%u of %s", ta.type, ta.element_type, ta.key_type, vshow (a).c_str ());
    VH_CHECK (iot_typecode_equal (&ta, &tb) == same && iot_data_matches (da, &tb) == same && iot_data_matches (db, &ta) == same && iot_data_matches (da, &ta), "matches", "typecodes of %s and %s", quote (vshow (a)).c_str (), quote (vshow (b)).c_str ());
    iot_data_free (da); iot_data_free (db); evaluation (); count ("typecodes");
  }
}
static const Mode modes[] = { {"pool", m_pool, true}, {"history", m_history, true}, {"inplace", m_inplace, true}, {"typecode", m_typecode, true} };
int main (int argc, char ** argv) { return run (argc, argv, modes, 4); }
