// C25: what a value says about itself (type, element and key types, typecode, names, tags, being not a number), counting up and down,
// formatted strings, and the text predicates. Oracles: the ideal value, exact arithmetic, the C library's own formatting, rules written here.
#include "model_impl.hpp"
#include "iot/util.h"
#include "iot/hash.h"
#include <ctype.h>
using namespace vh;
static GenOpt opt () { GenOpt o; o.nan = o.inf = true; o.pointers = true; o.holes = true; o.composed_keys = true; o.depth = 2; o.width = 4; return o; }
static const char * const NAMES[] = { "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64", "Bool", "Pointer", "String", "Null", "Binary", "Array", "Vector", "List", "Map", "Multi", "Invalid" };
static V gen (Rng & r, bool nan = true) { GenOpt o = opt (); o.nan = nan; V v = r.chance (1, 3) ? gen_typed (r, o, (iot_data_type_t) r.below (19), 2) : gen_value (r, o); return v; }
static void ask (const iot_data_t * d, const V & v)
{
  std::string s = quote (vshow (v)).substr (0, 200); const char * c = s.c_str ();
  VH_CHECK (iot_data_type (d) == v.t, "type", "type %u of %s", iot_data_type (d), c);
  VH_CHECK (!strcmp (iot_data_type_name (d), NAMES[v.t]), "type-name", "type name %s of %s", iot_data_type_name (d), c);
  bool arr = v.t == IOT_DATA_ARRAY || v.t == IOT_DATA_BINARY;
  for (unsigned t = 0; t <= IOT_DATA_INVALID; t++)
  {
    iot_data_type_t ty = (iot_data_type_t) t;
    VH_CHECK (iot_data_is_of_type (d, ty) == (v.t == ty), "is-of-type", "%s is %sof type %s", c, iot_data_is_of_type (d, ty) ? "" : "not ", NAMES[t]);
    VH_CHECK (iot_data_array_is_of_type (d, ty) == (arr && v.et == ty), "array-is-of-type", "%s as an array of %s", c, NAMES[t]);
    VH_CHECK (iot_data_map_key_is_of_type (d, ty) == (v.t == IOT_DATA_MAP && v.kt == ty), "key-is-of-type", "%s as a map keyed by %s", c, NAMES[t]);
  }
  if (arr) VH_CHECK (iot_data_array_type (d) == v.et, "element-type", "element type %u of %s", iot_data_array_type (d), c);
  if (v.t == IOT_DATA_LIST) VH_CHECK (iot_data_list_type (d) == v.et, "element-type", "element type %u of %s", iot_data_list_type (d), c);
  if (v.t == IOT_DATA_VECTOR) VH_CHECK (iot_data_vector_type (d) == v.et, "element-type", "element type %u of %s", iot_data_vector_type (d), c);
  if (v.t == IOT_DATA_MAP) VH_CHECK (iot_data_map_type (d) == v.et && iot_data_map_key_type (d) == v.kt, "element-type", "element type %u, key type %u of %s", iot_data_map_type (d), iot_data_map_key_type (d), c);
  VH_CHECK (iot_data_is_nan (d) == (is_flt (v.t) && std::isnan (v.d)), "is-nan", "%s is %sNaN", c, iot_data_is_nan (d) ? "" : "not ");
  const void * a = iot_data_address (d);
  if (v.t == IOT_DATA_POINTER) VH_CHECK (a == v.p, "address", "address of %s", c);
  else if (arr) VH_CHECK (v.s.empty () || (a && !memcmp (a, v.s.data (), v.s.size ())), "address", "bytes of %s", c);
  else if (is_int (v.t) || is_flt (v.t) || v.t == IOT_DATA_BOOL)
  {
    VH_CHECK (a != NULL, "address", "no address of %s", c); bool ok = true;
    if (is_sint (v.t)) { int64_t x = 0; ok = v.t == IOT_DATA_INT8 ? (x = *(const int8_t *) a) == v.i : v.t == IOT_DATA_INT16 ? (x = *(const int16_t *) a) == v.i : v.t == IOT_DATA_INT32 ? (x = *(const int32_t *) a) == v.i : (x = *(const int64_t *) a) == v.i; }
    else if (is_uint (v.t)) ok = v.t == IOT_DATA_UINT8 ? *(const uint8_t *) a == v.u : v.t == IOT_DATA_UINT16 ? *(const uint16_t *) a == v.u : v.t == IOT_DATA_UINT32 ? *(const uint32_t *) a == v.u : *(const uint64_t *) a == v.u;
    else if (is_flt (v.t)) { double x = v.t == IOT_DATA_FLOAT32 ? *(const float *) a : *(const double *) a; ok = x == v.d || (std::isnan (x) && std::isnan (v.d)); }
    else ok = *(const bool *) a == v.b;
    VH_CHECK (ok, "address", "value at the address of %s", c);
  }
  else if (v.t >= IOT_DATA_VECTOR) VH_CHECK (a == NULL, "address", "%s has an address", c);
  switch (v.t)
  {
#define ACC(T, f, val) case T: VH_CHECK (f (d) == (val), "accessor", "accessor of %s", c); break;
    ACC (IOT_DATA_INT8, iot_data_i8, v.i) ACC (IOT_DATA_INT16, iot_data_i16, v.i) ACC (IOT_DATA_INT32, iot_data_i32, v.i) ACC (IOT_DATA_INT64, iot_data_i64, v.i)
    ACC (IOT_DATA_UINT8, iot_data_ui8, v.u) ACC (IOT_DATA_UINT16, iot_data_ui16, v.u) ACC (IOT_DATA_UINT32, iot_data_ui32, v.u) ACC (IOT_DATA_UINT64, iot_data_ui64, v.u)
    ACC (IOT_DATA_BOOL, iot_data_bool, v.b) ACC (IOT_DATA_STRING, iot_data_string, v.s) ACC (IOT_DATA_POINTER, iot_data_pointer, v.p)
#undef ACC
    default: break;
  }
}
static void m_query (Rng & r, uint64_t i)
{
  for (unsigned t = 0; t <= IOT_DATA_INVALID; t++) { iot_data_type_t ty = (iot_data_type_t) t; VH_CHECK (!iot_data_is_of_type (NULL, ty) && !iot_data_map_key_is_of_type (NULL, ty) && !iot_data_array_is_of_type (NULL, ty), "null", "nothing is of type %s", NAMES[t]); }
  VH_CHECK (iot_data_type (NULL) == IOT_DATA_INVALID && !iot_data_is_nan (NULL) && !iot_data_is_static (NULL), "null", "nothing has a type");
  std::vector<iot_typecode_t> codes; std::vector<V> vals;
  auto et = [] (const V & v) { return v.t >= IOT_DATA_ARRAY ? v.et : IOT_DATA_INVALID; }; auto kt = [] (const V & v) { return v.t == IOT_DATA_MAP ? v.kt : IOT_DATA_INVALID; };
  for (unsigned k = 0; k < 16; k++)
  {
    V v = gen (r), w = v; if (k && r.chance (1, 2))
    { // the same kind of container as an earlier one, with other element or key types
      GenOpt o = opt (); const V & p = r.pick (vals); v = gen_typed (r, o, p.t, 1); if (p.t > IOT_DATA_BINARY && r.chance (1, 2)) { if (p.t == IOT_DATA_ARRAY) { v.et = (iot_data_type_t) r.below (11); v.s.assign (width (v.et) * r.below (5), '\1'); } else { v.e.clear (); v.m.clear (); v.et = r.chance (1, 2) ? p.et : (iot_data_type_t) r.below (20); if (p.t == IOT_DATA_MAP) { v.kt = r.chance (1, 2) ? p.kt : (iot_data_type_t) r.below (20); if (v.kt == IOT_DATA_NULL) v.kt = IOT_DATA_MULTI; } } }
    }
    iot_data_t * d = build_random (v, r); ask (d, v);
    iot_typecode_t tc; memset (&tc, 0x77, sizeof tc); iot_data_typecode (d, &tc);
    VH_CHECK (tc.type == v.t && (v.t < IOT_DATA_ARRAY || tc.element_type == v.et) && (v.t != IOT_DATA_MAP || tc.key_type == v.kt), "typecode", "typecode %u/%u/%u of %s", tc.type, tc.element_type, tc.key_type, quote (vshow (v)).c_str ());
    codes.push_back (tc); vals.push_back (v);
    VH_CHECK (iot_typecode_equal (&tc, &tc) && !iot_typecode_equal (&tc, NULL) && !iot_typecode_equal (NULL, &tc) && iot_typecode_equal (NULL, NULL), "typecode-null", "typecode compared with none");
    for (size_t j = 0; j < codes.size (); j++)
    {
      bool same = vals[j].t == v.t && et (vals[j]) == et (v) && kt (vals[j]) == kt (v); iot_typecode_t copy = codes[j];
      VH_CHECK (iot_typecode_equal (&tc, &copy) == same && iot_typecode_equal (&copy, &tc) == same && iot_data_matches (d, &copy) == same, "typecode-equal", "typecodes %u/%u/%u and %u/%u/%u said to be %s", tc.type, tc.element_type, tc.key_type, copy.type, copy.element_type, copy.key_type, same ? "different" : "the same"); evaluation (); if (same) count ("typecodes_equal"); else count ("typecodes_different");
    }
    if (i < 2 && k < 2 && want_sample ()) show ("asked: %s", vshow (v).substr (0, 200).c_str ());
    distinct (vhash (v)); iot_data_free (d); evaluation (); count ("values_asked");
  }
}
// tags: two independent switches per value that nothing else sees or touches
static void m_tags (Rng & r, uint64_t i)
{
  struct T { iot_data_t * d; V v; bool tag[2]; iot_data_static_t st; V md; }; static T t[8]; unsigned n = 1 + (unsigned) r.below (8); GenOpt o = opt ();
  for (unsigned k = 0; k < n; k++)
  {
    do t[k].v = gen (r, false); while (t[k].v.t == IOT_DATA_BOOL || t[k].v.t == IOT_DATA_NULL);   // those are shared constants
    t[k].tag[0] = t[k].tag[1] = false; t[k].md = V (); t[k].md.t = IOT_DATA_MAP;
    if (t[k].v.t == IOT_DATA_STRING && r.chance (1, 2)) t[k].d = iot_data_alloc_const_string (&t[k].st, t[k].v.s.c_str ());
    else if (t[k].v.t == IOT_DATA_UINT32 && r.chance (1, 2)) t[k].d = iot_data_alloc_const_ui32 (&t[k].st, (uint32_t) t[k].v.u);
    else { BuildCtx c; c.r = &r; t[k].d = build (t[k].v, c); }
    VH_CHECK (iot_data_is_static (t[k].d) == (t[k].d == IOT_DATA_STATIC (&t[k].st)), "static", "%s is %sstatic", quote (vshow (t[k].v)).c_str (), iot_data_is_static (t[k].d) ? "" : "not ");
    VH_CHECK (!iot_data_get_tag (t[k].d, IOT_DATA_TAG_USER1) && !iot_data_get_tag (t[k].d, IOT_DATA_TAG_USER2), "tag-initial", "a new value has a tag");
  }
  for (unsigned s = 0; s < 60; s++)
  {
    T & x = t[r.below (n)]; unsigned w = (unsigned) r.below (2); bool b = r.chance (1, 2); iot_data_tag_t g = w ? IOT_DATA_TAG_USER2 : IOT_DATA_TAG_USER1;
    switch (r.below (8))
    {
      default: { bool old = iot_data_set_tag (x.d, g, b); log_op ("tag %u of %u := %d", w + 1, (unsigned) (&x - t), b); VH_CHECK (old == x.tag[w], "tag-old", "setting tag %u returned %d, it was %d", w + 1, old, x.tag[w]); x.tag[w] = b; count ("tags_set"); break; }
      case 5: if (!iot_data_is_static (x.d))
        { // metadata: a dictionary of its own, absent arguments changing nothing
          V mv = gen (r), mk = r.chance (1, 3) ? gen (r, false) : vstr (r.chance (1, 2) ? "m" : "n"); iot_data_t * m = build_random (mv, r), * q = build (mk); unsigned how = (unsigned) r.below (8); log_op ("metadata %s of %u", vshow (mk).substr (0, 60).c_str (), (unsigned) (&x - t));
          if (how == 0) { iot_data_set_metadata (NULL, m, q); iot_data_set_metadata (x.d, NULL, q); iot_data_set_metadata (x.d, m, NULL); VH_CHECK (!iot_data_get_metadata (NULL, q) && !iot_data_get_metadata (x.d, NULL), "metadata", "metadata of nothing"); iot_data_free (m); }
          else { iot_data_set_metadata (x.d, m, q); vmap_set (x.md, mk, mv); }
          iot_data_free (q); for (auto & kv : x.md.m) { q = build (kv.first); const iot_data_t * got = iot_data_get_metadata (x.d, q); VH_CHECK (got, "metadata", "metadata of key %s missing", vshow (kv.first).c_str ()); CHECK_MATCH (got, kv.second, "metadata"); iot_data_free (q); }
          V other = gen (r, false); q = build (other); const V * e = vmap_find (x.md, other); VH_CHECK ((iot_data_get_metadata (x.d, q) != NULL) == (e != NULL), "metadata", "metadata for a key never set"); iot_data_free (q); count ("metadata_set");
        }
        break;
      case 6: { (void) iot_data_hash (x.d); iot_data_t * c = iot_data_copy (x.d); VH_CHECK (iot_data_equal (c, x.d), "tag-equal", "a copy of a tagged value differs"); iot_data_free (c); break; }
      case 7: if (is_int (x.v.t) && !iot_data_is_static (x.d)) { iot_data_increment (x.d); iot_data_decrement (x.d); } else iot_data_free (iot_data_add_ref (x.d)); break;
    }
    for (unsigned k = 0; k < n; k++) for (unsigned z = 0; z < 2; z++) VH_CHECK (iot_data_get_tag (t[k].d, z ? IOT_DATA_TAG_USER2 : IOT_DATA_TAG_USER1) == t[k].tag[z], "tag-value", "tag %u of value %u reads %d", z + 1, k, !t[k].tag[z]);
    evaluation ();
  }
  for (unsigned k = 0; k < n; k++)
  {
    CHECK_MATCH (t[k].d, t[k].v, "tag-value-kept"); iot_data_t * f = build (t[k].v);
    VH_CHECK (iot_data_equal (f, t[k].d) && iot_data_hash (f) == iot_data_hash (t[k].d), "tag-equal", "a tagged value differs from an untagged one: %s", quote (vshow (t[k].v)).c_str ()); iot_data_free (f);
    distinct (vhash (t[k].v) ^ (uint64_t) (t[k].tag[0] + 2 * t[k].tag[1])); iot_data_free (t[k].d); t[k].v = V ();
  }
  if (i < 2 && want_sample ()) show ("60 tag operations on %u values", n);
  for (auto & x : t) x.v = V (), x.md = V ();
}
// counting: exactly one up or down, wrapping at the ends of the type, nothing else changed
static void m_count (Rng & r, uint64_t)
{
  GenOpt o = opt (); o.nan = false; iot_data_static_t st[8];
  for (unsigned k = 0; k < 40; k++)
  {
    iot_data_type_t ty = (iot_data_type_t) r.below (r.chance (1, 8) ? 19 : 10); V v = r.chance (1, 8) ? gen (r, false) : gen_typed (r, o, ty, 1); ty = v.t;
    if (is_int (ty) && r.chance (1, 2)) { unsigned b = width (ty) * 8; int e = (int) r.below (4); if (is_sint (ty)) v.i = e < 2 ? (int64_t) (~0ull >> (65 - b)) - e : (int64_t) (-1ull << (b - 1)) + (e - 2); else v.u = e < 2 ? (~0ull >> (64 - b)) - (unsigned) e : (uint64_t) (e - 2); }
    if (is_flt (ty) && r.chance (1, 2)) { static const double F[] = { 0, -0.0, 1, -1, 0.5, -0.5, 16777215, 16777216, -16777216, 9007199254740991.0, 9007199254740992.0, -9007199254740992.0, 9.2e18, -9.3e18, 3e38, 4294967295.0, 2147483647.0 }; v.d = r.pick (F); if (ty == IOT_DATA_FLOAT32) v.d = (float) v.d; }
    iot_data_t * d = NULL;
    if (r.chance (1, 3)) switch (ty)
    {
      case IOT_DATA_INT8: d = iot_data_alloc_const_i8 (&st[0], (int8_t) v.i); break; case IOT_DATA_UINT8: d = iot_data_alloc_const_ui8 (&st[1], (uint8_t) v.u); break;
      case IOT_DATA_INT16: d = iot_data_alloc_const_i16 (&st[2], (int16_t) v.i); break; case IOT_DATA_UINT16: d = iot_data_alloc_const_ui16 (&st[3], (uint16_t) v.u); break;
      case IOT_DATA_INT32: d = iot_data_alloc_const_i32 (&st[4], (int32_t) v.i); break; case IOT_DATA_UINT32: d = iot_data_alloc_const_ui32 (&st[5], (uint32_t) v.u); break;
      case IOT_DATA_INT64: d = iot_data_alloc_const_i64 (&st[6], v.i); break; case IOT_DATA_UINT64: d = iot_data_alloc_const_ui64 (&st[7], v.u); break; default: break;
    }
    if (!d) d = build (v);
    unsigned steps = 1 + (unsigned) r.below (r.chance (1, 10) ? 300 : 6);
    for (unsigned s = 0; s < steps; s++)
    {
      bool up = r.chance (1, 2); if (r.chance (1, 4)) (void) iot_data_hash (d);
      if (up) iot_data_increment (d); else iot_data_decrement (d);
      if (is_int (ty)) { unsigned b = width (ty) * 8; uint64_t raw = is_sint (ty) ? (uint64_t) v.i : v.u; raw = up ? raw + 1 : raw - 1; if (is_sint (ty)) v.i = (int64_t) (raw << (64 - b)) >> (64 - b); else v.u = b == 64 ? raw : raw & ((1ull << b) - 1); }
      else if (ty == IOT_DATA_FLOAT32) v.d = (double) (float) (up ? (float) v.d + 1.0f : (float) v.d - 1.0f);
      else if (ty == IOT_DATA_FLOAT64) v.d = up ? v.d + 1.0 : v.d - 1.0;
      CHECK_MATCH (d, v, "count"); evaluation (); count (is_int (ty) ? "integers_counted" : is_flt (ty) ? "floats_counted" : "others_unchanged");
      if (s < 8 || s + 1 == steps) { iot_data_t * f = build (v); VH_CHECK (iot_data_equal (f, d) && iot_data_equal (d, f) && iot_data_hash (f) == iot_data_hash (d), "count-equal", "%s reached by counting differs from a new one", quote (vshow (v)).c_str ()); iot_data_free (f); }
    }
    distinct (vhash (v)); iot_data_free (d);
  }
}
static void is_fmt (iot_data_t * d, const std::string & want, const char * what)
{
  VH_CHECK (d && iot_data_type (d) == IOT_DATA_STRING && want == iot_data_string (d), "format", "%s formatted as %s, expected %s", what, d ? quote (iot_data_string (d)).c_str () : "(nothing)", quote (want).c_str ());
  iot_data_t * f = build (vstr (want)); VH_CHECK (iot_data_equal (f, d) && iot_data_hash (f) == iot_data_hash (d), "format-equal", "a formatted string differs from the same text"); iot_data_free (f); iot_data_free (d); evaluation (); count ("strings_formatted"); distinct (hash_bytes (want.data (), want.size ()));
}
template <class... A> static void fmt (const char * f, A... a) { int n = snprintf (NULL, 0, f, a...); std::string w ((size_t) n + 1, 0); snprintf (&w[0], w.size (), f, a...); w.resize ((size_t) n); is_fmt (iot_data_alloc_string_fmt (f, a...), w, f); }
static void m_text (Rng & r, uint64_t)
{
  GenOpt o = opt (); o.long_strings = true;
  // formatting
  for (unsigned k = 0; k < 6; k++)
  {
    std::string s = gen_string (r, o), z (r.below (r.chance (1, 8) ? 5000 : 90), 'x'); double d = gen_f64 (r, true, true); uint64_t u = gen_u64 (r); int i = (int) gen_u64 (r);
    fmt ("%s", s.c_str ()); fmt ("%s%s", z.c_str (), s.c_str ()); fmt ("%" PRIu64 "/%d/%s", u, i, z.c_str ()); fmt ("%.*s|%*d|%%", (int) r.below (80), z.c_str (), (int) r.below (100), i); fmt ("%.17g %e %a", d, d, d); fmt ("%c%hhd%zu%s", (int) (1 + r.below (120)), i, (size_t) u, ""); fmt ("%f", d);
  }
  // names of types
  for (unsigned t = 0; t < 256; t++) VH_CHECK (!strcmp (iot_data_type_string ((iot_data_type_t) t), NAMES[t > IOT_DATA_INVALID ? (unsigned) IOT_DATA_INVALID : t]), "type-string", "type %u is called %s", t, iot_data_type_string ((iot_data_type_t) t));
  for (unsigned t = 0; t < 256; t++) { uint32_t w = iot_data_type_size ((iot_data_type_t) t); if (t <= IOT_DATA_BOOL) VH_CHECK (w == width ((iot_data_type_t) t), "type-size", "%s has size %u", NAMES[t], w); else if (t == IOT_DATA_POINTER) VH_CHECK (w == sizeof (void *), "type-size", "Pointer has size %u", w); else if (t == IOT_DATA_NULL || t > IOT_DATA_BINARY) VH_CHECK (w == 0, "type-size", "type %u has size %u", t, w); }
  for (unsigned k = 0; k < 60; k++)
  {
    std::string s = NAMES[r.below (21)]; for (auto & c : s) if (r.chance (1, 3)) c = (char) (r.chance (1, 2) ? toupper (c) : tolower (c));
    if (r.chance (1, 2)) switch (r.below (6)) { case 0: s.erase (r.below (s.size ()), 1); break; case 1: s.insert (r.below (s.size () + 1), 1, (char) (32 + r.below (95))); break; case 2: s[r.below (s.size ())] = (char) (1 + r.below (255)); break; case 3: s += " "; break; case 4: s.resize (r.below (s.size ())); break; default: s[r.below (s.size ())] ^= 0x20; if (s.find ('\0') != std::string::npos) s = s.c_str (); }
    unsigned want = IOT_DATA_INVALID; for (unsigned t = 0; t < IOT_DATA_INVALID; t++) { const char * n = NAMES[t]; size_t z = 0; while (n[z] && z < s.size () && tolower (n[z]) == ((unsigned char) s[z] < 128 ? tolower (s[z]) : s[z])) z++; if (!n[z] && z == s.size ()) want = t; }
    VH_CHECK (iot_data_name_type (s.c_str ()) == want, "name-type", "%s names type %s", quote (s).c_str (), iot_data_type_string (iot_data_name_type (s.c_str ()))); evaluation (); count (want < IOT_DATA_INVALID ? "names_of_types" : "names_of_none");
  }
  // UUID texts
  VH_CHECK (!iot_util_string_is_uuid (NULL), "uuid", "nothing is a UUID");
  for (unsigned k = 0; k < 80; k++)
  {
    static const char H[] = "0123456789abcdefABCDEF"; std::string s; for (unsigned p = 0; p < 36; p++) s += p == 8 || p == 13 || p == 18 || p == 23 ? '-' : H[r.below (22)];
    for (unsigned m = (unsigned) r.below (3); m-- > 0 && !s.empty (); ) switch (r.below (7))
    {
      case 0: s[r.below (s.size ())] = (char) (1 + r.below (255)); break; case 1: s.erase (r.below (s.size ()), 1 + r.below (2)); break; case 2: s.insert (r.below (s.size () + 1), 1, r.chance (1, 2) ? '-' : H[r.below (22)]); break;
      case 3: { size_t a = r.below (s.size ()), b = r.below (s.size ()); std::swap (s[a], s[b]); break; } case 4: { static const char E[] = "gG/:@`fF{}[]"; s[r.below (s.size ())] = E[r.below (12)]; break; } case 5: s = r.chance (1, 2) ? s + s : "{" + s + "}"; break; default: s.resize (r.below (s.size () + 1)); 
    }
    bool want = s.size () == 36; for (size_t p = 0; want && p < 36; p++) want = p == 8 || p == 13 || p == 18 || p == 23 ? s[p] == '-' : s[p] != 0 && strchr (H, s[p]) != NULL;
    char * x = strdup (s.c_str ()); bool got = iot_util_string_is_uuid (x); free (x);
    VH_CHECK (got == want, "uuid", "%s is said %sto be a UUID", quote (s).c_str (), got ? "" : "not "); evaluation (); count (want ? "uuids" : "not_uuids"); distinct (hash_bytes (s.data (), s.size ()));
  }
  iot_data_t * us = iot_data_alloc_uuid_string (), * ub = iot_data_alloc_uuid ();
  VH_CHECK (iot_data_type (us) == IOT_DATA_STRING && iot_util_string_is_uuid (iot_data_string (us)), "uuid-value", "the UUID value %s", iot_data_string (us)); VH_CHECK (iot_data_array_is_of_type (ub, IOT_DATA_UINT8) && iot_data_array_length (ub) == 16, "uuid-value", "a UUID of %u elements", iot_data_array_length (ub)); iot_data_free (us); iot_data_free (ub);
  // a text hashes as its bytes do
  for (unsigned k = 0; k < 20; k++)
  {
    std::string s = gen_string (r, o); if (r.chance (1, 2)) { s.clear (); for (unsigned n = (unsigned) r.below (40); n-- > 0; ) s += (char) (1 + r.below (255)); }
    uint8_t * b = (uint8_t *) malloc (s.size () + (s.empty ())); if (s.size ()) memcpy (b, s.data (), s.size ()); char * x = strdup (s.c_str ());
    VH_CHECK (iot_hash (x) == iot_hash_data (b, s.size ()), "hash", "%s hashes differently as text and as bytes", quote (s).c_str ()); 
    iot_data_t * d = iot_data_alloc_string (x, IOT_DATA_REF); VH_CHECK (iot_data_hash (d) == iot_hash (x), "hash", "the value %s hashes differently from its text", quote (s).c_str ()); iot_data_free (d); free (x); free (b); evaluation ();
  }
  // finding a text in a sequence
  {
    V l; bool list = r.chance (1, 2); l.t = list ? IOT_DATA_LIST : IOT_DATA_VECTOR; unsigned n = (unsigned) r.below (12); static const char * const W[] = { "", "a", "b", "aa", "A", "a ", "\xc3\xa9", "the quick brown fox jumps over the lazy dog, many times over, until tired" };
    for (unsigned k = 0; k < n; k++) l.e.push_back (r.chance (1, 5) ? gen (r) : vstr (r.pick (W)));
    iot_data_t * d = build (l); std::vector<const iot_data_t *> at; 
    if (list) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) at.push_back (iot_data_list_iter_value (&it)); } else for (uint32_t k = 0; k < n; k++) at.push_back (iot_data_vector_get (d, k));
    for (auto w : W)
    {
      const iot_data_t * want = NULL; for (size_t k = 0; k < l.e.size () && !want; k++) if (l.e[k].t == IOT_DATA_STRING && l.e[k].s == w) want = at[k];
      const iot_data_t * got = list ? iot_data_list_find (d, iot_data_string_cmp, w) : iot_data_vector_find (d, iot_data_string_cmp, w);
      VH_CHECK (got == want, "find", "finding %s in %s gave %s", quote (w).c_str (), quote (vshow (l)).c_str (), got ? "another element" : "nothing"); evaluation (); count (want ? "texts_found" : "texts_absent");
      VH_CHECK (!want || iot_data_string_cmp (want, w), "find", "comparison");
    }
    VH_CHECK ((list ? iot_data_list_find (d, iot_data_string_cmp, NULL) : iot_data_vector_find (d, iot_data_string_cmp, NULL)) == NULL, "find", "found no text");
    iot_data_free (d);
  }
}
static const Mode modes[] = { { "query", m_query, true }, { "tags", m_tags, true }, { "count", m_count, true }, { "text", m_text, true } };
int main (int argc, char ** argv) { return run (argc, argv, modes, 4); }
