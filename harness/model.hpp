// An ideal value (V), a generator of values, builders that realise a V through the public API in many different ways,
// and a monitor that reads a library value back through the public API and compares it with the ideal one.
#pragma once
#include "vh.hpp"
#include <algorithm>
#include <cmath>
#include <cfloat>
#include <climits>
#include "iot/data.h"

struct V;
typedef std::vector<std::pair<V, V>> VMap;
struct V {
  iot_data_type_t t = IOT_DATA_NULL;      // IOT_DATA_INVALID marks a hole in a vector
  iot_data_type_t et = IOT_DATA_MULTI;    // element type
  iot_data_type_t kt = IOT_DATA_MULTI;    // key type
  int64_t i = 0; uint64_t u = 0; double d = 0; bool b = false; void * p = nullptr;
  std::string s;                          // string, or bytes of array/binary
  std::vector<V> e;                       // list (iteration order: tail first) or vector
  VMap m;                                 // map, sorted by model order
  bool hole () const { return t == IOT_DATA_INVALID; }
};
inline bool is_sint (iot_data_type_t t) { return t == IOT_DATA_INT8 || t == IOT_DATA_INT16 || t == IOT_DATA_INT32 || t == IOT_DATA_INT64; }
inline bool is_uint (iot_data_type_t t) { return t == IOT_DATA_UINT8 || t == IOT_DATA_UINT16 || t == IOT_DATA_UINT32 || t == IOT_DATA_UINT64; }
inline bool is_int (iot_data_type_t t) { return t <= IOT_DATA_UINT64; }
inline bool is_flt (iot_data_type_t t) { return t == IOT_DATA_FLOAT32 || t == IOT_DATA_FLOAT64; }
inline bool is_composed (iot_data_type_t t) { return t >= IOT_DATA_VECTOR && t <= IOT_DATA_MAP; }
inline unsigned width (iot_data_type_t t) { static const unsigned w[] = {1,1,2,2,4,4,8,8,4,8,1}; return t <= IOT_DATA_BOOL ? w[t] : 0; }
inline V vhole () { V v; v.t = IOT_DATA_INVALID; return v; }
inline V vstr (const std::string & s) { V v; v.t = IOT_DATA_STRING; v.s = s; return v; }
inline V vnull () { return V (); }
inline V vbool (bool b) { V v; v.t = IOT_DATA_BOOL; v.b = b; return v; }
inline V vint (iot_data_type_t t, int64_t i) { V v; v.t = t; if (is_sint (t)) v.i = i; else v.u = (uint64_t) i; return v; }
inline V vflt (iot_data_type_t t, double d) { V v; v.t = t; v.d = t == IOT_DATA_FLOAT32 ? (double) (float) d : d; return v; }
inline V vptr (void * p) { V v; v.t = IOT_DATA_POINTER; v.p = p; return v; }
inline V vbin (const std::string & s) { V v; v.t = IOT_DATA_BINARY; v.et = IOT_DATA_UINT8; v.s = s; return v; }

// Model order: natural order for scalars and strings. Containers: only used for equality.
inline int vcmp (const V & a, const V & b)
{
  if (a.t != b.t) return a.t < b.t ? -1 : 1;
  if (is_sint (a.t)) return a.i < b.i ? -1 : a.i > b.i;
  if (is_uint (a.t)) return a.u < b.u ? -1 : a.u > b.u;
  if (is_flt (a.t)) { bool na = std::isnan (a.d), nb = std::isnan (b.d); return na || nb ? (int) na - (int) nb : a.d < b.d ? -1 : a.d > b.d; }
  switch (a.t)
  {
    case IOT_DATA_BOOL: return (int) a.b - (int) b.b;
    case IOT_DATA_POINTER: return a.p < b.p ? -1 : a.p > b.p;
    case IOT_DATA_STRING: { int c = strcmp (a.s.c_str (), b.s.c_str ()); return c < 0 ? -1 : c > 0; }
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY:
    {
      uint32_t la = a.s.size () / width (a.et), lb = b.s.size () / width (b.et);
      if (la != lb) return la < lb ? -1 : 1;
      if (a.et != b.et) return a.et < b.et ? -1 : 1;
      int c = memcmp (a.s.data (), b.s.data (), a.s.size ()); return c < 0 ? -1 : c > 0;
    }
    case IOT_DATA_VECTOR: case IOT_DATA_LIST:
      if (a.e.size () != b.e.size ()) return a.e.size () < b.e.size () ? -1 : 1;
      for (size_t k = 0; k < a.e.size (); k++) { int c = vcmp (a.e[k], b.e[k]); if (c) return c; }
      return 0;
    case IOT_DATA_MAP:
      if (a.m.size () != b.m.size ()) return a.m.size () < b.m.size () ? -1 : 1;
      for (size_t k = 0; k < a.m.size (); k++) { int c = vcmp (a.m[k].first, b.m[k].first); if (c) return c; c = vcmp (a.m[k].second, b.m[k].second); if (c) return c; }
      return 0;
    default: return 0;
  }
}
inline bool veq (const V & a, const V & b) { return vcmp (a, b) == 0; }
inline V * vmap_find (V & m, const V & k) { for (auto & kv : m.m) if (veq (kv.first, k)) return &kv.second; return nullptr; }
inline const V * vmap_find (const V & m, const V & k) { for (auto & kv : m.m) if (veq (kv.first, k)) return &kv.second; return nullptr; }
inline void vmap_set (V & m, const V & k, const V & v)
{
  for (size_t n = 0; n < m.m.size (); n++)
  {
    int c = vcmp (m.m[n].first, k);
    if (c == 0) { m.m[n].second = v; return; }
    if (c > 0) { m.m.insert (m.m.begin () + n, std::make_pair (k, v)); return; }
  }
  m.m.push_back (std::make_pair (k, v));
}
inline bool vmap_del (V & m, const V & k) { for (size_t n = 0; n < m.m.size (); n++) if (veq (m.m[n].first, k)) { m.m.erase (m.m.begin () + n); return true; } return false; }

std::string vshow (const V & v, unsigned depth = 0);
uint64_t vhash (const V & v, uint64_t h = 1469598103934665603ull);

struct GenOpt {
  unsigned depth = 3;          // nesting allowed
  unsigned width = 6;          // elements per container
  bool pointers = false, nan = false, inf = false, holes = false, composed_keys = false, typed = true, metadata = false;
  bool utf8 = true;            // strings valid UTF-8
  bool string_keys = false;    // maps keyed by string only
  bool lists = true, vectors = true, maps = true, arrays = true, binaries = true, floats = true, nulls = true, bools = true, f32 = true;
  bool long_strings = false;   // sometimes very long strings
  bool neg_zero = true;
  bool empty_arrays = true;
};
V gen_scalar (vh::Rng & r, const GenOpt & o, iot_data_type_t t);
V gen_typed (vh::Rng & r, const GenOpt & o, iot_data_type_t t, unsigned depth);
V gen_value (vh::Rng & r, const GenOpt & o, unsigned depth);
inline V gen_value (vh::Rng & r, const GenOpt & o) { return gen_value (r, o, o.depth); }
V gen_key (vh::Rng & r, const GenOpt & o, iot_data_type_t kt);
std::string gen_string (vh::Rng & r, const GenOpt & o);
std::string gen_utf8_char (vh::Rng & r);
uint64_t gen_u64 (vh::Rng & r);
double gen_f64 (vh::Rng & r, bool nan, bool inf);
V mutate_scalar (vh::Rng & r, const GenOpt & o, const V & v);   // a near neighbour of v
V mutate_value (vh::Rng & r, const GenOpt & o, const V & v);

// Builders. `how` picks among construction strategies (0 = plain).
struct BuildCtx {
  vh::Rng * r = nullptr;            // random strategies when set
  bool share = false;               // share equal sub-values already built in this context
  std::vector<std::pair<V, iot_data_t *>> pool;   // borrowed refs (each holds one reference)
  ~BuildCtx () { for (auto & x : pool) iot_data_free (x.second); }
};
iot_data_t * build (const V & v, BuildCtx & c);
inline iot_data_t * build (const V & v) { BuildCtx c; return build (v, c); }
inline iot_data_t * build_random (const V & v, vh::Rng & r, bool share = true) { BuildCtx c; c.r = &r; c.share = share; return build (v, c); }

// Monitor: reads d back through the public API and compares with v. On mismatch returns false and fills why.
bool matches (const iot_data_t * d, const V & v, std::string & why, bool check_types = true);
#define CHECK_MATCH(d, v, key) do { std::string why_; if (!matches ((d), (v), why_)) vh::fail (key, "%s; expected %s", why_.c_str (), vh::quote (vshow (v)).c_str ()); } while (0)
// Reads a library value into a V (no oracle; used to show values and snapshot them)
V snapshot (const iot_data_t * d);
