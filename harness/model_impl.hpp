// Implementation of model.hpp; include in exactly one translation unit per driver (drivers are single-file).
#pragma once
#include "model.hpp"
#include <map>

static std::string hexs (const std::string & s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf (b, sizeof b, "%02x", c); o += b; } return o; }
std::string vshow (const V & v, unsigned depth)
{
  char b[80];
  static const char * nm[] = {"i8","u8","i16","u16","i32","u32","i64","u64","f32","f64"};
  if (v.hole ()) return "<hole>";
  if (is_sint (v.t)) { snprintf (b, sizeof b, "%s:%lld", nm[v.t], (long long) v.i); return b; }
  if (is_uint (v.t)) { snprintf (b, sizeof b, "%s:%llu", nm[v.t], (unsigned long long) v.u); return b; }
  if (is_flt (v.t)) { snprintf (b, sizeof b, "%s:%.17g", nm[v.t], v.d); return b; }
  switch (v.t)
  {
    case IOT_DATA_NULL: return "null";
    case IOT_DATA_BOOL: return v.b ? "true" : "false";
    case IOT_DATA_POINTER: snprintf (b, sizeof b, "ptr:%p", v.p); return b;
    case IOT_DATA_STRING: return "\"" + vh::quote (v.s) + "\"";
    case IOT_DATA_BINARY: return "bin<" + hexs (v.s) + ">";
    case IOT_DATA_ARRAY: snprintf (b, sizeof b, "arr%s<", v.et <= IOT_DATA_FLOAT64 ? nm[v.et] : "bool"); return b + hexs (v.s) + ">";
    case IOT_DATA_VECTOR: case IOT_DATA_LIST:
    {
      std::string o = v.t == IOT_DATA_VECTOR ? "vec" : "list";
      if (v.et != IOT_DATA_MULTI) { snprintf (b, sizeof b, "/%d", (int) v.et); o += b; }
      o += "[";
      for (size_t k = 0; k < v.e.size (); k++) { if (k) o += ", "; o += vshow (v.e[k], depth + 1); }
      return o + "]";
    }
    case IOT_DATA_MAP:
    {
      std::string o = "map";
      if (v.kt != IOT_DATA_MULTI || v.et != IOT_DATA_MULTI) { snprintf (b, sizeof b, "/%d,%d", (int) v.kt, (int) v.et); o += b; }
      o += "{";
      bool first = true;
      for (auto & kv : v.m) { if (!first) o += ", "; first = false; o += vshow (kv.first, depth + 1) + ": " + vshow (kv.second, depth + 1); }
      return o + "}";
    }
    default: return "?";
  }
}
uint64_t vhash (const V & v, uint64_t h)
{
  unsigned char t[3] = { (unsigned char) v.t, (unsigned char) v.et, (unsigned char) v.kt };
  h = vh::hash_bytes (t, 3, h);
  h = vh::hash_bytes (&v.i, 8, h); h = vh::hash_bytes (&v.u, 8, h); h = vh::hash_bytes (&v.d, 8, h); h = vh::hash_bytes (&v.b, 1, h);
  h = vh::hash_bytes (v.s.data (), v.s.size (), h);
  for (auto & x : v.e) h = vhash (x, h);
  for (auto & kv : v.m) { h = vhash (kv.first, h); h = vhash (kv.second, h); }
  size_t n = v.e.size () * 31 + v.m.size ();
  return vh::hash_bytes (&n, sizeof n, h);
}
uint64_t gen_u64 (vh::Rng & r)
{
  switch (r.below (8))
  {
    case 0: return r.below (4);
    case 1: return r.below (300);
    case 2: { uint64_t b = 1ull << r.below (64); return b + r.below (3) - 1; }
    case 3: { unsigned k = r.below (65); uint64_t m = k == 64 ? ~0ull : (1ull << k) - 1; return m - r.below (3); }
    case 4: return ~0ull - r.below (4);
    case 5: return r.next () >> r.below (64);
    case 6: { static const uint64_t k[] = {23,24,25,255,256,257,65535,65536,65537,4294967295ull,4294967296ull,9007199254740991ull,9007199254740992ull,9007199254740993ull,9223372036854775807ull,9223372036854775808ull}; return r.pick (k); }
    default: return r.next ();
  }
}
double gen_f64 (vh::Rng & r, bool nan, bool inf)
{
  double d;
  switch (r.below (10))
  {
    case 0: d = (double) (int64_t) gen_u64 (r); break;
    case 1: d = (double) gen_u64 (r) / 7.0; break;
    case 2: { static const double k[] = {0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 0.1, DBL_MIN, DBL_MAX, -DBL_MAX, DBL_EPSILON, FLT_MAX, -FLT_MAX, FLT_MIN, 4.9406564584124654e-324, 9223372036854775808.0, 18446744073709551616.0, -9223372036854775808.0, 9223372036854774784.0, 4294967295.0, 4294967295.5, 4294967296.0, 255.0, 255.5, 256.0, -128.5, 127.5, 3.4028235677973366e+38}; d = r.pick (k); break; }
    case 3: { int64_t k = (int64_t) gen_u64 (r); d = (double) k; d = std::nextafter (d, r.chance (1, 2) ? INFINITY : -INFINITY); break; }
    case 4: d = (double) (float) (r.next () / 1e9); break;
    case 5: d = std::ldexp ((double) (r.next () >> 11), (int) r.below (2000) - 1060); break;
    case 6: d = (double) (int64_t) r.below (2000) - 1000.0 + (double) r.below (8) / 8.0; break;
    default: { uint64_t b = r.next (); memcpy (&d, &b, 8); break; }
  }
  if (r.chance (1, 12) && nan) d = NAN;
  if (r.chance (1, 12) && inf) d = r.chance (1, 2) ? INFINITY : -INFINITY;
  if (!nan && std::isnan (d)) d = 1.25;
  if (!inf && std::isinf (d)) d = -7.75;
  return d;
}
std::string gen_utf8_char (vh::Rng & r)
{
  uint32_t c;
  switch (r.below (6))
  {
    case 0: c = 0x80 + r.below (0x780); break;
    case 1: c = 0x800 + r.below (0xD000 - 0x800); break;
    case 2: c = 0xE000 + r.below (0x2000); break;
    case 3: c = 0x10000 + r.below (0x100000); break;
    case 4: { static const uint32_t k[] = {0x7f,0x80,0x7ff,0x800,0xd7ff,0xe000,0xfffd,0xffff,0x10000,0x10ffff,0x20ac,0x1f600,0x2028}; c = r.pick (k); break; }
    default: c = 1 + r.below (0x7f); break;
  }
  std::string s;
  if (c < 0x80) s += (char) c;
  else if (c < 0x800) { s += (char) (0xc0 | (c >> 6)); s += (char) (0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char) (0xe0 | (c >> 12)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
  else { s += (char) (0xf0 | (c >> 18)); s += (char) (0x80 | ((c >> 12) & 63)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
  return s;
}
std::string gen_string (vh::Rng & r, const GenOpt & o)
{
  static const char * words[] = {"", "a", "b", "key", "value", "name", "Interval", "x y", "\"", "\\", "/", "\n", "\t\r\b\f", "${X}", "true", "null", "123", "-1.5", "\x01\x1f", "\x7f", "{}", "[", "aa", "ab"};
  std::string s;
  switch (r.below (7))
  {
    case 0: s = r.pick (words); break;
    case 1: s = "k" + std::to_string (r.below (30)); break;
    case 2: { size_t n = r.below (12); for (size_t k = 0; k < n; k++) s += (char) ('a' + r.below (3)); break; }
    case 3: { size_t n = r.below (20); for (size_t k = 0; k < n; k++) s += r.pick (words); break; }
    case 4: { size_t n = r.below (16); for (size_t k = 0; k < n; k++) s += o.utf8 ? gen_utf8_char (r) : std::string (1, (char) (1 + r.below (255))); break; }
    case 5: { size_t n = 12 + r.below (60); for (size_t k = 0; k < n; k++) s += (char) (32 + r.below (95)); break; }   // crosses inline/block/heap storage limits
    default: { size_t n = r.below (6); for (size_t k = 0; k < n; k++) s += (char) (32 + r.below (95)); break; }
  }
  if (r.chance (1, 30))
  { // long texts alike in their beginning
    static const unsigned at[] = { 7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 600 }; unsigned n = r.chance (1, 3) ? (unsigned) r.below (600) : r.chance (1, 2) ? 300 : r.pick (at); s.clear ();
    for (unsigned k = 0; k < n; k++) s += (char) ('a' + (k * 7 + k / 5) % 26); static const char * const E[] = { "", "a", "b", "ab", "z", "ba" }; s += r.pick (E);
  }
  if (o.long_strings && r.chance (1, 40)) { size_t n = 200 + r.below (6000); s.assign (n, (char) ('A' + r.below (26))); if (r.chance (1, 2)) s[r.below (n)] = '"'; }
  return s;
}
V gen_scalar (vh::Rng & r, const GenOpt & o, iot_data_type_t t)
{
  V v; v.t = t;
  switch (t)
  {
    case IOT_DATA_INT8: v.i = (int8_t) gen_u64 (r); break;
    case IOT_DATA_INT16: v.i = (int16_t) gen_u64 (r); break;
    case IOT_DATA_INT32: v.i = (int32_t) gen_u64 (r); break;
    case IOT_DATA_INT64: v.i = (int64_t) gen_u64 (r); if (r.chance (1, 6)) v.i = INT64_MIN + (int64_t) r.below (3); break;
    case IOT_DATA_UINT8: v.u = (uint8_t) gen_u64 (r); break;
    case IOT_DATA_UINT16: v.u = (uint16_t) gen_u64 (r); break;
    case IOT_DATA_UINT32: v.u = (uint32_t) gen_u64 (r); break;
    case IOT_DATA_UINT64: v.u = gen_u64 (r); break;
    case IOT_DATA_FLOAT32:
    {
      double d = gen_f64 (r, o.nan, o.inf);
      if (r.chance (1, 3)) { uint32_t b = (uint32_t) r.next (); float f; memcpy (&f, &b, 4); d = f; }
      if (std::isfinite (d) && std::fabs (d) > FLT_MAX) d = d > 0 ? FLT_MAX : -FLT_MAX;
      if ((std::isnan (d) && !o.nan) || (std::isinf (d) && !o.inf)) d = 2.5;
      v.d = (double) (float) d; break;
    }
    case IOT_DATA_FLOAT64: v.d = gen_f64 (r, o.nan, o.inf); break;
    case IOT_DATA_BOOL: v.b = r.chance (1, 2); break;
    case IOT_DATA_POINTER: { static char arena[64]; v.p = r.chance (1, 8) ? nullptr : &arena[r.below (64)]; break; }
    case IOT_DATA_STRING: v.s = gen_string (r, o); break;
    default: v.t = IOT_DATA_NULL; break;
  }
  if (is_flt (v.t) && !o.neg_zero && v.d == 0) v.d = 0.0;
  return v;
}
static iot_data_type_t gen_type (vh::Rng & r, const GenOpt & o, unsigned depth)
{
  for (;;)
  {
    iot_data_type_t t = (iot_data_type_t) r.below (depth ? 19 : 16);
    if (depth && r.chance (1, 4)) t = (iot_data_type_t) (16 + r.below (3));
    if (t == IOT_DATA_POINTER && !o.pointers) continue;
    if (t == IOT_DATA_FLOAT32 && (!o.f32 || !o.floats)) continue;
    if (t == IOT_DATA_FLOAT64 && !o.floats) continue;
    if (t == IOT_DATA_NULL && !o.nulls) continue;
    if (t == IOT_DATA_BOOL && !o.bools) continue;
    if (t == IOT_DATA_ARRAY && !o.arrays) continue;
    if (t == IOT_DATA_BINARY && !o.binaries) continue;
    if (t == IOT_DATA_VECTOR && !o.vectors) continue;
    if (t == IOT_DATA_LIST && !o.lists) continue;
    if (t == IOT_DATA_MAP && !o.maps) continue;
    return t;
  }
}
V gen_key (vh::Rng & r, const GenOpt & o, iot_data_type_t kt)
{
  if (o.string_keys) kt = IOT_DATA_STRING;
  GenOpt k = o; k.nan = false; k.depth = 1; k.width = 3; k.holes = false; k.long_strings = false;
  if (kt == IOT_DATA_MULTI)
  {
    if (o.composed_keys && r.chance (1, 6)) return gen_value (r, k, 1);
    do { kt = (iot_data_type_t) r.below (16); } while ((kt == IOT_DATA_POINTER && !o.pointers) || (is_flt (kt) && !o.floats) || (kt == IOT_DATA_NULL && !o.nulls) || (kt == IOT_DATA_BINARY && !o.binaries) || (kt == IOT_DATA_ARRAY && !o.arrays) || (kt == IOT_DATA_BOOL && !o.bools));
  }
  if (kt == IOT_DATA_STRING && r.chance (1, 2)) return vstr ("k" + std::to_string (r.below (20)));
  if (is_int (kt) && r.chance (1, 2)) return vint (kt, (int64_t) r.below (20));
  return gen_typed (r, k, kt, 1);
}
V gen_typed (vh::Rng & r, const GenOpt & o, iot_data_type_t t, unsigned depth)
{
  if (t < IOT_DATA_BINARY) return gen_scalar (r, o, t);
  V v; v.t = t;
  unsigned lim = o.width;
  if (r.chance (1, 12)) lim = o.width * 4;
  unsigned n = r.below (lim + 1);
  switch (t)
  {
    case IOT_DATA_BINARY: v.et = IOT_DATA_UINT8; n = r.below (lim * 3 + 1); for (unsigned k = 0; k < n; k++) v.s += (char) r.next (); break;
    case IOT_DATA_ARRAY:
      do { v.et = (iot_data_type_t) r.below (11); } while ((is_flt (v.et) && !o.floats) || (v.et == IOT_DATA_FLOAT32 && !o.f32) || (v.et == IOT_DATA_BOOL && !o.bools));
      if (n == 0 && !o.empty_arrays) n = 1;
      for (unsigned k = 0; k < n; k++)
      {
        V x = gen_scalar (r, o, v.et);
        char b[8]; float f = (float) x.d;
        if (v.et == IOT_DATA_FLOAT32) memcpy (b, &f, 4); else if (v.et == IOT_DATA_FLOAT64) memcpy (b, &x.d, 8);
        else if (v.et == IOT_DATA_BOOL) b[0] = x.b; else if (is_sint (v.et)) memcpy (b, &x.i, 8); else memcpy (b, &x.u, 8);
        v.s.append (b, width (v.et));
      }
      break;
    case IOT_DATA_VECTOR: case IOT_DATA_LIST:
      if (o.typed && r.chance (1, 5)) do { v.et = (iot_data_type_t) r.below (19); } while ((v.et == IOT_DATA_POINTER && !o.pointers) || (is_flt (v.et) && !o.floats) || (v.et == IOT_DATA_FLOAT32 && !o.f32) || (v.et > IOT_DATA_NULL && (depth <= 1 || !o.maps || !o.lists || !o.vectors || !o.arrays || !o.binaries)) || (v.et == IOT_DATA_NULL && !o.nulls) || (v.et == IOT_DATA_BOOL && !o.bools));
      for (unsigned k = 0; k < n; k++)
      {
        if (t == IOT_DATA_VECTOR && o.holes && r.chance (1, 6)) v.e.push_back (vhole ());
        else v.e.push_back (v.et == IOT_DATA_MULTI ? gen_value (r, o, depth ? depth - 1 : 0) : gen_typed (r, o, v.et, depth ? depth - 1 : 0));
      }
      break;
    case IOT_DATA_MAP:
      v.kt = o.string_keys || r.chance (1, 2) ? IOT_DATA_STRING : (o.typed && r.chance (1, 2)) ? (iot_data_type_t) r.below (8) : IOT_DATA_MULTI;
      if (o.typed && r.chance (1, 6)) do { v.et = (iot_data_type_t) r.below (13); } while ((v.et == IOT_DATA_POINTER && !o.pointers) || (is_flt (v.et) && !o.floats) || (v.et == IOT_DATA_FLOAT32 && !o.f32) || (v.et == IOT_DATA_BOOL && !o.bools));
      for (unsigned k = 0; k < n; k++)
      {
        V key = gen_key (r, o, v.kt);
        V val = v.et == IOT_DATA_MULTI ? gen_value (r, o, depth ? depth - 1 : 0) : gen_typed (r, o, v.et, 0);
        vmap_set (v, key, val);
      }
      break;
    default: break;
  }
  return v;
}
V gen_value (vh::Rng & r, const GenOpt & o, unsigned depth) { return gen_typed (r, o, gen_type (r, o, depth), depth); }

V mutate_scalar (vh::Rng & r, const GenOpt & o, const V & v)
{
  V x = v;
  if (is_sint (v.t) || is_uint (v.t))
  {
    unsigned bits = width (v.t) * 8;
    uint64_t u = is_sint (v.t) ? (uint64_t) v.i : v.u;
    u ^= r.chance (1, 2) ? 1ull : (1ull << r.below (bits));
    if (is_sint (v.t)) { int sh = 64 - bits; x.i = (int64_t) (u << sh) >> sh; } else x.u = bits == 64 ? u : u & ((1ull << bits) - 1);
  }
  else if (is_flt (v.t)) { x.d = v.t == IOT_DATA_FLOAT32 ? (double) std::nextafterf ((float) v.d, 0.0f) : std::nextafter (v.d, 0.0); if (x.d == v.d) x.d = 1.0; }
  else if (v.t == IOT_DATA_BOOL) x.b = !v.b;
  else if (v.t == IOT_DATA_STRING) { if (x.s.empty () || r.chance (1, 3)) x.s += (char) ('a' + r.below (26)); else if (r.chance (1, 2)) x.s.pop_back (); else x.s.back () = (char) ('a' + r.below (26)); }
  else if (v.t == IOT_DATA_BINARY || v.t == IOT_DATA_ARRAY) { if (!x.s.empty ()) { if (v.et == IOT_DATA_BOOL) x.s.back () ^= 1; else if (!is_flt (v.et)) x.s[r.below (x.s.size ())] ^= 1; else x.s.resize (x.s.size () - width (v.et)); } else x.s.append (width (v.et), (char) 0); }
  else return gen_scalar (r, o, (iot_data_type_t) r.below (11));
  return x;
}
V mutate_value (vh::Rng & r, const GenOpt & o, const V & v)
{
  V x = v;
  if (v.t == IOT_DATA_VECTOR || v.t == IOT_DATA_LIST)
  {
    if (x.e.empty ()) { x.e.push_back (x.et == IOT_DATA_MULTI ? gen_value (r, o, 0) : gen_typed (r, o, x.et, 0)); return x; }
    size_t k = r.below (x.e.size ());
    switch (r.below (4))
    {
      case 0: x.e.erase (x.e.begin () + k); break;
      case 1: std::swap (x.e[k], x.e[r.below (x.e.size ())]); break;
      case 2: x.e.push_back (x.e[k]); break;
      default: if (!x.e[k].hole ()) x.e[k] = (x.et == IOT_DATA_MULTI || is_composed (x.e[k].t) || x.e[k].t <= IOT_DATA_BOOL || x.e[k].t == IOT_DATA_STRING) && x.e[k].t != IOT_DATA_NULL && x.e[k].t != IOT_DATA_POINTER ? mutate_value (r, o, x.e[k]) : x.e[k]; break;
    }
    return x;
  }
  if (v.t == IOT_DATA_MAP)
  {
    if (x.m.empty ()) { vmap_set (x, gen_key (r, o, x.kt), x.et == IOT_DATA_MULTI ? gen_value (r, o, 0) : gen_typed (r, o, x.et, 0)); return x; }
    size_t k = r.below (x.m.size ());
    if (r.chance (1, 3)) { x.m.erase (x.m.begin () + k); return x; }
    V & val = x.m[k].second;
    if (val.t != IOT_DATA_NULL && val.t != IOT_DATA_POINTER) val = mutate_value (r, o, val);
    return x;
  }
  if (v.t == IOT_DATA_NULL || v.t == IOT_DATA_POINTER) return v;
  return mutate_scalar (r, o, v);
}

// ---------------------------------------------------------------------------------------------------------------- builders

static iot_data_t * build_scalar (const V & v, BuildCtx & c)
{
  switch (v.t)
  {
    case IOT_DATA_INT8: return iot_data_alloc_i8 ((int8_t) v.i);
    case IOT_DATA_UINT8: return iot_data_alloc_ui8 ((uint8_t) v.u);
    case IOT_DATA_INT16: return iot_data_alloc_i16 ((int16_t) v.i);
    case IOT_DATA_UINT16: return iot_data_alloc_ui16 ((uint16_t) v.u);
    case IOT_DATA_INT32: return iot_data_alloc_i32 ((int32_t) v.i);
    case IOT_DATA_UINT32: return iot_data_alloc_ui32 ((uint32_t) v.u);
    case IOT_DATA_INT64: return iot_data_alloc_i64 (v.i);
    case IOT_DATA_UINT64: return iot_data_alloc_ui64 (v.u);
    case IOT_DATA_FLOAT32: return iot_data_alloc_f32 ((float) v.d);
    case IOT_DATA_FLOAT64: return iot_data_alloc_f64 (v.d);
    case IOT_DATA_BOOL: return iot_data_alloc_bool (v.b);
    case IOT_DATA_NULL: return iot_data_alloc_null ();
    case IOT_DATA_POINTER: return iot_data_alloc_pointer (v.p, nullptr);
    case IOT_DATA_STRING:
    {
      unsigned how = c.r ? c.r->below (4) : 0;
      if (how == 1) return iot_data_alloc_string (strdup (v.s.c_str ()), IOT_DATA_TAKE);
      if (how == 2) return iot_data_alloc_string_fmt ("%s", v.s.c_str ());
      return iot_data_alloc_string (v.s.c_str (), IOT_DATA_COPY);
    }
    default: return nullptr;
  }
}
static iot_data_t * build_raw (const V & v, BuildCtx & c)
{
  if (v.t < IOT_DATA_BINARY) return build_scalar (v, c);
  switch (v.t)
  {
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY:
    {
      uint32_t len = v.s.size () / width (v.et);
      iot_data_ownership_t own = IOT_DATA_COPY;
      void * p = (void *) v.s.data ();
      if (c.r && len && c.r->chance (1, 2)) { own = IOT_DATA_TAKE; p = malloc (v.s.size ()); memcpy (p, v.s.data (), v.s.size ()); }
      if (len == 0) p = nullptr;
      if (v.t == IOT_DATA_BINARY)
      {
        if (c.r && c.r->chance (1, 4)) { iot_data_t * a = iot_data_alloc_array (p, len, IOT_DATA_UINT8, own); iot_data_array_to_binary (a); return a; }
        return iot_data_alloc_binary (p, len, own);
      }
      if (c.r && v.et == IOT_DATA_UINT8 && c.r->chance (1, 4)) { iot_data_t * a = iot_data_alloc_binary (p, len, own); iot_data_binary_to_array (a); return a; }
      return iot_data_alloc_array (p, len, v.et, own);
    }
    case IOT_DATA_LIST:
    {
      iot_data_t * l = v.et == IOT_DATA_MULTI ? iot_data_alloc_list () : iot_data_alloc_typed_list (v.et);
      // iteration runs tail to head: pushing at the head appends in iteration order
      unsigned how = c.r ? c.r->below (4) : 0;
      if (how == 1) { for (size_t k = v.e.size (); k-- > 0;) iot_data_list_tail_push (l, build (v.e[k], c)); }
      else if (how == 2 && !v.e.empty ())
      {
        size_t lo = c.r->below (v.e.size ()), hi = lo;   // grow outwards from a random middle element
        iot_data_list_head_push (l, build (v.e[lo], c));
        while (lo > 0 || hi + 1 < v.e.size ())
        {
          bool up = lo == 0 || (hi + 1 < v.e.size () && c.r->chance (1, 2));
          if (up) iot_data_list_head_push (l, build (v.e[++hi], c)); else iot_data_list_tail_push (l, build (v.e[--lo], c));
          if (c.r->chance (1, 4)) iot_data_hash (l);
        }
      }
      else if (how == 3)
      {
        for (auto & x : v.e) { iot_data_list_head_push (l, build (x, c)); if (c.r->chance (1, 4)) { iot_data_list_head_push (l, build (x, c)); if (c.r->chance (1, 2)) iot_data_hash (l); iot_data_free (iot_data_list_head_pop (l)); } }
      }
      else for (auto & x : v.e) iot_data_list_head_push (l, build (x, c));
      return l;
    }
    case IOT_DATA_VECTOR:
    {
      unsigned how = c.r ? c.r->below (4) : 0;
      uint32_t n = v.e.size ();
      uint32_t start = how == 3 ? (uint32_t) c.r->below (n + 3) : n;
      iot_data_t * a = v.et == IOT_DATA_MULTI ? iot_data_alloc_vector (start) : iot_data_alloc_typed_vector (start, v.et);
      if (start != n) { if (c.r->chance (1, 2)) iot_data_hash (a); iot_data_vector_resize (a, n); }
      std::vector<uint32_t> order; for (uint32_t k = 0; k < n; k++) order.push_back (k);
      if (how) for (uint32_t k = n; k > 1; k--) std::swap (order[k - 1], order[c.r->below (k)]);
      for (uint32_t k : order)
      {
        if (v.e[k].hole ()) { if (how == 2) iot_data_vector_add (a, k, nullptr); continue; }
        if (how == 2 && c.r->chance (1, 3)) { iot_data_vector_add (a, k, build (v.e[k], c)); if (c.r->chance (1, 2)) iot_data_hash (a); }
        iot_data_vector_add (a, k, build (v.e[k], c));
      }
      return a;
    }
    case IOT_DATA_MAP:
    {
      iot_data_t * m = v.et == IOT_DATA_MULTI ? iot_data_alloc_map (v.kt) : iot_data_alloc_typed_map (v.kt, v.et);
      std::vector<size_t> order; for (size_t k = 0; k < v.m.size (); k++) order.push_back (k);
      if (c.r) for (size_t k = order.size (); k > 1; k--) std::swap (order[k - 1], order[c.r->below (k)]);
      for (size_t k : order)
      {
        const auto & kv = v.m[k];
        if (c.r && c.r->chance (1, 6)) // add then remove or overwrite something first
        {
          const auto & other = v.m[c.r->below (v.m.size ())];
          iot_data_t * key = build (kv.first, c);
          iot_data_map_add (m, iot_data_add_ref (key), build (other.second, c));
          if (c.r->chance (1, 2)) iot_data_hash (m);
          if (c.r->chance (1, 2)) iot_data_map_remove (m, key);
          if (c.r->chance (1, 2)) iot_data_hash (m);
          iot_data_free (key);
        }
        iot_data_map_add (m, build (kv.first, c), build (kv.second, c));
      }
      return m;
    }
    default: return nullptr;
  }
}
iot_data_t * build (const V & v, BuildCtx & c)
{
  if (c.r && c.share && c.r->chance (1, 3))
  {
    for (auto & x : c.pool) if (x.first.t == v.t && x.first.et == v.et && x.first.kt == v.kt && veq (x.first, v) && !(is_flt (v.t) && std::signbit (v.d) != std::signbit (x.first.d)) && v.t != IOT_DATA_VECTOR && v.t != IOT_DATA_LIST && v.t != IOT_DATA_MAP) return iot_data_add_ref (x.second);
  }
  iot_data_t * d = build_raw (v, c);
  if (c.r && c.r->chance (1, 10)) { iot_data_t * k = iot_data_copy (d); iot_data_free (d); d = k; }
  if (c.r && c.r->chance (1, 8)) iot_data_hash (d);
  if (c.r && c.share && c.pool.size () < 24 && c.r->chance (1, 3)) c.pool.push_back (std::make_pair (v, iot_data_add_ref (d)));
  return d;
}

// ------------------------------------------------------------------------------------------------------------------ monitor

static bool ferr (std::string & why, const char * fmt, ...) __attribute__ ((format (printf, 2, 3)));
static bool ferr (std::string & why, const char * fmt, ...)
{
  char b[600]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
  why = std::string (b) + why; return false;
}
bool matches (const iot_data_t * d, const V & v, std::string & why, bool ct)
{
  if (v.hole ()) return d == nullptr ? true : ferr (why, "expected an empty position, found a value of type %s", iot_data_type_name (d));
  if (d == nullptr) return ferr (why, "missing value, expected %s", vshow (v).substr (0, 200).c_str ());
  if (iot_data_type (d) != v.t) return ferr (why, "type %s, expected %s", iot_data_type_name (d), iot_data_type_string (v.t));
  if (!iot_data_is_of_type (d, v.t)) return ferr (why, "is_of_type disagrees with type");
  switch (v.t)
  {
#define NUM(T, fn, val, f) { T g = fn (d); if (g != (T) (val)) return ferr (why, "value " f ", expected " f, g, (T) (val)); return true; }
    case IOT_DATA_INT8: NUM (int8_t, iot_data_i8, v.i, "%d")
    case IOT_DATA_UINT8: NUM (uint8_t, iot_data_ui8, v.u, "%u")
    case IOT_DATA_INT16: NUM (int16_t, iot_data_i16, v.i, "%d")
    case IOT_DATA_UINT16: NUM (uint16_t, iot_data_ui16, v.u, "%u")
    case IOT_DATA_INT32: NUM (int32_t, iot_data_i32, v.i, "%d")
    case IOT_DATA_UINT32: NUM (uint32_t, iot_data_ui32, v.u, "%u")
    case IOT_DATA_INT64: NUM (int64_t, iot_data_i64, v.i, "%ld")
    case IOT_DATA_UINT64: NUM (uint64_t, iot_data_ui64, v.u, "%lu")
#undef NUM
    case IOT_DATA_FLOAT32: { float g = iot_data_f32 (d), e = (float) v.d; if (memcmp (&g, &e, 4) && !(std::isnan (g) && std::isnan (e))) return ferr (why, "value %.9g, expected %.9g", g, e); return true; }
    case IOT_DATA_FLOAT64: { double g = iot_data_f64 (d), e = v.d; if (memcmp (&g, &e, 8) && !(std::isnan (g) && std::isnan (e))) return ferr (why, "value %.17g, expected %.17g", g, e); return true; }
    case IOT_DATA_BOOL: return iot_data_bool (d) == v.b ? true : ferr (why, "bool %d, expected %d", iot_data_bool (d), v.b);
    case IOT_DATA_NULL: return true;
    case IOT_DATA_POINTER: return iot_data_pointer (d) == v.p ? true : ferr (why, "pointer %p, expected %p", iot_data_pointer (d), v.p);
    case IOT_DATA_STRING: return strcmp (iot_data_string (d), v.s.c_str ()) == 0 ? true : ferr (why, "string \"%s\", expected \"%s\"", vh::quote (iot_data_string (d)).c_str (), vh::quote (v.s).c_str ());
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY:
    {
      uint32_t len = v.s.size () / width (v.et);
      if (iot_data_array_type (d) != v.et) return ferr (why, "array of %s, expected %s", iot_data_type_string (iot_data_array_type (d)), iot_data_type_string (v.et));
      if (iot_data_array_length (d) != len) return ferr (why, "array length %u, expected %u", iot_data_array_length (d), len);
      if (iot_data_array_size (d) != v.s.size ()) return ferr (why, "array size %u, expected %zu", iot_data_array_size (d), v.s.size ());
      if (len && memcmp (iot_data_address (d), v.s.data (), v.s.size ())) return ferr (why, "array content differs");
      return true;
    }
    case IOT_DATA_VECTOR:
    {
      if (ct && iot_data_vector_type (d) != v.et) return ferr (why, "vector of %s, expected %s", iot_data_type_string (iot_data_vector_type (d)), iot_data_type_string (v.et));
      if (iot_data_vector_size (d) != v.e.size ()) return ferr (why, "vector size %u, expected %zu", iot_data_vector_size (d), v.e.size ());
      for (uint32_t k = 0; k < v.e.size (); k++) if (!matches (iot_data_vector_get (d, k), v.e[k], why, ct)) return ferr (why, "[%u] ", k);
      return true;
    }
    case IOT_DATA_LIST:
    {
      if (ct && iot_data_list_type (d) != v.et) return ferr (why, "list of %s, expected %s", iot_data_type_string (iot_data_list_type (d)), iot_data_type_string (v.et));
      if (iot_data_list_length (d) != v.e.size ()) return ferr (why, "list length %u, expected %zu", iot_data_list_length (d), v.e.size ());
      iot_data_list_iter_t it; iot_data_list_iter (d, &it);
      for (size_t k = 0; k < v.e.size (); k++)
      {
        if (!iot_data_list_iter_next (&it)) return ferr (why, "list iteration ended after %zu of %zu", k, v.e.size ());
        if (!matches (iot_data_list_iter_value (&it), v.e[k], why, ct)) return ferr (why, "(%zu) ", k);
      }
      if (iot_data_list_iter_next (&it)) return ferr (why, "list iterates past its %zu elements", v.e.size ());
      iot_data_list_iter (d, &it);
      for (size_t k = v.e.size (); k-- > 0;)
      {
        if (!iot_data_list_iter_prev (&it)) return ferr (why, "backward list iteration ended early");
        if (v.e[k].t < IOT_DATA_VECTOR && !matches (iot_data_list_iter_value (&it), v.e[k], why, ct)) return ferr (why, "(backward %zu) ", k);
      }
      if (iot_data_list_iter_prev (&it)) return ferr (why, "list iterates backward past its elements");
      return true;
    }
    case IOT_DATA_MAP:
    {
      if (ct && iot_data_map_type (d) != v.et) return ferr (why, "map of %s, expected %s", iot_data_type_string (iot_data_map_type (d)), iot_data_type_string (v.et));
      if (ct && iot_data_map_key_type (d) != v.kt) return ferr (why, "map key type %s, expected %s", iot_data_type_string (iot_data_map_key_type (d)), iot_data_type_string (v.kt));
      if (iot_data_map_size (d) != v.m.size ()) return ferr (why, "map size %u, expected %zu", iot_data_map_size (d), v.m.size ());
      iot_data_map_iter_t it; iot_data_map_iter (d, &it);
      const iot_data_t * prev = nullptr;
      std::vector<char> seen (v.m.size (), 0);
      size_t n = 0;
      while (iot_data_map_iter_next (&it))
      {
        const iot_data_t * k = iot_data_map_iter_key (&it), * x = iot_data_map_iter_value (&it);
        if (++n > v.m.size ()) return ferr (why, "map iterates past its %zu entries", v.m.size ());
        if (prev && iot_data_compare (prev, k) >= 0) return ferr (why, "map keys not strictly increasing at entry %zu", n);
        prev = k;
        size_t f = v.m.size ();
        std::string w;
        if (!seen[n - 1] && matches (k, v.m[n - 1].first, w, ct)) f = n - 1;
        else for (size_t j = 0; j < v.m.size (); j++) { w.clear (); if (!seen[j] && v.m[j].first.t == iot_data_type (k) && matches (k, v.m[j].first, w, ct)) { f = j; break; } }
        if (f == v.m.size ()) return ferr (why, "unexpected map key %s", vshow (snapshot (k)).substr (0, 150).c_str ());
        bool basic = true; for (auto & kv : v.m) if (kv.first.t >= IOT_DATA_VECTOR) basic = false;
        if (basic && f != n - 1) return ferr (why, "map key %s iterated at position %zu, expected %zu", vshow (v.m[f].first).substr (0, 100).c_str (), n - 1, f);
        seen[f] = 1;
        if (!matches (x, v.m[f].second, why, ct)) return ferr (why, "{%s} ", vshow (v.m[f].first).substr (0, 60).c_str ());
      }
      if (n != v.m.size ()) return ferr (why, "map iteration visited %zu of %zu", n, v.m.size ());
      return true;
    }
    default: return ferr (why, "unexpected type");
  }
}
V snapshot (const iot_data_t * d)
{
  V v;
  if (!d) return vhole ();
  v.t = iot_data_type (d);
  switch (v.t)
  {
    case IOT_DATA_INT8: v.i = iot_data_i8 (d); break;
    case IOT_DATA_UINT8: v.u = iot_data_ui8 (d); break;
    case IOT_DATA_INT16: v.i = iot_data_i16 (d); break;
    case IOT_DATA_UINT16: v.u = iot_data_ui16 (d); break;
    case IOT_DATA_INT32: v.i = iot_data_i32 (d); break;
    case IOT_DATA_UINT32: v.u = iot_data_ui32 (d); break;
    case IOT_DATA_INT64: v.i = iot_data_i64 (d); break;
    case IOT_DATA_UINT64: v.u = iot_data_ui64 (d); break;
    case IOT_DATA_FLOAT32: v.d = iot_data_f32 (d); break;
    case IOT_DATA_FLOAT64: v.d = iot_data_f64 (d); break;
    case IOT_DATA_BOOL: v.b = iot_data_bool (d); break;
    case IOT_DATA_POINTER: v.p = (void *) iot_data_pointer (d); break;
    case IOT_DATA_STRING: v.s = iot_data_string (d); break;
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY: v.et = iot_data_array_type (d); if (iot_data_array_size (d)) v.s.assign ((const char *) iot_data_address (d), iot_data_array_size (d)); break;
    case IOT_DATA_VECTOR: v.et = iot_data_vector_type (d); for (uint32_t k = 0; k < iot_data_vector_size (d); k++) v.e.push_back (snapshot (iot_data_vector_get (d, k))); break;
    case IOT_DATA_LIST: { v.et = iot_data_list_type (d); iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) v.e.push_back (snapshot (iot_data_list_iter_value (&it))); break; }
    case IOT_DATA_MAP: { v.et = iot_data_map_type (d); v.kt = iot_data_map_key_type (d); iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) vmap_set (v, snapshot (iot_data_map_iter_key (&it)), snapshot (iot_data_map_iter_value (&it))); break; }
    default: break;
  }
  return v;
}
