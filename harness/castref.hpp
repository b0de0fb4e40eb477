// The ideal numeric conversion rule, shared by C12 and C22.
#pragma once
#include "model.hpp"
#pragma GCC diagnostic ignored "-Wunused-function"
static const long double LO[] = { INT8_MIN, 0, INT16_MIN, 0, INT32_MIN, 0, INT64_MIN, 0 };
static const long double HI[] = { INT8_MAX, UINT8_MAX, INT16_MAX, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, 18446744073709551615.0L };

// The ideal conversion rule. Returns 1 convertible (r set), 0 refused, -1 unspecified (infinity to 32 bit float, NaN to bool)
static int ideal (const V & v, iot_data_type_t to, V & r)
{
  r = V (); r.t = to;
  if (v.t > IOT_DATA_BOOL || to > IOT_DATA_BOOL) return 0;
  long double x = is_sint (v.t) ? (long double) v.i : is_uint (v.t) ? (long double) v.u : v.t == IOT_DATA_BOOL ? (v.b ? 1.0L : 0.0L) : (long double) v.d;
  bool nan = is_flt (v.t) && std::isnan (v.d), inf = is_flt (v.t) && std::isinf (v.d);
  if (is_int (to))
  {
    if (nan || inf || x < LO[to] || x > HI[to]) return 0;
    if (is_sint (to)) r.i = (int64_t) truncl (x); else r.u = (uint64_t) truncl (x);
    return 1;
  }
  if (to == IOT_DATA_FLOAT32)
  {
    if (inf) return -1;
    if (nan) { r.d = NAN; return 1; }
    if (x > FLT_MAX || x < -FLT_MAX) return 0;
    if (is_sint (v.t)) r.d = (float) v.i; else if (is_uint (v.t)) r.d = (float) v.u; else r.d = (float) x;
    return 1;
  }
  if (to == IOT_DATA_FLOAT64)
  {
    if (is_sint (v.t)) r.d = (double) v.i; else if (is_uint (v.t)) r.d = (double) v.u; else r.d = is_flt (v.t) ? v.d : (double) x;
    return 1;
  }
  if (nan) return -1;
  r.b = x != 0.0L;
  return 1;
}
static V raw_to_v (const void * p, iot_data_type_t t)
{
  V v; v.t = t;
  switch (t)
  {
#define C(T, ct, f) case T: { ct x; memcpy (&x, p, sizeof x); v.f = x; break; }
    C (IOT_DATA_INT8, int8_t, i) C (IOT_DATA_UINT8, uint8_t, u) C (IOT_DATA_INT16, int16_t, i) C (IOT_DATA_UINT16, uint16_t, u)
    C (IOT_DATA_INT32, int32_t, i) C (IOT_DATA_UINT32, uint32_t, u) C (IOT_DATA_INT64, int64_t, i) C (IOT_DATA_UINT64, uint64_t, u)
    C (IOT_DATA_FLOAT32, float, d) C (IOT_DATA_FLOAT64, double, d)
#undef C
    default: v.b = *(const uint8_t *) p != 0; break;
  }
  return v;
}
static bool same (const V & a, const V & b)
{
  if (a.t != b.t) return false;
  if (is_flt (a.t)) return (std::isnan (a.d) && std::isnan (b.d)) || (a.d == b.d && std::signbit (a.d) == std::signbit (b.d));
  return veq (a, b);
}
