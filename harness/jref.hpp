// An independent, strict RFC 8259 parser and the translation of an ideal value into the JSON document it should denote.
#pragma once
#include "model_impl.hpp"
#include "iot/base64.h"
struct JV { enum K { NUL, TRUE_, FALSE_, NUM, STR, ARR, OBJ } k = NUL; std::string s; std::vector<JV> a; std::vector<std::pair<std::string, JV>> o; };
struct JParse {
  std::string text; const char * p, * e; std::string err; unsigned depth = 0;
  explicit JParse (const std::string & t) : text (t), p (text.data ()), e (text.data () + text.size ()) {}
  void ws () { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  bool bad (const char * why) { if (err.empty ()) { err = why; err += " at: "; err += vh::quote (std::string (p, (size_t) std::min<long> (30, e - p))); } return false; }
  bool lit (const char * l) { size_t n = strlen (l); if ((size_t) (e - p) < n || memcmp (p, l, n)) return bad ("bad literal"); p += n; return true; }
  static bool hex (char c, unsigned & v) { if (c >= '0' && c <= '9') v = v * 16 + (c - '0'); else if (c >= 'a' && c <= 'f') v = v * 16 + 10 + (c - 'a'); else if (c >= 'A' && c <= 'F') v = v * 16 + 10 + (c - 'A'); else return false; return true; }
  static void utf8 (std::string & s, uint32_t c)
  {
    if (c < 0x80) s += (char) c;
    else if (c < 0x800) { s += (char) (0xc0 | (c >> 6)); s += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char) (0xe0 | (c >> 12)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
    else { s += (char) (0xf0 | (c >> 18)); s += (char) (0x80 | ((c >> 12) & 63)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
  }
  bool str (std::string & out)
  {
    if (p >= e || *p != '"') return bad ("string expected");
    p++;
    while (p < e && *p != '"')
    {
      unsigned char c = (unsigned char) *p;
      if (c < 0x20) return bad ("raw control character in string");
      if (c != '\\') { out += (char) c; p++; continue; }
      if (++p >= e) return bad ("truncated escape");
      switch (*p++)
      {
        case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u':
        {
          unsigned v = 0; if (e - p < 4) return bad ("short \\u");
          for (int i = 0; i < 4; i++) if (!hex (*p++, v)) return bad ("bad \\u");
          if (v >= 0xd800 && v <= 0xdbff)
          {
            unsigned w = 0; if (e - p < 6 || p[0] != '\\' || p[1] != 'u') return bad ("unpaired surrogate"); p += 2;
            for (int i = 0; i < 4; i++) if (!hex (*p++, w)) return bad ("bad \\u");
            if (w < 0xdc00 || w > 0xdfff) return bad ("unpaired surrogate");
            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
          }
          utf8 (out, v); break;
        }
        default: return bad ("unknown escape");
      }
    }
    if (p >= e) return bad ("unterminated string");
    p++; return true;
  }
  bool num (JV & v)
  {
    const char * s = p;
    if (p < e && *p == '-') p++;
    if (p >= e || *p < '0' || *p > '9') return bad ("number expected");
    if (*p == '0') p++; else while (p < e && *p >= '0' && *p <= '9') p++;
    if (p < e && *p == '.') { p++; if (p >= e || *p < '0' || *p > '9') return bad ("digit expected"); while (p < e && *p >= '0' && *p <= '9') p++; }
    if (p < e && (*p == 'e' || *p == 'E')) { p++; if (p < e && (*p == '+' || *p == '-')) p++; if (p >= e || *p < '0' || *p > '9') return bad ("digit expected"); while (p < e && *p >= '0' && *p <= '9') p++; }
    v.k = JV::NUM; v.s.assign (s, p - s); return true;
  }
  bool val (JV & v)
  {
    if (++depth > 2000) return bad ("too deep");
    ws (); if (p >= e) return bad ("value expected");
    bool ok;
    switch (*p)
    {
      case '{':
        v.k = JV::OBJ; p++; ws ();
        if (p < e && *p == '}') { p++; ok = true; break; }
        for (;;)
        {
          v.o.emplace_back (); ws ();
          if (!str (v.o.back ().first)) return false;
          ws (); if (p >= e || *p != ':') return bad (": expected"); p++;
          if (!val (v.o.back ().second)) return false;
          ws (); if (p < e && *p == ',') { p++; continue; }
          if (p < e && *p == '}') { p++; break; }
          return bad (", or } expected");
        }
        ok = true; break;
      case '[':
        v.k = JV::ARR; p++; ws ();
        if (p < e && *p == ']') { p++; ok = true; break; }
        for (;;)
        {
          v.a.emplace_back ();
          if (!val (v.a.back ())) return false;
          ws (); if (p < e && *p == ',') { p++; continue; }
          if (p < e && *p == ']') { p++; break; }
          return bad (", or ] expected");
        }
        ok = true; break;
      case '"': v.k = JV::STR; ok = str (v.s); break;
      case 't': v.k = JV::TRUE_; ok = lit ("true"); break;
      case 'f': v.k = JV::FALSE_; ok = lit ("false"); break;
      case 'n': v.k = JV::NUL; ok = lit ("null"); break;
      default: ok = num (v); break;
    }
    depth--; return ok;
  }
  bool doc (JV & v) { if (!val (v)) return false; ws (); if (p != e) return bad ("trailing text"); return true; }
};
// Independent base64
static std::string ref_b64 (const std::string & s)
{
  static const char * A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < s.size (); i += 3)
  {
    uint32_t v = (unsigned char) s[i] << 16; size_t n = 1;
    if (i + 1 < s.size ()) { v |= (unsigned char) s[i + 1] << 8; n++; }
    if (i + 2 < s.size ()) { v |= (unsigned char) s[i + 2]; n++; }
    o += A[v >> 18]; o += A[(v >> 12) & 63]; o += n > 1 ? A[(v >> 6) & 63] : '='; o += n > 2 ? A[v & 63] : '=';
  }
  return o;
}
static V arr_elem (const V & a, size_t k)
{
  V v; v.t = a.et; unsigned w = width (a.et); const char * p = a.s.data () + k * w;
  switch (a.et)
  {
#define AE(T, C, F) case T: { C x; memcpy (&x, p, sizeof x); v.F = x; break; }
    AE (IOT_DATA_INT8, int8_t, i) AE (IOT_DATA_UINT8, uint8_t, u) AE (IOT_DATA_INT16, int16_t, i) AE (IOT_DATA_UINT16, uint16_t, u)
    AE (IOT_DATA_INT32, int32_t, i) AE (IOT_DATA_UINT32, uint32_t, u) AE (IOT_DATA_INT64, int64_t, i) AE (IOT_DATA_UINT64, uint64_t, u)
    AE (IOT_DATA_FLOAT32, float, d) AE (IOT_DATA_FLOAT64, double, d) AE (IOT_DATA_BOOL, bool, b)
#undef AE
    default: break;
  }
  return v;
}
// Compare a parsed document with the value it should denote. Order of members is compared only when `order` gives one.
static bool jmatch (const JV & j, const V & v, std::string & why)
{
  auto no = [&] (const char * w) { why = std::string (w) + " for " + vh::quote (vshow (v)).substr (0, 200) + " got kind " + std::to_string ((int) j.k) + " " + vh::quote (j.s).substr (0, 100); return false; };
  if (v.hole () || v.t == IOT_DATA_NULL) return j.k == JV::NUL || no ("not null");
  if (is_int (v.t))
  {
    if (j.k != JV::NUM) return no ("not a number");
    std::string x = is_sint (v.t) ? std::to_string (v.i) : std::to_string (v.u);
    return j.s == x || no ("integer differs");
  }
  if (is_flt (v.t))
  {
    if (j.k != JV::NUM) return no ("not a number");
    double d = strtod (j.s.c_str (), nullptr);
    if (v.t == IOT_DATA_FLOAT32) { float f = (float) d, g = (float) v.d; return !memcmp (&f, &g, 4) || no ("float differs"); }
    return !memcmp (&d, &v.d, 8) || no ("double differs");
  }
  switch (v.t)
  {
    case IOT_DATA_BOOL: return j.k == (v.b ? JV::TRUE_ : JV::FALSE_) || no ("boolean differs");
    case IOT_DATA_STRING: return (j.k == JV::STR && j.s == v.s) || no ("string differs");
    case IOT_DATA_BINARY: return (j.k == JV::STR && j.s == ref_b64 (v.s)) || no ("binary differs");
    case IOT_DATA_ARRAY:
    {
      size_t n = v.s.size () / width (v.et);
      if (j.k != JV::ARR || j.a.size () != n) return no ("array size differs");
      for (size_t k = 0; k < n; k++) if (!jmatch (j.a[k], arr_elem (v, k), why)) return false;
      return true;
    }
    case IOT_DATA_VECTOR: case IOT_DATA_LIST:
      if (j.k != JV::ARR || j.a.size () != v.e.size ()) return no ("element count differs");
      for (size_t k = 0; k < v.e.size (); k++) if (!jmatch (j.a[k], v.e[k], why)) return false;
      return true;
    case IOT_DATA_MAP:
    {
      if (j.k != JV::OBJ || j.o.size () != v.m.size ()) return no ("member count differs");
      std::vector<bool> used (j.o.size ());
      for (auto & kv : v.m)
      {
        bool found = false;
        for (size_t k = 0; k < j.o.size () && !found; k++)
        {
          if (used[k]) continue;
          JV key; key.k = JV::STR; key.s = j.o[k].first;
          bool same;
          std::string w2;
          if (kv.first.t == IOT_DATA_STRING || kv.first.t == IOT_DATA_BINARY) same = jmatch (key, kv.first, w2);
          else { JV inner; JParse jp (j.o[k].first); same = jp.doc (inner) && jmatch (inner, kv.first, w2); }
          if (!same) continue;
          found = true; used[k] = true;
          if (!jmatch (j.o[k].second, kv.second, why)) return false;
        }
        if (!found) { why = "no member for key " + vh::quote (vshow (kv.first)); return false; }
      }
      return true;
    }
    default: return no ("unexpected type");
  }
}
