// Untrusted texts: grammar-shaped documents of each kind and mutations of them.
#pragma once
#include "vh.hpp"
namespace tg {
using vh::Rng; typedef std::string Str;
enum Kind { JSON, XML, YAML, B64, STR, ENV, KINDS };
inline const char * kind_name (int k) { static const char * n[] = { "json", "xml", "yaml", "b64", "str", "env" }; return n[k]; }
inline Str number (Rng & r)
{
  static const char * N[] = { "0", "-0", "1", "-1", "127", "128", "255", "256", "-128", "-129", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-99999999999999999999999999", "1e5", "1E400", "-1e-400", "1.5", "-0.0", "0.1e", "1.", ".5", "+1", "01", "1e+", "-", "0x1F", "0o17", "0b11", "1_000", "inf", "nan", "-.inf", ".nan", "1e308", "5e-324", "12345678901234567890.12345678901234567890", "1e99999999999999999999" };
  if (r.chance (2, 3)) return r.pick (N); Str s; unsigned n = 1 + (unsigned) r.below (r.chance (1, 10) ? 400 : 25); static const char C[] = "0123456789.eE+-"; for (unsigned k = 0; k < n; k++) s += C[r.below (r.chance (1, 4) ? 15 : 10)]; return s;
}
inline Str word (Rng & r)
{
  Str s; unsigned n = (unsigned) r.below (r.chance (1, 12) ? 300 : 10);
  for (unsigned k = 0; k < n; k++) switch (r.below (16)) { case 0: s += "\xC3\xA9"; break; case 1: s += "\xF0\x9F\x98\x80"; break; case 2: s += (char) (128 + r.below (128)); break; case 3: s += (char) (1 + r.below (31)); break; case 4: s += (char) (32 + r.below (95)); break; default: s += (char) ('a' + r.below (26)); }
  return s;
}
inline Str jstr (Rng & r)
{
  Str s = "\"";
  for (unsigned n = (unsigned) r.below (r.chance (1, 12) ? 300 : 8); n--;) { static const char * E[] = { "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\u0000", "\\u12", "\\uZZZZ", "\\x", "\\", "\\uDBFF\\uDFFF", "\\ud800\\u0041" }; if (r.chance (1, 4)) s += E[r.below (r.chance (1, 3) ? 18 : 9)]; else if (r.chance (1, 12)) s += word (r); else s += (char) ('a' + r.below (26)); }
  return s + (r.chance (1, 60) ? "" : "\"");
}
inline Str ws (Rng & r) { static const char * W[] = { "", "", "", " ", "\n", "\t ", "\r\n" }; return r.pick (W); }
inline Str json (Rng & r, unsigned depth)
{
  switch (r.below (depth ? 8 : 5))
  {
    case 0: return number (r); case 1: return jstr (r); case 2: return r.chance (1, 2) ? "true" : "false"; case 3: return "null"; case 4: return r.chance (1, 8) ? word (r) : jstr (r);
    case 5: { Str s = "["; for (unsigned n = (unsigned) r.below (5), k = 0; k < n; k++) s += (k ? "," : "") + ws (r) + json (r, depth - 1) + ws (r); return s + "]"; }
    default: { Str s = "{"; for (unsigned n = (unsigned) r.below (5), k = 0; k < n; k++) s += (k ? "," : "") + ws (r) + (r.chance (1, 3) ? Str ("\"a\"") : jstr (r)) + ws (r) + ":" + ws (r) + json (r, depth - 1); return s + "}"; }
  }
}
inline Str xtext (Rng & r) { Str s; for (unsigned n = (unsigned) r.below (6); n--;) { static const char * T[] = { "&amp;", "&lt;", "&#65;", "&#x20AC;", "&#x110000;", "&#0;", "&nosuch;", "&", "<![CDATA[ a]] ]]>", "<!-- c -->", "<?pi x?>", "]]>", " ", "\n" }; if (r.chance (1, 3)) s += T[r.below (14)]; else s += r.chance (1, 8) ? word (r) : Str ("text"); } return s; }
inline Str xname (Rng & r) { static const char * N[] = { "a", "b", "elem", "a:b", "_x", "a-b.c", "\xC3\xA9t" }; if (r.chance (1, 40)) return word (r); if (r.chance (1, 40)) return Str (1 + r.below (5000), 'n'); return r.pick (N); }
inline Str xml (Rng & r, unsigned depth)
{
  Str n = xname (r), s = "<" + n; for (unsigned k = (unsigned) r.below (3); k--;) s += " " + xname (r) + "=" + (r.chance (1, 2) ? "'" : "\"") + (r.chance (1, 3) ? xtext (r) : Str ("v")) + (r.chance (1, 2) ? "'" : "\""); if (r.chance (1, 2)) { size_t q; while ((q = s.find ('"')) != Str::npos) s[q] = '\''; }
  if (r.chance (1, 5)) return s + "/>"; s += ">"; for (unsigned k = (unsigned) r.below (4); k--;) s += depth && r.chance (1, 2) ? xml (r, depth - 1) : xtext (r); return s + "</" + (r.chance (1, 40) ? xname (r) : n) + ">";
}
inline Str yscalar (Rng & r) { switch (r.below (8)) { case 0: return number (r); case 1: return "'" + word (r) + "'"; case 2: return "\"a\\x41\\u20AC\\U0001F600\\n" + Str (r.chance (1, 5) ? "\\q" : "") + "\""; case 3: { static const char * W[] = { "true", "no", "~", "null", ".inf", ".nan", "0x1f", "0o7", "!!str 5", "!!int 5", "!t x", "&a 5", "*a", "<<", "? x", "2001-12-14" }; return r.pick (W); } case 4: return word (r); case 5: return "|\n  block\n  text\n"; case 6: return ">-\n  folded\n\n  text\n"; default: return "word"; } }
inline Str yflow (Rng & r, unsigned depth) { if (!depth || r.chance (1, 2)) return yscalar (r); Str s = r.chance (1, 2) ? "[" : "{"; bool m = s == "{"; for (unsigned n = (unsigned) r.below (4), k = 0; k < n; k++) s += (k ? Str (", ") : Str ()) + (m ? "k" + std::to_string (r.below (4)) + ": " : Str ()) + yflow (r, depth - 1); return s + (m ? "}" : "]"); }
inline Str yaml (Rng & r, unsigned depth, unsigned ind)
{
  Str pad (ind, ' '), s; unsigned n = 1 + (unsigned) r.below (4); bool seq = r.chance (1, 2);
  if (!ind && r.chance (1, 8)) s += "%YAML 1.1\n"; if (!ind && r.chance (1, 5)) s += "---\n";
  for (unsigned k = 0; k < n; k++) { s += pad + (seq ? Str ("-") : (r.chance (1, 10) ? yscalar (r) : "key" + std::to_string (r.below (5))) + ":"); if (depth && r.chance (1, 3)) s += "\n" + yaml (r, depth - 1, ind + 2); else s += " " + yflow (r, depth ? depth - 1 : 0) + (r.chance (1, 8) ? " # c" : "") + "\n"; }
  if (!ind && r.chance (1, 10)) s += r.chance (1, 2) ? "...\n" : "---\n- 1\n"; return s;
}
inline Str b64 (Rng & r) { static const char C[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str s; unsigned n = (unsigned) r.below (r.chance (1, 8) ? 2000 : 60); for (unsigned k = 0; k < n; k++) { s += C[r.below (64)]; if (r.chance (1, 60)) s += "\r\n"; } if (r.chance (1, 2)) while (s.size () % 4) s += '='; return s; }
inline Str env (Rng & r) { Str s; for (unsigned n = 1 + (unsigned) r.below (10); n--;) { static const char * T[] = { "${VH_A}", "${VH_EMPTY}", "${VH_REF}", "${VH_LONG}", "${}", "${", "}", "$", "${NOSUCH}", "${VH_A", "$VH_A", "{VH_A}", "$${VH_A}", "${VH_${VH_A}}" }; if (r.chance (2, 3)) s += T[r.below (r.chance (1, 3) ? 14 : 4)]; else if (r.chance (1, 10)) s += "${" + Str (60 + r.below (8), 'N') + "}"; else s += word (r); } return s; }
inline const std::vector<Str> & dict (int kind)
{
  static const std::vector<Str> D[KINDS] = {
    { "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud83d\\ude00", "null", "true", "false", "{\"a\":", "[[", "]]", "{}", "[]", "\"\"", "-", "e", ".", "//", "'" },
    { "<", ">", "</", "/>", "<a>", "</a>", "<?", "?>", "<?xml version='1.0'?>", "<!--", "-->", "<![CDATA[", "]]>", "&", ";", "&#", "&#x", "&lt;", "<!DOCTYPE a [", "]>", "=", "'", "\"", "\xEF\xBB\xBF", "\xFF", "encoding='UTF-16'" },
    { "- ", ": ", "? ", "[", "]", "{", "}", ",", "&a ", "*a", "!!", "!<", "|", ">", "|+2", "'", "\"", "---", "...", "%TAG ! x", "#", "\n", "\t", "\n  ", "\xEF\xBB\xBF", "\xFF\xFE", "\\x", "<<: " },
    { "=", "==", "===", "\r\n", "\n", "-", "_", "A", "/", "+", "\x80" },
    { "-", "+", "e", "E", ".", "0x", "inf", "nan", "Int8", "UInt64", "Float32", "Bool", "String", "true", "false", "t", " ", "18446744073709551616" },
    { "${", "}", "$", "{", "${VH_A}", "${VH_REF}", "${VH_EMPTY}", "${}", "VH_A", "\\" } };
  return D[kind];
}
inline Str generate (Rng & r, int kind)
{
  switch (kind)
  {
    case JSON: return json (r, 1 + (unsigned) r.below (5)); case XML: return (r.chance (1, 4) ? "<?xml version='1.0' encoding='UTF-8'?>\n" : "") + xml (r, 1 + (unsigned) r.below (4)); case YAML: return yaml (r, (unsigned) r.below (4), 0);
    case B64: return b64 (r); case STR: return r.chance (3, 4) ? number (r) : word (r); default: return env (r);
  }
}
inline Str deep (Rng & r, int kind)   // nested far, in several ways
{
  unsigned n = 1 + (unsigned) r.below (r.chance (1, 3) ? 2500 : 600); Str s;
  static const char * O[KINDS][4] = { { "[", "{\"a\":", "[{\"k\":", "[1," }, { "<a>", "<a b='c'>", "<a>t<b>", "<longer_name>" }, { "[", "{a: ", "- ", "{? " }, { "A", "=", "AA==", "/" }, { "1", "-", "0", " " }, { "${", "${VH_A}", "$", "${VH_REF" } };
  static const char * C[KINDS][4] = { { "]", "}", "}]", "]" }, { "</a>", "</a>", "</b></a>", "</longer_name>" }, { "]", "}", "", "}" }, { "", "", "", "" }, { "", "", "", "" }, { "}", "", "", "}" } };
  unsigned w = (unsigned) r.below (4); for (unsigned k = 0; k < n; k++) s += O[kind][w]; s += kind == JSON ? "1" : "x"; unsigned m = r.chance (2, 3) ? n : (unsigned) r.below (n + 2); for (unsigned k = 0; k < m; k++) s += C[kind][w]; return s;
}
inline void mutate (Rng & r, int kind, Str & s)
{
  size_t n = s.size (); auto at = [&] { return (size_t) r.below (s.size () + 1); };
  switch (r.below (13))
  {
    case 0: if (n) s[r.below (n)] ^= (char) (1 << r.below (8)); break;
    case 1: if (n) s[r.below (n)] = (char) (1 + r.below (255)); break;
    case 2: s.insert (at (), 1, (char) (1 + r.below (255))); break;
    case 3: case 4: s.insert (at (), r.pick (dict (kind))); break;
    case 5: if (n) { size_t a = r.below (n); s.erase (a, 1 + r.below (r.chance (1, 3) ? n : 3)); } break;
    case 6: if (n) { size_t a = r.below (n); Str t = s.substr (a, 1 + r.below (20)); s.insert (at (), t); } break;
    case 7: s.resize (r.below (n + 1)); break;
    case 8: { Str t = r.pick (dict (kind)), u; for (unsigned k = 1 + (unsigned) r.below (r.chance (1, 8) ? 300 : 6); k--;) u += t; s.insert (at (), u); break; }
    case 9: s.insert (at (), number (r)); break;
    case 10: if (n) { size_t a = r.below (n), b = r.below (n); std::swap (s[a], s[b]); } break;
    case 11: { Str t = generate (r, kind); size_t a = r.below (t.size () + 1); s.insert (at (), t.substr (a, r.below (t.size () - a + 1))); break; }
    default: if (n) { static const char B[] = "\x01\x09\x0a\x0d\x1f\x20\x22\x27\x5c\x7f\x80\xbf\xc0\xc1\xe0\xed\xf0\xf4\xf5\xff{}[]<>&%:,-#"; s[r.below (n)] = B[r.below (sizeof B - 1)]; } break;
  }
  if (s.size () > 20000) s.resize (20000);
}
inline Str any (Rng & r, int kind)
{
  Str s = r.chance (1, 25) ? deep (r, kind) : r.chance (1, 30) ? word (r) + word (r) : generate (r, kind); if (!r.chance (1, 6)) for (unsigned k = (unsigned) r.below (r.chance (1, 6) ? 20 : 4); k--;) mutate (r, kind, s);
  for (auto & c : s) if (!c) c = 1; return s;
}
}
