// C05: XML and YAML decode to the structure they denote. Oracles: documents generated together with their meaning; expat for
// XML (independent parser), libyaml's document loader plus a scalar resolver written here for YAML, on mutated documents.
// LINK: -lexpat -lyaml
#include "jref.hpp"
#include <expat.h>
#include <yaml.h>
using namespace vh;

// ---- XML
static V elem_v (const std::string & name, const V & attrs, const std::vector<V> & kids, const std::string & content)
{
  V e; e.t = IOT_DATA_MAP; e.kt = IOT_DATA_STRING;
  vmap_set (e, vstr ("name"), vstr (name)); vmap_set (e, vstr ("attributes"), attrs);
  if (!kids.empty ()) { V c; c.t = IOT_DATA_VECTOR; c.e = kids; vmap_set (e, vstr ("children"), c); }
  if (!content.empty ()) vmap_set (e, vstr ("content"), vstr (content));
  return e;
}
struct Xml {
  Rng & r; std::string t; unsigned budget = 25; bool any = false;
  explicit Xml (Rng & rr) : r (rr) {}
  void ws (bool must) { static const char c[] = " \t\n"; if (must) t += c[r.below (3)]; while (r.chance (1, 5)) t += c[r.below (3)]; }
  std::string name ()
  {
    static const char * const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"; static const char * const b = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-.";
    std::string s (1, a[r.below (53)]); unsigned n = r.chance (1, 12) ? 40 + r.below (80) : r.below (10);
    for (unsigned k = 0; k < n; k++) { if (r.chance (1, 25)) s += "é"; else s += b[r.below (65)]; }
    if (r.chance (1, 10)) s += ":x";
    return s;
  }
  std::string text (unsigned max)
  {
    std::string s; unsigned n = r.below (max);
    for (unsigned k = 0; k < n; k++)
    {
      switch (r.below (8))
      {
        case 0: s += "<>&'\"]"[r.below (6)]; break;
        case 1: s += gen_utf8_char (r); break;
        case 2: s += " \t\n"[r.below (3)]; break;
        default: s += (char) (' ' + r.below (95));
      }
    }
    std::string o; for (char c : s) if ((unsigned char) c >= 0x20 && c != 0x7f) o += c; else if (c == '\t' || c == '\n') o += c;
    // U+FFFE/U+FFFF are not characters of XML
    for (size_t p; (p = o.find ("\xef\xbf\xbe")) != std::string::npos || (p = o.find ("\xef\xbf\xbf")) != std::string::npos; ) o.erase (p, 3);
    return o;
  }
  void esc_ref (uint32_t c) { char b[24]; if (r.chance (1, 2)) snprintf (b, sizeof b, "&#%u;", c); else snprintf (b, sizeof b, r.chance (1, 2) ? "&#x%x;" : "&#x%04X;", c); t += b; }
  void chars (const std::string & s, char quote_)   // escaped text; quote_ 0 in content
  {
    for (size_t k = 0; k < s.size (); )
    {
      unsigned char c = (unsigned char) s[k]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
      uint32_t cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
      for (size_t q = 1; q < n; q++) cp = cp << 6 | ((unsigned char) s[k + q] & 63);
      const char * e = c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '\'' ? "&apos;" : c == '"' ? "&quot;" : nullptr;
      bool must = c == '<' || c == '&' || (quote_ && (c == quote_ || c == '\t' || c == '\n')) || (!quote_ && c == '>');
      if (e && (must || r.chance (1, 2))) { if (r.chance (3, 4)) t += e; else esc_ref (cp); }
      else if (must || r.chance (1, 12)) esc_ref (cp);
      else t.append (s, k, n);
      k += n;
    }
  }
  void misc (bool in_elem)   // things that denote nothing
  {
    if (!r.chance (1, 5)) { return; }
    if (r.chance (1, 2)) { t += "<!--"; std::string s = text (20); for (char c : s) if (c != '-') t += c; t += "-->"; }
    else { t += "<?"; std::string p = name (); t += "p" + p; if (r.chance (1, 2)) { t += ' '; std::string s = text (12); for (char c : s) if (c != '>') t += c; else t += ' '; } t += "?>"; }
    (void) in_elem;
  }
  V elem (unsigned depth)
  {
    if (budget) budget--;
    std::string n = name (); t += '<' + n;
    V attrs; attrs.t = IOT_DATA_MAP; attrs.kt = IOT_DATA_STRING;
    for (unsigned k = r.below (4); k-- > 0; )
    {
      std::string a = name (); if (vmap_find (attrs, vstr (a)) || a.compare (0, 3, "xml") == 0) continue;
      std::string v = text (r.chance (1, 10) ? 700 : 12); char q = r.chance (1, 2) ? '"' : '\'';
      ws (true); t += a; if (r.chance (1, 6)) ws (false); t += '='; if (r.chance (1, 6)) ws (false); t += q; chars (v, q); t += q;
      vmap_set (attrs, vstr (a), vstr (v));
    }
    if (r.chance (1, 4)) ws (false);
    if (r.chance (1, 6)) { t += "/>"; return elem_v (n, attrs, {}, ""); }
    t += '>';
    std::vector<V> kids; std::string content; unsigned parts = r.below (6);
    for (unsigned k = 0; k < parts; k++)
    {
      switch (r.below (5))
      {
        case 0: case 1: { std::string s = text (r.chance (1, 12) ? 1200 : 15); chars (s, 0); content += s; break; }
        case 2: { std::string s = text (15); size_t p; while ((p = s.find ("]]>")) != std::string::npos) s.erase (p, 1); while (!s.empty () && s.back () == ']') s.pop_back (); t += "<![CDATA[" + s + "]]>"; content += s; break; }
        case 3: misc (true); break;
        default: if (depth && budget) { kids.push_back (elem (depth - 1)); content.clear (); } break;
      }
    }
    t += "</" + n; if (r.chance (1, 8)) ws (false); t += '>';
    return elem_v (n, attrs, kids, content);
  }
  V doc ()
  {
    if (r.chance (1, 2)) { t += "<?xml version=\"1.0\""; if (r.chance (1, 2)) t += " encoding='UTF-8'"; if (r.chance (1, 4)) t += " standalone=\"yes\""; t += "?>"; ws (false); }
    misc (false); ws (false);
    V v = elem (r.below (5));
    ws (false); misc (false); ws (false);
    return v;
  }
};
// expat's view of a document
struct ExNode { std::string name, content; V attrs; std::vector<V> kids; };
struct Ex { std::vector<ExNode> st; V root; bool doctype = false; };
static void ex_start (void * u, const XML_Char * n, const XML_Char ** a) { Ex * x = (Ex *) u; ExNode e; e.name = n; e.attrs.t = IOT_DATA_MAP; e.attrs.kt = IOT_DATA_STRING; for (; *a; a += 2) vmap_set (e.attrs, vstr (a[0]), vstr (a[1])); x->st.push_back (e); }
static void ex_end (void * u, const XML_Char *) { Ex * x = (Ex *) u; ExNode e = x->st.back (); x->st.pop_back (); V v = elem_v (e.name, e.attrs, e.kids, e.content); if (x->st.empty ()) x->root = v; else { x->st.back ().kids.push_back (v); x->st.back ().content.clear (); } }
static void ex_text (void * u, const XML_Char * s, int n) { Ex * x = (Ex *) u; if (!x->st.empty ()) x->st.back ().content.append (s, (size_t) n); }
static void ex_dt (void * u, const XML_Char *, const XML_Char *, const XML_Char *, int) { ((Ex *) u)->doctype = true; }
static XML_Error expat_parse (const std::string & t, Ex & x)
{
  XML_Parser p = XML_ParserCreate ("UTF-8"); XML_SetUserData (p, &x);
  XML_SetElementHandler (p, ex_start, ex_end); XML_SetCharacterDataHandler (p, ex_text); XML_SetStartDoctypeDeclHandler (p, ex_dt);
  XML_Error e = XML_Parse (p, t.data (), (int) t.size (), 1) == XML_STATUS_OK ? XML_ERROR_NONE : XML_GetErrorCode (p);
  XML_ParserFree (p); return e;
}
// structural errors: the ones the statement calls "not well formed" (yxml documents that it does not check characters, attribute uniqueness or DTDs)
static bool structural (XML_Error e) { return e == XML_ERROR_NO_ELEMENTS || e == XML_ERROR_UNCLOSED_TOKEN || e == XML_ERROR_TAG_MISMATCH || e == XML_ERROR_JUNK_AFTER_DOC_ELEMENT || e == XML_ERROR_UNDEFINED_ENTITY || e == XML_ERROR_UNCLOSED_CDATA_SECTION; }
static void dump (const std::string & t) { static const char * f = getenv ("VH_DUMP"); if (f) { FILE * o = fopen (f, "w"); fwrite (t.data (), 1, t.size (), o); fclose (o); } }
static void xml_is (const std::string & t, const V & v, const char * key)
{
  dump (t);
  iot_data_t * d = iot_data_from_xml (t.c_str ());
  VH_CHECK (d, key, "well formed document refused: %s", quote (t).substr (0, 600).c_str ());
  CHECK_MATCH (d, v, key); iot_data_free (d);
}
static void m_xml (Rng & r, uint64_t)
{
  Xml x (r); V v = x.doc ();
  log_op ("doc %s", quote (x.t).substr (0, 900).c_str ());
  { Ex e; XML_Error er = expat_parse (x.t, e); VH_CHECK (er == XML_ERROR_NONE && veq (e.root, v), "harness-generator", "expat does not agree with the generator (%s)", er ? XML_ErrorString (er) : "tree"); }
  xml_is (x.t, v, "xml-wrong"); distinct (hash_bytes (x.t.data (), x.t.size ())); evaluation ();
  if (want_sample ()) show ("%s", quote (x.t).substr (0, 300).c_str ());
  // CRLF line ends denote the same
  if (r.chance (1, 3) && x.t.find ('\n') != std::string::npos) { std::string u; for (char c : x.t) { if (c == '\n') u += '\r'; u += c; } Ex e; if (expat_parse (u, e) == XML_ERROR_NONE) { log_op ("with CRLF"); xml_is (u, e.root, "xml-crlf"); count ("crlf_documents"); } }
}
static std::string mutate (Rng & r, const std::string & s, const std::string & other, const char * const * frag, size_t nfrag)
{
  std::string t = s;
  for (unsigned k = 1 + r.below (3); k-- > 0 && !t.empty (); )
  {
    size_t a = r.below (t.size ()), n = 1 + r.below (r.chance (1, 4) ? 20 : 3);
    switch (r.below (7))
    {
      case 0: t.erase (a, n); break;
      case 1: t.resize (a); break;
      case 2: t.insert (a, frag[r.below (nfrag)]); break;
      case 3: { std::string c = t.substr (a, n); t.insert (r.below (t.size ()), c); break; }
      case 4: t[a] = "<>/&;'\"=[]{}:,-#?! \n\tax0"[r.below (25)]; break;
      case 5: if (!other.empty ()) t.insert (a, other.substr (r.below (other.size ()), n * 3)); break;
      default: t += frag[r.below (nfrag)];
    }
  }
  return t;
}
// references padded with zeros beyond what any character needs are outside the supported subset
static bool long_ref (const std::string & t) { for (size_t k = 0; (k = t.find ('&', k)) != std::string::npos; k++) { size_t e = t.find (';', k); if (e != std::string::npos && e - k > 9) return true; } return false; }
static void m_xml_broken (Rng & r, uint64_t)
{
  Xml x (r); V v = x.doc (); Xml y (r); y.budget = 4; y.doc ();
  static const char * frag[] = {"</a>", "<a>", "<a/>", "&amp;", "&unknown;", "&#65;", "&#x41;", "<!--", "-->", "<![CDATA[", "]]>", "junk", "<", ">", "/>", "\"", "'", "<?pi ?>", " a='1'", "&", "</"};
  auto judge = [&] (const std::string & t, const char * how)
  {
    log_op ("%s: %s", how, quote (t).substr (0, 600).c_str ());
    dump (t);
    Ex e; XML_Error er = expat_parse (t, e);
    iot_data_t * d = iot_data_from_xml (t.c_str ());
    if (structural (er)) { VH_CHECK (!d, "xml-malformed-accepted", "%s (%s) gives a value: %s", how, XML_ErrorString (er), quote (t).substr (0, 600).c_str ()); count ("malformed_refused"); }
    else if (er == XML_ERROR_NONE && !e.doctype && t.find ('\r') == std::string::npos && t.find ("<!DOCTYPE") == std::string::npos)
    {
      bool deep = false; (void) deep;
      if (d) { CHECK_MATCH (d, e.root, "xml-wrong"); count ("mutants_still_documents"); }
      else VH_CHECK (t.size () > 3500 || t.find ("\xef\xbb\xbf") == 0 || t.find ("<?xml") != std::string::npos || long_ref (t), "xml-refused", "well formed document refused");
    }
    iot_data_free (d); evaluation ();
  };
  size_t n = x.t.size (); size_t step = n > 150 ? n / 150 : 1;
  for (size_t k = 0; k < n; k += step) judge (x.t.substr (0, k), "truncated");
  for (int k = 0; k < 40; k++) judge (mutate (r, x.t, y.t, frag, sizeof frag / sizeof *frag), "mutated");
  judge (x.t + y.t.substr (y.t.find ("?>") == std::string::npos ? 0 : y.t.find ("?>") + 2), "second root element");
  distinct (hash_bytes (x.t.data (), x.t.size ()));
}

// ---- YAML
enum Unspec { SPECIFIED, UNSPECIFIED };
static V resolve_plain (const std::string & s, bool & unspecified)
{
  if (s == "true") return vbool (true); if (s == "false") return vbool (false); if (s == "null") return vnull ();
  size_t p = 0; bool neg = false; if (!s.empty () && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; p = 1; }
  std::string b = s.substr (p);
  auto digits = [] (const std::string & t, const char * set) { return !t.empty () && t.find_first_not_of (set) == std::string::npos; };
  bool hex = b.size () > 2 && b[0] == '0' && (b[1] == 'x' || b[1] == 'X') && digits (b.substr (2), "0123456789abcdefABCDEF");
  bool dec = digits (b, "0123456789"); bool oct = dec && b.size () > 1 && b[0] == '0';
  if (oct && !digits (b, "01234567")) { unspecified = true; return vstr (s); }
  if (hex || dec)
  {
    unsigned base = hex ? 16 : oct ? 8 : 10; unsigned __int128 v = 0; bool big = false;
    for (char c : hex ? b.substr (2) : b) { unsigned dgt = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; v = v * base + dgt; if (v >> 100) { big = true; break; } }
    if (!big && neg && v <= ((unsigned __int128) 1 << 63)) return vint (IOT_DATA_INT64, (int64_t) (0 - (uint64_t) v));
    if (!big && !neg && v <= UINT64_MAX) { if (v < INT64_MAX) return vint (IOT_DATA_INT64, (int64_t) v); V x; x.t = IOT_DATA_UINT64; x.u = (uint64_t) v; return x; }
    if (oct) { unspecified = true; return vstr (s); }
    return vflt (IOT_DATA_FLOAT64, strtod (s.c_str (), nullptr));
  }
  // float: [-+]?(d+.?d*|.d+)([eE][-+]?d+)?
  size_t q = 0, nd = 0; while (q < b.size () && isdigit ((unsigned char) b[q])) q++, nd++;
  if (q < b.size () && b[q] == '.') { q++; while (q < b.size () && isdigit ((unsigned char) b[q])) q++, nd++; }
  if (nd && q < b.size () && (b[q] == 'e' || b[q] == 'E')) { size_t z = q + 1; if (z < b.size () && (b[z] == '-' || b[z] == '+')) z++; size_t z0 = z; while (z < b.size () && isdigit ((unsigned char) b[z])) z++; if (z > z0) q = z; }
  if (nd && q == b.size ()) return vflt (IOT_DATA_FLOAT64, strtod (s.c_str (), nullptr));
  char * e; strtod (s.c_str (), &e); if (e != s.c_str () && *e == 0) unspecified = true;    // inf, nan, hexadecimal floats
  if (b.size () > 2 && b[0] == '0' && (b[1] == 'b' || b[1] == 'B')) unspecified = true;
  if (s.empty () || s == "~" || s == "Null" || s == "NULL") unspecified = true;
  return vstr (s);
}
static std::string plain_number (Rng & r)
{
  char b[80]; uint64_t u = gen_u64 (r); const char * sg = r.chance (1, 3) ? "-" : r.chance (1, 6) ? "+" : "";
  switch (r.below (8))
  {
    case 0: snprintf (b, sizeof b, "%s0x%" PRIx64, sg, u); break;
    case 1: snprintf (b, sizeof b, "%s0X%" PRIX64, sg, u); break;
    case 2: snprintf (b, sizeof b, "%s0%" PRIo64, sg, u); break;
    case 3: { static const char * k[] = {"18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "-99999999999999999999999", "0", "-0", "0x0", "00", "-1", "0xffffffffffffffff", "-0x8000000000000000", "01777777777777777777777"}; return r.pick (k); }
    case 4: snprintf (b, sizeof b, "%.17g", gen_f64 (r, false, false)); break;
    case 5: snprintf (b, sizeof b, "%s%u.%u", sg, (unsigned) r.below (1000), (unsigned) r.below (1000)); break;
    case 6: { static const char * k[] = {"1.", ".5", "-.25", "1e3", "1E+5", "-2.5e-3", "1.0e308", "+.1"}; return r.pick (k); }
    default: snprintf (b, sizeof b, "%s%" PRIu64, sg, u);
  }
  return b;
}
struct Yaml {
  Rng & r; std::string t; unsigned budget = 40; bool flow_root = false, anchors = false; unsigned scalars = 0;
  explicit Yaml (Rng & rr) : r (rr) {}
  std::string word ()
  {
    static const char * w[] = {"a", "b", "name", "true", "false", "null", "x y", "path/to", "12", "0x1f", "Switch", "a-b", "no", "yes", "True", "v1.2", "10.0.0.1", "12:30:45", "1_000", "0o17", "é", "-a", "a#b", "e5", "0x", "0xg1", "1e", "--1", "1 2", ".", "+", "true1", "nulls", "falsey"};
    return r.chance (1, 3) ? r.pick (w) : r.chance (1, 2) ? plain_number (r) : std::string (1, (char) ('a' + r.below (26))) + std::to_string (r.below (100));
  }
  std::string dq (const std::string & s)
  {
    std::string o = "\"";
    for (size_t k = 0; k < s.size (); )
    {
      unsigned char c = (unsigned char) s[k]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; char b[16];
      uint32_t cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7; for (size_t q = 1; q < n; q++) cp = cp << 6 | ((unsigned char) s[k + q] & 63);
      bool must = cp < 0x20 || (cp >= 0x7f && cp < 0xa0) || c == '"' || c == '\\' || (cp >= 0xd800 && cp < 0xe000) || cp == 0xfffe || cp == 0xffff || cp == 0xfeff || cp == 0x2028 || cp == 0x2029;
      if (c == '\n') o += "\\n"; else if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\t') o += "\\t";
      else if (must || r.chance (1, 12)) { if (cp < 0x100 && r.chance (1, 2)) snprintf (b, sizeof b, "\\x%02x", cp); else if (cp < 0x10000) snprintf (b, sizeof b, "\\u%04X", cp); else snprintf (b, sizeof b, "\\U%08X", cp); o += b; }
      else o.append (s, k, n);
      k += n;
    }
    return o + "\"";
  }
  std::string str () { GenOpt o; o.long_strings = r.chance (1, 15); std::string s = r.chance (1, 2) ? word () : gen_string (r, o); std::string q; for (size_t k = 0; k < s.size (); ) { unsigned char c = (unsigned char) s[k]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; if (k + n > s.size ()) break; std::string ch = s.substr (k, n); if (ch != "\xef\xbf\xbe" && ch != "\xef\xbf\xbf") q += ch; k += n; } return q; }
  V scalar (bool flow, std::string & out, int indent)
  {
    if (!anchors) return scalar1 (flow, out, indent);
    if (scalars && r.chance (1, 6)) { out = "*anc "; return vnull (); }
    V v = scalar1 (flow, out, indent); if (!scalars++) out = "&anc " + out; return v;
  }
  V scalar1 (bool flow, std::string & out, int indent)
  {
    switch (r.below (flow ? 5 : 6))
    {
      case 0: { std::string s = str (); out = dq (s); return vstr (s); }
      case 1: { std::string s; for (char c : str ()) if ((unsigned char) c >= 0x20 && (unsigned char) c < 0x7f) s += c; out = "'"; for (char c : s) { if (c == '\'') out += c; out += c; } out += "'"; return vstr (s); }
      case 5: // literal block
      {
        std::string s; unsigned n = 1 + r.below (3); out = "|\n";
        for (unsigned k = 0; k < n; k++) { std::string w = word (); s += w + "\n"; out += std::string (indent + 2, ' ') + w + "\n"; }
        out.pop_back (); return vstr (s);
      }
      default:
      {
        bool un = false; std::string w; V v;
        do { un = false; w = word (); v = resolve_plain (w, un); } while (un || w == "-" || w[0] == '-' && w.size () == 1 || (flow && w == "."));
        out = w; return v;
      }
    }
  }
  std::string key (V & m) { std::string k; do { k = r.chance (1, 4) ? std::string ("key ") + std::to_string (r.below (50)) : std::string (1, (char) ('a' + r.below (26))) + std::to_string (r.below (30)); } while (vmap_find (m, vstr (k))); return k; }
  std::string kq (const std::string & k) { return r.chance (1, 4) ? dq (k) : r.chance (1, 6) ? "'" + k + "'" : k; }
  V flow (unsigned depth)
  {
    if (budget) budget--;
    V v;
    auto sp = [&] { if (r.chance (1, 3)) t += r.chance (1, 5) ? "\n    " : " "; };
    if (!depth || r.chance (1, 3)) { std::string s; v = scalar (true, s, 0); t += s; return v; }
    unsigned n = budget > 3 ? r.below (5) : 0;
    if (r.chance (1, 2)) { v.t = IOT_DATA_VECTOR; t += '['; for (unsigned k = 0; k < n; k++) { if (k) t += ", "; sp (); v.e.push_back (flow (depth - 1)); sp (); } t += ']'; return v; }
    v.t = IOT_DATA_MAP; v.kt = IOT_DATA_STRING; t += '{';
    for (unsigned k = 0; k < n; k++) { if (k) t += ", "; sp (); std::string ky = key (v); t += kq (ky) + ": "; V x = flow (depth - 1); vmap_set (v, vstr (ky), x); sp (); }
    t += '}'; return v;
  }
  // emits the value after "key:" or "-" at this indent; ends with newline
  V block_value (unsigned depth, int indent)
  {
    if (budget) budget--;
    V v; std::string s;
    unsigned n = 1 + r.below (4);
    switch (depth && budget > 3 ? r.below (5) : r.below (2))
    {
      case 0: case 1: v = scalar (false, s, indent); t += " " + s; if (r.chance (1, 8) && s[0] != '|') t += "  # comment: [" ; t += "\n"; return v;
      case 2: t += " "; v = flow (depth - 1); t += "\n"; return v;
      case 3: t += "\n"; return block_map (depth - 1, indent + 1 + (int) r.below (3), n);
      default: t += "\n"; return block_seq (depth - 1, indent + 1 + (int) r.below (3), n);
    }
  }
  void noise (int) { if (r.chance (1, 12)) t += "\n"; if (r.chance (1, 12)) t += "# a: comment\n"; }
  V block_map (unsigned depth, int indent, unsigned n)
  {
    V v; v.t = IOT_DATA_MAP; v.kt = IOT_DATA_STRING;
    for (unsigned k = 0; k < n; k++)
    {
      noise (indent); std::string ky; V x; bool dupe = k && r.chance (1, 12);
      ky = dupe ? v.m[r.below (v.m.size ())].first.s : key (v); if (dupe) count ("duplicate_keys");
      t += std::string (indent, ' ') + kq (ky) + ":"; x = block_value (depth, indent); vmap_set (v, vstr (ky), x);
    }
    return v;
  }
  V block_seq (unsigned depth, int indent, unsigned n) { V v; v.t = IOT_DATA_VECTOR; for (unsigned k = 0; k < n; k++) { noise (indent); t += std::string (indent, ' ') + "-"; v.e.push_back (block_value (depth, indent)); } return v; }
  V doc ()
  {
    V v; if (r.chance (1, 4)) t += "# heading\n"; if (r.chance (1, 4)) t += "---\n";
    unsigned d = r.below (5);
    switch (r.below (4))
    {
      case 0: flow_root = true; v = flow (d + 1); t += "\n"; break;
      case 1: v = block_seq (d, (int) r.below (3), 1 + r.below (4)); break;
      default: v = block_map (d, 0, 1 + r.below (5));
    }
    if (r.chance (1, 8)) t += "...\n";
    return v;
  }
};
// libyaml's own document loader: is the stream well formed, and what does its first document hold?
static bool node_v (yaml_document_t * d, int id, V & v, bool & unspec, bool & unsupported, unsigned depth)
{
  yaml_node_t * n = yaml_document_get_node (d, id); if (!n || depth > 600) { unsupported = true; return false; }
  switch (n->type)
  {
    case YAML_SCALAR_NODE:
    {
      std::string s ((const char *) n->data.scalar.value, n->data.scalar.length);
      if (s.find ('\0') != std::string::npos) unspec = true;
      v = n->data.scalar.style == YAML_PLAIN_SCALAR_STYLE ? resolve_plain (s, unspec) : vstr (s); return true;
    }
    case YAML_SEQUENCE_NODE: v = V (); v.t = IOT_DATA_VECTOR; for (int * i = n->data.sequence.items.start; i < n->data.sequence.items.top; i++) { V x; if (!node_v (d, *i, x, unspec, unsupported, depth + 1)) return false; v.e.push_back (x); } return true;
    case YAML_MAPPING_NODE:
      v = V (); v.t = IOT_DATA_MAP; v.kt = IOT_DATA_STRING;
      for (yaml_node_pair_t * p = n->data.mapping.pairs.start; p < n->data.mapping.pairs.top; p++)
      {
        yaml_node_t * k = yaml_document_get_node (d, p->key); V x;
        if (!k || k->type != YAML_SCALAR_NODE) { unsupported = true; return false; }
        if (!node_v (d, p->value, x, unspec, unsupported, depth + 1)) return false;
        vmap_set (v, vstr (std::string ((const char *) k->data.scalar.value)), x);
      }
      return true;
    default: unsupported = true; return false;
  }
}
struct YRef { bool well = true, skip = false, empty = true, unspec = false, unsupported = false, alias = false; V v; };
static YRef yaml_ref (const std::string & t)
{
  YRef f; yaml_parser_t p;
  yaml_parser_initialize (&p); yaml_parser_set_input_string (&p, (const unsigned char *) t.c_str (), strlen (t.c_str ()));
  for (bool done = false; !done; ) { yaml_event_t e; if (!yaml_parser_parse (&p, &e)) { f.well = false; break; } if (e.type == YAML_ALIAS_EVENT) f.alias = true; done = e.type == YAML_STREAM_END_EVENT; yaml_event_delete (&e); }
  yaml_parser_delete (&p);
  yaml_parser_initialize (&p); yaml_parser_set_input_string (&p, (const unsigned char *) t.c_str (), strlen (t.c_str ()));
  for (bool first = true;; first = false)
  {
    yaml_document_t d;
    if (!yaml_parser_load (&p, &d)) { f.skip = f.well; break; }   // the loader alone refuses duplicate anchors
    yaml_node_t * root = yaml_document_get_root_node (&d);
    if (!root) { yaml_document_delete (&d); break; }
    if (first && !f.alias) { f.empty = false; node_v (&d, 1, f.v, f.unspec, f.unsupported, 1); }
    else { V o; bool u = false; node_v (&d, 1, o, u, f.skip, 1); }   // unsupported content in a later document
    yaml_document_delete (&d);
  }
  yaml_parser_delete (&p);
  return f;
}
static void m_yaml (Rng & r, uint64_t)
{
  Yaml y (r); V v = y.doc ();
  log_op ("doc %s", quote (y.t).substr (0, 900).c_str ());
  { YRef f = yaml_ref (y.t); VH_CHECK (f.well && !f.empty && !f.unspec && !f.unsupported && veq (f.v, v), "harness-generator", "reference loader does not agree with the generator (well %d unspec %d unsup %d): %s against %s", f.well, f.unspec, f.unsupported, vshow (f.v).c_str (), vshow (v).c_str ()); }
  std::string keep = y.t;
  iot_data_t * ex = (iot_data_t *) &ex; iot_data_t * d = iot_data_from_yaml (y.t.c_str (), &ex);
  VH_CHECK (!ex, "yaml-exception", "exception \"%s\" for a well formed document", iot_data_string (ex));
  CHECK_MATCH (d, v, "yaml-wrong");
  VH_CHECK (keep == y.t, "yaml-input-changed", "decoding changed its input");
  iot_data_free (d); distinct (hash_bytes (y.t.data (), y.t.size ())); evaluation ();
  if (want_sample ()) show ("%s", quote (y.t).substr (0, 300).c_str ());
}
static void m_yaml_broken (Rng & r, uint64_t)
{
  Yaml y (r); y.doc (); Yaml z (r); z.budget = 5; z.doc ();
  static const char * frag[] = {"]", "[", "}", "{", ": ", "- ", "\n", "\n  ", "\n\t", "\"", "'", "&a ", "*a", "!!str ", "? ", "|\n", ">\n", "#", "---\n", "...\n", "%YAML 1.1\n", "@", "`", ", ", "a: b: c", "<<: ", "\x01", "\xff", "'''"};
  auto judge = [&] (const std::string & t0, const char * how)
  {
    std::string t = t0.c_str ();
    log_op ("%s: %s", how, quote (t).substr (0, 700).c_str ());
    YRef f = yaml_ref (t);
    iot_data_t * ex = nullptr; iot_data_t * d = iot_data_from_yaml (t.c_str (), &ex);
    VH_CHECK (!(d && ex), "yaml-value-and-exception", "both a value and an exception (%s)", iot_data_string (ex));
    if (f.skip) { count ("not_judged"); }
    else if (!f.well || f.alias || f.unsupported)
    {
      VH_CHECK (!d, "yaml-malformed-accepted", "%s gives a value: %s", how, quote (t).substr (0, 600).c_str ());
      VH_CHECK (ex && iot_data_type (ex) == IOT_DATA_STRING && strlen (iot_data_string (ex)) > 0, "yaml-no-exception", "%s gives no error description: %s", how, quote (t).substr (0, 600).c_str ());
      count ("malformed_refused");
    }
    else if (!f.empty)
    {
      VH_CHECK (d && !ex, "yaml-refused", "well formed document refused: %s", ex ? iot_data_string (ex) : "no exception");
      if (!f.unspec) { CHECK_MATCH (d, f.v, "yaml-wrong"); count ("mutants_still_documents"); }
    }
    iot_data_free (d); iot_data_free (ex); evaluation ();
  };
  size_t n = y.t.size (), step = n > 100 ? n / 100 : 1;
  for (size_t k = 0; k < n; k += step) judge (y.t.substr (0, k), "truncated");
  for (int k = 0; k < 40; k++) judge (mutate (r, y.t, z.t, frag, sizeof frag / sizeof *frag), "mutated");
  for (int k = 0; k < 8; k++) { Yaml w (r); w.anchors = true; w.doc (); if (w.t.find ("*anc") != std::string::npos) { YRef f = yaml_ref (w.t); if (f.well && f.alias) count ("documents_with_aliases"); judge (w.t, "aliases"); } }
  judge (y.t + "---\n" + z.t, "two documents"); judge (y.t + "...\n]", "junk after");
  distinct (hash_bytes (y.t.data (), y.t.size ()));
}
// Plain scalars of every class on their own
static void m_scalars (Rng & r, uint64_t)
{
  for (int k = 0; k < 60; k++)
  {
    std::string s; bool un = false; Yaml y (r);
    s = r.chance (1, 2) ? plain_number (r) : y.word ();
    if (r.chance (1, 4)) { size_t a = r.below (s.size () + 1); s.insert (a, 1, "0123456789.-+exXabcf_"[r.below (21)]); }
    V v = resolve_plain (s, un); if (un) { count ("unspecified"); continue; }
    YRef f = yaml_ref (s); if (!f.well || f.empty || !veq (f.v, v)) continue;
    iot_data_t * ex; iot_data_t * d = iot_data_from_yaml (s.c_str (), &ex);
    log_op ("scalar %s", s.c_str ());
    CHECK_MATCH (d, v, "yaml-scalar"); iot_data_free (d); evaluation (); distinct (hash_bytes (s.data (), s.size ()));
  }
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = {{"xml", m_xml, true}, {"xmlbroken", m_xml_broken, true}, {"yaml", m_yaml, true}, {"yamlbroken", m_yaml_broken, true}, {"scalars", m_scalars, true}};
  return run (argc, argv, modes, 5);
}
