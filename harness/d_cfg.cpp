// C22: configuration access and environment substitution. Oracles: the exact conversion rule (castref.hpp) and a substitution written here.
#include "model_impl.hpp"
#include "castref.hpp"
#include "iot/config.h"
#include "iot/logger.h"
#include "iot/container.h"
#include <set>
#include <map>
using namespace vh;
static std::atomic<unsigned> g_errs;
static void sink (iot_logger_t *, iot_loglevel_t l, uint64_t, const char *, const void *) { if (l == IOT_LOG_ERROR) g_errs++; }
static bool g_dfl;   // errors go to the default logger, which passes them on to the counting one
static iot_logger_t * counting () { static iot_logger_t * l = iot_logger_alloc_custom ("cfg", IOT_LOG_ERROR, true, NULL, sink, NULL, NULL); return l; }
static iot_logger_t * quiet () { return g_dfl ? NULL : counting (); }
struct Default {
  Default (bool on) { g_dfl = on; if (on) { console_to ("/dev/null", "/dev/null"); iot_logger_set_level (iot_logger_default (), IOT_LOG_ERROR); count ("cases_reported_to_the_default_logger"); } }
  ~Default () { if (g_dfl) { iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); g_dfl = false; console_back (); } }
};
template <class T> static void getter (bool (*fn) (const iot_data_t *, const char *, T *, iot_logger_t *), iot_data_type_t to, const iot_data_t * map, const std::string & key, const V * v)
{
  unsigned char out[24]; memset (out, 0xA5, sizeof out);
  V want; int w = v ? ideal (*v, to, want) : 0;
  unsigned e0 = g_errs; 
  bool ok = fn (map, key.c_str (), (T *) (out + 8), quiet ());
  evaluation ();
  std::string vs = v ? vshow (*v) : std::string ("(absent)");
  if (w >= 0) VH_CHECK (ok == (w == 1), "getter-acceptance", "%s read as %s %s", quote (vs).c_str (), iot_data_type_string (to), ok ? "succeeded" : "failed");
  for (unsigned b = 0; b < sizeof out; b++) if (b < 8 || b >= 8 + (ok ? sizeof (T) : 0)) VH_CHECK (out[b] == 0xA5, "getter-untouched", "%s read as %s (%d) wrote byte %u outside the value", quote (vs).c_str (), iot_data_type_string (to), ok, b);
  VH_CHECK (ok || g_errs == e0 + 1, "getter-report", "failure to read %s as %s reported %u times", quote (vs).c_str (), iot_data_type_string (to), g_errs - e0);
  VH_CHECK (!ok || g_errs == e0, "getter-report", "reading %s as %s succeeded but reported an error", quote (vs).c_str (), iot_data_type_string (to));
  if (ok && w == 1) { V got = raw_to_v (out + 8, to); VH_CHECK (same (got, want), "getter-value", "%s read as %s gives %s", quote (vs).c_str (), iot_data_type_string (to), vshow (got).c_str ()); count ("values_read"); }
  else count ("reads_refused");
}
static void m_get (Rng & r, uint64_t)
{
  GenOpt o; o.nan = o.inf = true; o.pointers = true; o.holes = true; o.depth = 2;
  V m; m.t = IOT_DATA_MAP; m.kt = IOT_DATA_STRING;
  std::vector<std::string> keys;
  for (unsigned k = 1 + r.below (12); k-- > 0; )
  {
    std::string key = r.chance (1, 4) ? gen_string (r, o) : std::string ("key") + std::to_string (r.below (20));
    V v = r.chance (1, 4) ? gen_value (r, o, 2) : gen_scalar (r, o, (iot_data_type_t) r.below (r.chance (1, 3) ? (unsigned) IOT_DATA_STRING + 1 : 11));
    if (r.chance (1, 2))
    { // around the limits of a destination
      static const iot_data_type_t D[] = { IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64 };
      iot_data_type_t to = r.pick (D);
      if (is_flt (v.t)) { double e = (double) (r.chance (1, 2) ? LO[to] : HI[to]); int st = (int) r.below (5) - 2; if (r.chance (1, 2)) e += st * 0.5; else for (int s = 0; s < abs (st); s++) e = v.t == IOT_DATA_FLOAT32 ? nextafterf ((float) e, st < 0 ? -INFINITY : INFINITY) : nextafter (e, st < 0 ? -INFINITY : INFINITY); v = vflt (v.t, e); }
      else if (is_int (v.t)) { __int128 e = (__int128) (r.chance (1, 2) ? LO[to] : HI[to]) + (int) r.below (5) - 2; if (e >= (__int128) LO[v.t] && e <= (__int128) HI[v.t]) { if (is_sint (v.t)) v.i = (int64_t) e; else v.u = (uint64_t) e; } }
    }
    vmap_set (m, vstr (key), v); keys.push_back (key);
  }
  for (int k = 0; k < 3; k++) keys.push_back (std::string ("absent") + std::to_string (k));
  keys.push_back ("");
  iot_data_t * d = build_random (m, r);
  // some of the texts name components
  static bool once = (iot_component_factory_add (iot_logger_factory ()), iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE), true); (void) once;
  iot_container_t * cont = iot_container_alloc ("c"); std::set<std::string> comps; iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  for (auto & key : keys) { const V * v = vmap_find (m, vstr (key)); if (v && v->t == IOT_DATA_STRING && r.chance (1, 2) && comps.insert (v->s).second) iot_container_add_component (cont, IOT_LOGGER_TYPE, v->s.c_str (), "{\"Name\":\"n\"}"); }
  Default dfl (r.chance (1, 3));
  for (auto & key : keys)
  {
    const V * v = vmap_find (m, vstr (key));
    getter<int32_t> (iot_config_i32, IOT_DATA_INT32, d, key, v); getter<uint32_t> (iot_config_ui32, IOT_DATA_UINT32, d, key, v);
    getter<int64_t> (iot_config_i64, IOT_DATA_INT64, d, key, v); getter<uint64_t> (iot_config_ui64, IOT_DATA_UINT64, d, key, v);
    getter<double> (iot_config_f64, IOT_DATA_FLOAT64, d, key, v); getter<bool> (iot_config_bool, IOT_DATA_BOOL, d, key, v);
    bool isstr = v && v->t == IOT_DATA_STRING;
    for (int a = 0; a < 2; a++)
    {
      unsigned e0 = g_errs;
      const char * s = iot_config_string (d, key.c_str (), a, quiet ());
      VH_CHECK ((s != NULL) == isstr && (g_errs == e0) == isstr, "string-acceptance", "%s read as a string %s", v ? quote (vshow (*v)).c_str () : "(absent)", s ? "succeeded" : "failed");
      if (isstr) VH_CHECK (v->s == s, "string-value", "%s read as %s", quote (v->s).c_str (), quote (s).c_str ());
      if (s) { const char * in = iot_data_string (iot_data_string_map_get (d, key.c_str ())); VH_CHECK ((s != in) == !!a, "string-alloc", "alloc %d returned %s", a, s == in ? "the held text" : "a copy"); if (a) free ((void *) s); }
      const char * dflt = r.chance (1, 4) ? NULL : "the default";
      s = iot_config_string_default (d, key.c_str (), dflt, a);
      if (isstr) VH_CHECK (s && v->s == s, "string-default", "%s read as %s", quote (v->s).c_str (), s ? quote (s).c_str () : "NULL");
      else VH_CHECK (dflt ? s && !strcmp (s, dflt) : !s, "string-default", "default not returned for %s", v ? quote (vshow (*v)).c_str () : "(absent)");
      if (a) { VH_CHECK (!s || s != dflt, "string-alloc", "the caller's default returned instead of a copy"); free ((void *) s); }
      evaluation (2);
    }
    {
      unsigned e0 = g_errs; iot_component_t * c = iot_config_component (d, key.c_str (), cont, quiet ()); bool there = isstr && comps.count (v->s);
      VH_CHECK (there ? c && c->name && v->s == c->name && g_errs == e0 : !c && g_errs == e0 + 1, "component", "%s read as a component gives %s, with %u errors reported", v ? quote (vshow (*v)).c_str () : "(absent)", c ? c->name : "nothing", g_errs - e0);
      VH_CHECK (!there || c == iot_container_find_component (cont, v->s.c_str ()), "component", "another component than the container's"); if (there) count ("components_found"); evaluation ();
    }
    uint32_t refs = iot_data_ref_count (d);
    unsigned e1 = g_errs; const iot_data_t * sub = iot_config_map (d, key.c_str (), quiet ()); const iot_data_t * held = iot_data_string_map_get (d, key.c_str ());
    VH_CHECK (sub == (v && v->t == IOT_DATA_MAP ? held : NULL), "map-type", "%s read as a map gives %p", v ? quote (vshow (*v)).c_str () : "(absent)", (const void *) sub);
    sub = iot_config_vector (d, key.c_str (), quiet ());
    VH_CHECK (sub == (v && v->t == IOT_DATA_VECTOR ? held : NULL), "vector-type", "%s read as a vector gives %p", v ? quote (vshow (*v)).c_str () : "(absent)", (const void *) sub);
    VH_CHECK (g_errs == e1 + !(v && v->t == IOT_DATA_MAP) + !(v && v->t == IOT_DATA_VECTOR), "getter-report", "%s read as a map and as a vector: %u failures reported", v ? quote (vshow (*v)).c_str () : "(absent)", g_errs - e1);
    VH_CHECK (iot_data_ref_count (d) == refs, "get-refs", "reading changed the reference count");
    evaluation (2);
  }
  CHECK_MATCH (d, m, "get-changes");
  count ("errors_reported", g_errs.exchange (0));
  iot_data_free (d); iot_container_free (cont);
  distinct (vhash (m)); if (want_sample ()) show ("%s", quote (vshow (m)).c_str ());
}
// ---- environment
static bool ref_subst (const std::string & s, const std::map<std::string, std::string> & env, std::string & out)
{
  out.clear ();
  for (size_t p = 0; p < s.size (); )
  {
    size_t e;
    if (s.compare (p, 2, "${") == 0 && (e = s.find ('}', p)) != std::string::npos)
    {
      auto it = env.find (s.substr (p + 2, e - p - 2));
      if (e == p + 2 || it == env.end () || e - p - 2 > 63) return false;
      out += it->second; p = e + 1; continue;
    }
    out += s[p++];
  }
  return true;
}
static std::map<std::string, std::string> g_env;
static std::vector<std::string> g_names;
static std::string rtext (Rng & r, size_t max)
{
  std::string s; size_t n = r.below (max + 1);
  for (size_t k = 0; k < n; k++) s += r.chance (1, 4) ? "${}$ \t\n\"\\"[r.below (9)] : (char) (r.chance (1, 8) ? r.range (128, 255) : r.range (32, 126));
  return s;
}
static void setup_env ()
{
  Rng r (seed () * 77 + 5);
  static const char * fixed[] = { "A", "B_1", "a.b", "X{Y", "$", "${Q", "with space", "\xc3\xa9" };
  for (auto f : fixed) g_names.push_back (f);
  for (size_t n : { 1, 2, 3, 7, 30, 61, 62, 63, 64, 65, 100, 300 }) g_names.push_back ("N" + std::string (n - 1, (char) ('a' + n % 26)));
  for (size_t k = 0; k < g_names.size (); k++)
  {
    if (k % 9 == 8) { unsetenv (g_names[k].c_str ()); continue; }   // known to be unset
    std::string v = k % 5 == 0 ? "" : k % 5 == 1 ? "${A}" : k % 5 == 2 ? std::string (1 + r.below (3000), 'z') + "}" : rtext (r, 40);
    setenv (g_names[k].c_str (), v.c_str (), 1); g_env[g_names[k]] = v;
  }
}
static void m_env (Rng & r, uint64_t)
{
  if (g_names.empty ()) setup_env ();
  std::vector<std::string> good; for (auto & kv : g_env) if (kv.first.size () <= 63) good.push_back (kv.first);
  std::string s; bool only_good = r.chance (2, 3);
  for (unsigned k = r.below (r.chance (1, 10) ? 80 : 10); k-- > 0; )
    switch (r.below (8))
    {
      case 0: case 1: case 2: { const std::string & n = only_good ? r.pick (good) : r.pick (g_names); s += "${" + n + "}"; break; }
      case 3: s += r.pick (good); break;
      case 4: if (!only_good) { s += r.chance (1, 2) ? "${" : "}"; break; } // fall through
      case 5: s += "$"; break;
      case 6: s += "{x"; break;
      default: { std::string t = rtext (r, 12); if (only_good) { size_t p; while ((p = t.find ("${")) != std::string::npos) t.erase (p, 1); } s += t; }
    }
  if (r.chance (1, 3)) s += r.chance (1, 2) ? "$" : "${";
  char * in = strdup (s.c_str ()); s = in;
  std::string want; bool ok = ref_subst (s, g_env, want);
  Default dfl (r.chance (1, 3)); unsigned e0 = g_errs;
  char * out = iot_config_substitute_env (in, quiet ());
  evaluation ();
  VH_CHECK ((out != NULL) == ok, "env-acceptance", "%s %s", quote (s).c_str (), out ? "substituted" : "refused");
  VH_CHECK ((g_errs == e0) == ok, "env-report", "%s: %u errors reported, %s", quote (s).c_str (), g_errs - e0, ok ? "success" : "failure");
  if (ok) { VH_CHECK (want == out, "env-value", "%s gives %s, expected %s", quote (s).c_str (), quote (out).c_str (), quote (want).c_str ()); count ("substituted"); }
  else count ("refused");
  VH_CHECK (s == in, "env-input", "input changed");
  free (in); free (out);
  distinct (hash_bytes (s.data (), s.size ())); if (want_sample ()) show ("%s -> %s", quote (s.substr (0, 150)).c_str (), ok ? quote (want.substr (0, 100)).c_str () : "refused");
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "get", m_get, true }, { "env", m_env, true } };
  iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); iot_logger_set_next (iot_logger_default (), counting ());
  return run (argc, argv, modes, 2);
}
