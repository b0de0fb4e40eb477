// C26: what operations cost. Monitor: key comparisons counted at the C library's string comparison, per operation, against the bound of a
// balanced search tree (calibrated on a map of one member), over histories of additions and removals meant to unbalance it.
// LINK: -Wl,--wrap=strcmp,--wrap=memcmp,--wrap=strncmp,--wrap=strcasecmp
#include "vh.hpp"
#include "iot/data.h"
#include "iot/queue.h"
#include <algorithm>
#include <cmath>
#include <set>
using namespace vh;
static uint64_t g_cmps;
extern "C" {
int __real_strcmp (const char *, const char *); int __real_memcmp (const void *, const void *, size_t); int __real_strncmp (const char *, const char *, size_t); int __real_strcasecmp (const char *, const char *);
int __wrap_strcmp (const char * a, const char * b) { g_cmps++; return __real_strcmp (a, b); }
int __wrap_memcmp (const void * a, const void * b, size_t n) { g_cmps++; return __real_memcmp (a, b, n); }
int __wrap_strncmp (const char * a, const char * b, size_t n) { g_cmps++; return __real_strncmp (a, b, n); }
int __wrap_strcasecmp (const char * a, const char * b) { g_cmps++; return __real_strcasecmp (a, b); }
}
// a map of numbers written as texts of one width, so that their order is the numbers'
struct M
{
  iot_data_t * map; std::set<uint32_t> keys; uint64_t unit = 1; uint64_t worst_n = 0; double worst_ratio = 0; uint64_t ops = 0; const char * kind = "";
  static void name (uint32_t k, char * s) { snprintf (s, 16, "%010u", k); }
  double bound () const { return (double) unit * (2 * std::log2 ((double) keys.size () + 2) + 2); }
  void judge (uint64_t c, double factor, const char * what, uint32_t k)
  {
    evaluation (); ops++; double b = bound () * factor;
    if ((double) c / b > worst_ratio) { worst_ratio = (double) c / b; worst_n = keys.size (); }
    VH_CHECK ((double) c <= b, "comparisons", "%s of key %u in a map of %zu members took %lu key comparisons, a balanced tree needs at most %.0f (history: %s, %lu operations judged)", what, k, keys.size (), (unsigned long) c, b, kind, (unsigned long) ops);
  }
  void add (uint32_t k) { char s[16]; name (k, s); iot_data_t * kd = iot_data_alloc_string (s, IOT_DATA_COPY), * v = iot_data_alloc_ui32 (k); g_cmps = 0; iot_data_map_add (map, kd, v); uint64_t c = g_cmps; keys.insert (k); judge (c, 3, "addition", k); }
  void del (uint32_t k) { char s[16]; name (k, s); iot_data_static_t st; iot_data_t * kd = iot_data_alloc_const_string (&st, s); bool had = keys.count (k) > 0; g_cmps = 0; bool ok = iot_data_map_remove (map, kd); uint64_t c = g_cmps; VH_CHECK (ok == had, "content", "removal of %u returned %d", k, ok); judge (c, 3, "removal", k); keys.erase (k); }
  uint64_t get (uint32_t k) { char s[16]; name (k, s); iot_data_static_t st; iot_data_t * kd = iot_data_alloc_const_string (&st, s); g_cmps = 0; const iot_data_t * v = iot_data_map_get (map, kd); uint64_t c = g_cmps; VH_CHECK ((v != NULL) == (keys.count (k) > 0) && (!v || iot_data_ui32 (v) == k), "content", "lookup of %u", k); judge (c, 1, "lookup", k); return c; }
  void look (Rng & r, size_t most)
  {
    if (keys.size () <= most) { for (uint32_t k : std::vector<uint32_t> (keys.begin (), keys.end ())) { get (k); if (r.chance (1, 4)) get (k + 1); } }
    else for (size_t i = 0; i < most; i++) { auto it = keys.lower_bound ((uint32_t) r.below (*keys.rbegin () + 1)); if (it != keys.end ()) get (*it); }
    if (!keys.empty ()) { get (*keys.begin ()); get (*keys.rbegin ()); get (*keys.rbegin () + 1); get (0); }
  }
};
static void m_map (Rng & r, uint64_t i)
{
  M m; static uint64_t unit; if (!unit)
  { // what one visited key costs
    m.map = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m.map, "0000000005", iot_data_alloc_ui32 (5)); g_cmps = 0; iot_data_string_map_get (m.map, "0000000005"); uint64_t a = g_cmps; g_cmps = 0; iot_data_string_map_get (m.map, "0000000006"); uint64_t b = g_cmps; g_cmps = 0; iot_data_string_map_get (m.map, "0000000004"); unit = std::max<uint64_t> (1, std::max (std::max (a, b), g_cmps)); iot_data_free (m.map); 
    if (!a) count ("comparisons_not_seen");
  }
  m.unit = unit; m.map = r.chance (1, 2) ? iot_data_alloc_map (IOT_DATA_STRING) : iot_data_alloc_map (IOT_DATA_MULTI);
  unsigned phases = 1 + (unsigned) r.below (3); static const char * const K[] = { "random churn", "keys added between others and removed again", "the same, downwards", "sliding window", "many added, few kept", "spread out, thinned by order", "deepest kept", "add and remove at the ends" };
  for (unsigned p = 0; p < phases; p++)
  {
    unsigned k = (unsigned) r.below (8); m.kind = K[k]; unsigned n = 8 + (unsigned) r.below (r.chance (1, 6) ? 400 : 90); uint32_t base = (uint32_t) r.below (1u << 20) * 16; log_op ("%s, %u", m.kind, n);
    switch (k)
    {
      case 0: { unsigned u = 2 * n, bias = 1 + (unsigned) r.below (7); for (unsigned s = 0; s < 12 * n; s++) { uint32_t x = base + (uint32_t) r.below (u); if (r.chance (bias, 8)) m.add (x); else m.del (x); } break; }
      case 1: case 2:
      { // anchors one after the other; before each new one, something between all (or many) of the anchors, gone again after it
        unsigned order = (unsigned) r.below (3), dens = 1 + (unsigned) r.below (2); auto at = [&] (unsigned a) { return k == 1 ? base + 20 * a : base + 20 * (2000 - a); };
        if (n > 120) n = 120;
        for (unsigned a = 0; a < n; a++)
        {
          std::vector<uint32_t> mid; for (unsigned b = 0; b < a; b++) for (unsigned z = 0; z < dens; z++) if (r.chance (15, 16)) mid.push_back (at (b) + 5 + 3 * z);
          for (auto x : mid) m.add (x); m.add (at (a)); if (order == 1) std::reverse (mid.begin (), mid.end ()); else if (order == 2) for (size_t z = mid.size (); z > 1; z--) std::swap (mid[z - 1], mid[r.below (z)]);
          for (auto x : mid) m.del (x); if (a % 8 == 7) m.look (r, 200);
        }
        break;
      }
      case 3: { unsigned w = 1 + (unsigned) r.below (n); bool up = r.chance (1, 2); for (unsigned s = 0; s < 12 * n; s++) { uint32_t x = up ? base + s : base + 100000 - s; m.add (x); if (s >= w) m.del (up ? x - w : x + w); } break; }
      case 4: { for (unsigned s = 0; s < 8 * n; s++) m.add (base + s); unsigned keep = 2 + (unsigned) r.below (60); bool down = r.chance (1, 2); for (unsigned s = 0; s < 8 * n; s++) { unsigned x = down ? 8 * n - 1 - s : s; if (x % keep) m.del (base + x); } break; }
      case 5: { std::vector<uint32_t> v; for (unsigned s = 0; s < 4 * n; s++) { uint32_t x = base + (uint32_t) r.below (1u << 20); m.add (x); v.push_back (x); } std::sort (v.begin (), v.end ()); unsigned z = 2 + (unsigned) r.below (5); for (size_t s = 0; s < v.size (); s++) if (s % z) m.del (v[s]); m.look (r, 300); for (unsigned s = 0; s < n; s++) { m.add (v[r.below (v.size ())] + 1); } break; }
      case 6:
        for (unsigned round = 0; round < 12; round++)
        { // those that cost most to find stay
          for (unsigned s = 0; s < n; s++) { uint32_t x; if (m.keys.empty () || r.chance (1, 8)) x = base + (uint32_t) r.below (1u << 22); else { auto it = m.keys.begin (); std::advance (it, (long) r.below (std::min<size_t> (m.keys.size (), 64))); x = *it + (uint32_t) r.below (40) - 20; } m.add (x); }
          std::vector<std::pair<uint64_t, uint32_t>> v; for (uint32_t x : m.keys) v.push_back ({ 0, x }); for (auto & c : v) c.first = m.get (c.second); std::sort (v.begin (), v.end ()); size_t drop = v.size () * (1 + r.below (7)) / 8; if (r.chance (1, 4)) std::reverse (v.begin (), v.begin () + (long) drop); for (size_t s = 0; s < drop; s++) m.del (v[s].second);
        }
        break;
      default: for (unsigned s = 0; s < 10 * n; s++) { bool hi = r.chance (1, 2); if (m.keys.size () < 3 || r.chance (5, 9)) m.add (m.keys.empty () ? 1u << 30 : hi ? *m.keys.rbegin () + 1 + (uint32_t) r.below (3) : *m.keys.begin () - 1 - (uint32_t) r.below (3)); else m.del (hi == r.chance (1, 3) ? *m.keys.rbegin () : *m.keys.begin ()); } break;
    }
    m.look (r, 400); distinct (Rng::mix (m.keys.size () * 8 + k) ^ m.ops); progress ();
    VH_CHECK (iot_data_map_size (m.map) == m.keys.size (), "content", "size %u, %zu expected", iot_data_map_size (m.map), m.keys.size ());
  }
  count ("map_histories"); if (m.worst_ratio > 0.75) count ("histories_near_the_bound"); if (i < 3 && want_sample ()) show ("%s: at worst %.0f%% of the bound, in a map of %lu", m.kind, 100 * m.worst_ratio, (unsigned long) m.worst_n);
  iot_data_free (m.map);
}
static const Mode modes[] = { { "map", m_map, true } };
int main (int argc, char ** argv) { return run (argc, argv, modes, 1); }
