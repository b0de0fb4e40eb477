// C01: untrusted text guided by coverage (libFuzzer). Takes the drivers' arguments and turns them into libFuzzer's.
#include "vh.hpp"
#include <algorithm>
#include <sys/stat.h>
#include "untrusted.hpp"
#include <set>
static int g_kind; static uint64_t g_n, g_ok, g_nodes; static const char * g_hashes; static std::set<uint64_t> * g_shapes; static std::string * g_now;
namespace vh {
void fail (const char * key, const char * fmt, ...) { va_list a; va_start (a, fmt); printf ("VIOL key=%s case=fuzz:%s msg=", key, tg::kind_name (g_kind)); vprintf (fmt, a); printf ("\n"); if (g_now) printf ("text (%zu bytes): %s\n", g_now->size (), quote (*g_now).substr (0, 4000).c_str ()); fflush (stdout); va_end (a); _exit (96); }
std::string quote (const std::string & s) { std::string o = "\""; char b[8]; for (unsigned char c : s) if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf (b, sizeof b, "\\x%02x", c); o += b; } else o += (char) c; return o + "\""; }
}
extern "C" void __sanitizer_set_death_callback (void (*) (void));
static void on_death () { if (g_now) { printf ("text (%zu bytes): %s\n", g_now->size (), vh::quote (*g_now).substr (0, 4000).c_str ()); fflush (stdout); } }
static void at_end ()
{
  if (g_hashes) { FILE * f = fopen (g_hashes, "wb"); if (f) { for (uint64_t h : *g_shapes) fwrite (&h, 8, 1, f); fclose (f); } }
  printf ("\nEVID {\"cases\": %lu, \"evaluations\": %lu, \"distinct\": %zu, \"counters\": {\"texts_guided_by_coverage\": %lu, \"guided_texts_decoded\": %lu, \"values_walked\": %lu}, \"samples\": []}\n", g_n, g_n, g_shapes->size (), g_n, g_ok, g_nodes); fflush (stdout);
}
extern "C" int LLVMFuzzerInitialize (int * argc, char *** argv)
{
  char ** v = *argv; if (*argc < 5) { fprintf (stderr, "usage: %s KIND SEED FIRST N dir=DIR [hashes=FILE]\n", v[0]); exit (2); }
  std::string mode = v[1], dir = "."; g_kind = -1; for (int k = 0; k < tg::KINDS; k++) if (mode == tg::kind_name (k)) g_kind = k; if (g_kind < 0) { fprintf (stderr, "no kind %s\n", v[1]); exit (2); }
  uint64_t seed = strtoull (v[2], NULL, 10), first = strtoull (v[3], NULL, 10), n = strtoull (v[4], NULL, 10); for (int k = 5; k < *argc; k++) { if (!strncmp (v[k], "dir=", 4)) dir = v[k] + 4; if (!strncmp (v[k], "hashes=", 7)) g_hashes = strdup (v[k] + 7); }
  vh::Rng r (seed * 1000003 + first + (uint64_t) g_kind); std::string corpus = dir + "/corpus"; mkdir (corpus.c_str (), 0700);
  for (int k = 0; k < 60; k++) { std::string s = k % 3 ? tg::generate (r, g_kind) : tg::any (r, g_kind), p = corpus + "/" + std::to_string (k); if (s.size () > 4000) s.resize (4000); FILE * f = fopen (p.c_str (), "wb"); if (f) { fwrite (s.data (), 1, s.size (), f); fclose (f); } }
  { std::string p = dir + "/dict"; FILE * f = fopen (p.c_str (), "wb"); for (auto & t : tg::dict (g_kind)) { std::string q = "\""; char b[8]; for (unsigned char c : t) { snprintf (b, sizeof b, "\\x%02X", c); q += b; } fprintf (f, "%s\"\n", q.c_str ()); } fclose (f); }
  static std::vector<std::string> a; char b[64]; a.push_back (v[0]); snprintf (b, sizeof b, "-runs=%lu", n); a.push_back (b); snprintf (b, sizeof b, "-seed=%lu", (unsigned long) ((seed ^ (first * 2654435761u)) % 2000000000u + 1)); a.push_back (b);
  a.push_back ("-timeout=60"); a.push_back ("-rss_limit_mb=3000"); a.push_back ("-max_len=4096"); a.push_back ("-verbosity=0"); a.push_back ("-print_final_stats=0"); a.push_back ("-detect_leaks=1"); a.push_back ("-len_control=0"); a.push_back ("-artifact_prefix=" + dir + "/"); a.push_back ("-dict=" + dir + "/dict"); a.push_back (corpus);
  static std::vector<char *> p; for (auto & s : a) p.push_back ((char *) s.c_str ()); p.push_back (NULL); *argv = p.data (); *argc = (int) a.size ();
  un::set_env (); un::quiet (); g_shapes = new std::set<uint64_t> (); g_now = new std::string (); __sanitizer_set_death_callback (on_death); atexit (at_end); return 0;
}
extern "C" int LLVMFuzzerTestOneInput (const uint8_t * d, size_t n)
{
  *g_now = std::string ((const char *) d, n); *g_now = std::string (g_now->c_str ()); un::Seen s; g_n++; bool ok = un::judge (g_kind, *g_now, s); if (ok) g_ok++; g_nodes += s.nodes; uint64_t h = s.shape * 31 + (uint64_t) g_kind; if (g_shapes->size () < 200000) g_shapes->insert (h); return 0;
}
