// C21: loggers. Oracle: an ideal logger graph (level, saved level, running state, chain); delivered events and file/UDP lines are compared with it.
#include "vh.hpp"
#include "lin.hpp"
#include "iot/logger.h"
#include "iot/container.h"
#include "iot/time.h"
#include <map>
#include <cinttypes>
#include <algorithm>
#include <set>
#include <pthread.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
using namespace vh;
static const char * LV[] = { "", "ERROR", "WARN", "Info", "Debug", "Trace" };
struct Ev { int id; int level; uint64_t ts; std::string text; };
static std::vector<Ev> g_ev;           // sequential modes only
static int g_freed[64];
static void sink (iot_logger_t * l, iot_loglevel_t lv, uint64_t ts, const char * m, const void * ctx) { Ev e { (int) (intptr_t) ctx - 1, (int) lv, ts, m }; g_ev.push_back (e); (void) l; }
static void sfree (void * ctx) { g_freed[(intptr_t) ctx - 1]++; }
static std::string g_dir;
static std::string slurp (const std::string & p) { std::string s; FILE * f = fopen (p.c_str (), "rb"); if (f) { char b[65536]; size_t n; while ((n = fread (b, 1, sizeof b, f)) > 0) s.append (b, n); fclose (f); } return s; }
static std::string ref_line (const std::string & tname, uint64_t ts, const std::string & name, int lv, const std::string & text)
{
  std::string s = "[" + tname + ":" + std::to_string (ts) + ":" + name + ":" + LV[lv] + "] " + text.substr (0, 1023);
  if (s.size () > 1022) s.resize (1022);
  return s + "\n";
}
static std::string tname () { char b[20] = { 0 };
#ifdef IOT_HAS_PRCTL
  prctl (PR_GET_NAME, b);
#endif
  return b; }
static std::string gtext (Rng & r, bool hostile)
{
  std::string s; size_t n = r.chance (1, 8) ? r.range (900, 1400) : r.chance (1, 30) ? r.range (3000, 9000) : r.below (60);
  for (size_t k = 0; k < n; k++) { char c = (char) r.range (32, 126); if (hostile && r.chance (1, 4)) c = "%[]:\t\x01\x7f\xff\xc3"[r.below (9)]; s += c; }
  return s;
}
static std::string gname (Rng & r)
{
  if (r.chance (1, 4)) { std::string s = gtext (r, true); if (s.empty ()) s = "n"; return s; }
  return "log" + std::to_string (r.below (100));
}
struct L { iot_logger_t * l = nullptr; bool file = false; std::string path, name, expect; int save = 0, level = 0, state = 0; int next = -1; int refs = 0; bool unbuff = false; };
static std::vector<L> g_l;
static bool reaches (int from, int to) { for (int k = from; k >= 0; k = g_l[k].next) if (k == to) return true; return false; }
static void unref (int k)
{
  if (k < 0) return;
  L & x = g_l[k];
  if (--x.refs > 0) return;
  int n = x.next; x.next = -1;
  x.refs = -1;
  unref (n);
}
static void check_freed (bool final)
{
  for (size_t k = 0; k < g_l.size (); k++)
  {
    L & x = g_l[k]; int want = x.refs < 0 ? 1 : 0;
    if (!x.file) VH_CHECK (g_freed[k] == want, "log-ctx-free", "context of logger %zu freed %d times, expected %d", k, g_freed[k], want);
    else if (want && !x.path.empty ())
    {
      std::string got = slurp (x.path);
      VH_CHECK (got == x.expect, "log-file-content", "file of logger %zu (%s) holds %s, expected %s", k, quote (x.name.substr (0, 60)).c_str (), quote (got.size () > 400 ? got.substr (got.size () - 400) : got).c_str (), quote (x.expect.size () > 400 ? x.expect.substr (x.expect.size () - 400) : x.expect).c_str ());
      count ("file_lines", std::count (got.begin (), got.end (), '\n')); unlink (x.path.c_str ()); x.path.clear ();
    }
    if (final) VH_CHECK (want == 1, "harness", "logger left");
  }
}
static void emit (iot_logger_t * l, int lv, const char * t)
{
  switch (lv) { case 1: iot_log_error (l, "%s", t); break; case 2: iot_log_warn (l, "%s", t); break; case 3: iot_log_info (l, "%s", t); break; case 4: iot_log_debug (l, "%s", t); break; case 5: iot_log_trace (l, "%s", t); break; }
}
static void emit_va (iot_logger_t * l, iot_loglevel_t lv, const char * fmt, ...) { va_list a; va_start (a, fmt); iot_log__va_log (l, lv, fmt, a); va_end (a); }
// Returns the expected text
static std::string do_log (Rng & r, iot_logger_t * l, int lv, bool enabled)
{
  std::string t = gtext (r, true);
  switch (r.below (6))
  {
    case 0: emit (l, lv, t.c_str ()); return t;
    case 1: { iot_log_log (l, (iot_loglevel_t) lv, "%s", t.c_str ()); return t; }
    case 2: if (enabled) { emit_va (l, (iot_loglevel_t) lv, "%s", t.c_str ()); return t; } emit (l, lv, t.c_str ()); return t;
    case 3: if (enabled) { iot_log__log (l, (iot_loglevel_t) lv, "%s", t.c_str ()); return t; } emit (l, lv, t.c_str ()); return t;
    case 4: { char b[400]; snprintf (b, sizeof b, "%d|%5.2f|%-8s|%" PRIu64 "|%c%%", -7, 3.14159, "ab", UINT64_MAX, 'x'); iot_log_log (l, (iot_loglevel_t) lv, "%d|%5.2f|%-8s|%" PRIu64 "|%c%%", -7, 3.14159, "ab", UINT64_MAX, 'x'); return b; }
    default: { iot_log_log (l, (iot_loglevel_t) lv, "plain"); return "plain"; }
  }
}
static void m_chain (Rng & r, uint64_t idx)
{
  g_dir = arg ("dir", "."); g_l.clear (); memset (g_freed, 0, sizeof g_freed); g_ev.clear ();
  unsigned nmax = 2 + r.below (5); uint64_t h = 1;
  char tn[16]; snprintf (tn, sizeof tn, "t%u%s", (unsigned) r.below (1000), r.chance (1, 3) ? "][:%s" : ""); prctl (PR_SET_NAME, tn);
  g_l.reserve (64);
  for (int step = 0; step < 40; step++)
  {
    std::vector<int> live; for (size_t k = 0; k < g_l.size (); k++) if (g_l[k].refs > 0) live.push_back ((int) k);
    unsigned op = r.below (12);
    if (live.empty () || (op == 0 && live.size () < nmax && g_l.size () < 60))
    {
      L x; int k = (int) g_l.size (); x.name = gname (r); x.save = (int) r.below (6); x.file = r.chance (1, 3); bool start = r.chance (2, 3);
      x.next = live.empty () || r.chance (1, 3) ? -1 : r.pick (live);
      iot_logger_t * nx = x.next >= 0 ? g_l[x.next].l : NULL;
      if (x.file) { x.path = g_dir + "/l" + std::to_string (k) + ".log"; unlink (x.path.c_str ()); if (r.chance (1, 4)) { FILE * f = fopen (x.path.c_str (), "w"); fputs ("old\n", f); fclose (f); x.expect = "old\n"; } x.l = iot_logger_alloc_file (x.name.c_str (), (iot_loglevel_t) x.save, start, nx, x.path.c_str ()); }
      else x.l = iot_logger_alloc_custom (x.name.c_str (), (iot_loglevel_t) x.save, start, nx, sink, (void *) (intptr_t) (k + 1), sfree);
      x.refs = 1; if (x.next >= 0) g_l[x.next].refs++;
      if (start) { x.level = x.save; x.state = 2; }
      log_op ("new %d file=%d level=%d start=%d next=%d", k, x.file, x.save, start, x.next);
      g_l.push_back (x);
    }
    else
    {
      int k = r.pick (live); L & x = g_l[k];
      if (op <= 6)
      {
        int lv = 1 + (int) r.below (5); g_ev.clear (); bool en = x.level >= lv;
        uint64_t t0 = iot_time_usecs ();
        std::string t = do_log (r, x.l, lv, en);
        uint64_t t1 = iot_time_usecs ();
        log_op ("log %d level=%d len=%zu", k, lv, t.size ());
        std::multiset<int> want; std::vector<int> wf;
        if (en) for (int q = k; q >= 0; q = g_l[q].next) if (g_l[q].level >= lv) { if (g_l[q].file) wf.push_back (q); else want.insert (q); }
        std::multiset<int> got; uint64_t ts = 0;
        for (auto & e : g_ev)
        {
          got.insert (e.id); VH_CHECK (e.level == lv, "log-level", "delivered at level %d instead of %d", e.level, lv);
          VH_CHECK (e.text == t.substr (0, 1023), "log-text", "delivered %s for %s", quote (e.text).c_str (), quote (t).c_str ());
          VH_CHECK (!ts || ts == e.ts, "log-time", "two timestamps for one message"); ts = e.ts;
          VH_CHECK (t1 < t0 || (ts >= t0 && ts <= t1), "log-time", "timestamp %" PRIu64 " outside the call", ts);
        }
        for (size_t q = 0; q < g_l.size (); q++) VH_CHECK (got.count ((int) q) == want.count ((int) q), got.count ((int) q) < want.count ((int) q) ? "log-lost" : "log-extra", "message at level %s to logger %d: logger %zu (level %d, state %d) received it %zu times, expected %zu", LV[lv], k, q, g_l[q].level, g_l[q].state, got.count ((int) q), want.count ((int) q));
        // file lines: timestamp read back from the file
        for (int q : wf)
        {
          // the file is read by the test when the logger is freed; here flush all streams and parse the line's time
          fflush (NULL);
          std::string f = slurp (g_l[q].path); std::string head = "[" + tname () + ":";
          VH_CHECK (f.size () > g_l[q].expect.size () && f.compare (0, g_l[q].expect.size (), g_l[q].expect) == 0, "log-file-lost", "logger %d: message at level %s did not reach the file (%zu bytes, had %zu)", q, LV[lv], f.size (), g_l[q].expect.size ());
          std::string line = f.substr (g_l[q].expect.size ());
          VH_CHECK (line.compare (0, head.size (), head) == 0, "log-file-line", "line %s does not start with %s", quote (line).c_str (), quote (head).c_str ());
          uint64_t lts = strtoull (line.c_str () + head.size (), NULL, 10);
          VH_CHECK (t1 < t0 || (lts >= t0 && lts <= t1), "log-time", "timestamp %" PRIu64 " outside the call", lts);
          std::string w = ref_line (tname (), lts, g_l[q].name, lv, t);
          VH_CHECK (line == w, "log-file-line", "line %s, expected %s", quote (line.substr (0, 250)).c_str (), quote (w.substr (0, 250)).c_str ());
          g_l[q].expect = f; count ("lines_checked");
        }
        count ("messages"); count (en ? "messages_enabled" : "messages_suppressed"); evaluation ();
      }
      else if (op == 7) { int lv = (int) r.below (6); iot_logger_set_level (x.l, (iot_loglevel_t) lv); x.save = lv; if (x.state != 1) x.level = lv; log_op ("level %d %d", k, lv); }
      else if (op == 8) { iot_logger_stop (x.l); x.state = 1; x.level = 0; log_op ("stop %d", k); }
      else if (op == 9) { iot_logger_start (x.l); x.state = 2; x.level = x.save; log_op ("start %d", k); }
      else if (op == 10)
      {
        int n = r.chance (1, 4) ? -1 : r.pick (live);
        if (n >= 0 && reaches (n, k)) continue;
        log_op ("next %d %d", k, n);
        iot_logger_set_next (x.l, n >= 0 ? g_l[n].l : NULL); if (n >= 0) g_l[n].refs++; int old = x.next; x.next = n; unref (old);
      }
      else
      {
        if (r.chance (1, 3)) { iot_logger_add_ref (x.l); x.refs++; log_op ("ref %d", k); }
        else
        { // only a reference the test holds
          int chained = 0; for (auto & y : g_l) if (y.refs > 0 && y.next == k) chained++;
          if (x.refs > chained) { log_op ("free %d", k); iot_logger_t * l = x.l; unref (k); iot_logger_free (l); }
        }
      }
    }
    check_freed (false);
    h = h * 1099511628211ull ^ op; for (auto & x : g_l) h = h * 31 + (uint64_t) (x.level * 7 + x.state + x.next * 13 + x.refs);
    distinct (h);
  }
  for (bool again = true; again; )
  {
    again = false;
    for (size_t k = 0; k < g_l.size (); k++)
    {
      int chained = 0; for (auto & y : g_l) if (y.refs > 0 && y.next == (int) k) chained++;
      if (g_l[k].refs > chained) { iot_logger_t * l = g_l[k].l; unref ((int) k); iot_logger_free (l); again = true; }
    }
  }
  check_freed (true);
  if (want_sample ()) show ("%zu loggers, last ops in ring", g_l.size ());
  g_l.clear (); g_l.shrink_to_fit (); g_ev.clear (); g_ev.shrink_to_fit (); g_dir = std::string (); 
  (void) idx;
}
// ---- concurrent writers: chain of a recording logger and file loggers; offline check of the files
struct TArg { int id; unsigned n; iot_logger_t * head; pthread_barrier_t * bar; uint64_t seed; int phases; };
static std::vector<std::string> g_texts[8][4];       // [thread][phase] texts sent, in order
static std::vector<int> g_levels[8][4];
static struct { std::atomic<uint64_t> n[8]; } g_seen;
static pthread_mutex_t g_evmx = PTHREAD_MUTEX_INITIALIZER;
static std::vector<std::string> g_mt[8];
static void mtsink (iot_logger_t *, iot_loglevel_t lv, uint64_t, const char * m, const void * ctx)
{
  pthread_mutex_lock (&g_evmx); g_mt[(intptr_t) ctx].push_back (std::string (LV[lv]) + "|" + m); pthread_mutex_unlock (&g_evmx);
}
static void * writer (void * a)
{
  TArg * t = (TArg *) a; char nm[16]; snprintf (nm, sizeof nm, "wr%d", t->id); prctl (PR_SET_NAME, nm);
  Rng r (t->seed);
  for (int p = 0; p < t->phases; p++)
  {
    pthread_barrier_wait (t->bar);
    for (unsigned k = 0; k < t->n; k++)
    {
      int lv = 1 + (int) r.below (5);
      std::string s = "m" + std::to_string (t->id) + "." + std::to_string (p) + "." + std::to_string (k) + " " + std::string (r.chance (1, 10) ? r.range (900, 1100) : r.below (80), (char) ('a' + t->id));
      g_texts[t->id][p].push_back (s); g_levels[t->id][p].push_back (lv);
      emit (t->head, lv, s.c_str ());
      if (r.chance (1, 16)) sched_yield ();
    }
    pthread_barrier_wait (t->bar);
    pthread_barrier_wait (t->bar);   // main changes levels between
  }
  return NULL;
}
static void m_threads (Rng & r, uint64_t idx)
{
  std::string dir = arg ("dir", "."); unsigned nt = 2 + r.below (4); unsigned nl = 1 + r.below (3); int phases = 1 + (int) r.below (3); unsigned n = (unsigned) arg_int ("msgs", 60);
  std::vector<L> ls (nl); iot_logger_t * next = NULL;
  for (auto & v : g_mt) v.clear ();
  for (auto & a : g_texts) for (auto & b : a) b.clear ();
  for (auto & a : g_levels) for (auto & b : a) b.clear ();
  for (int k = (int) nl - 1; k >= 0; k--)
  {
    L & x = ls[k]; x.file = r.chance (2, 3); x.name = r.chance (1, 5) ? gname (r) : "L" + std::to_string (k); x.level = x.save = k == 0 ? 5 : (int) r.below (6);
    if (x.name.find ('\x01') != std::string::npos) x.name = "L";
    if (x.file) { x.path = dir + "/mt" + std::to_string (k) + ".log"; unlink (x.path.c_str ()); x.l = iot_logger_alloc_file (x.name.c_str (), (iot_loglevel_t) x.level, true, next, x.path.c_str ()); }
    else x.l = iot_logger_alloc_custom (x.name.c_str (), (iot_loglevel_t) x.level, true, next, mtsink, (void *) (intptr_t) k, NULL);
    if (next) iot_logger_free (next);
    next = x.l;
  }
  std::vector<std::vector<int>> lvl (nl);   // [logger][phase]
  pthread_barrier_t bar; pthread_barrier_init (&bar, NULL, nt + 1);
  std::vector<TArg> ta (nt); std::vector<pthread_t> th (nt);
  for (unsigned k = 0; k < nt; k++) { ta[k] = TArg { (int) k, n, ls[0].l, &bar, r.next (), phases }; pthread_create (&th[k], NULL, writer, &ta[k]); }
  for (int p = 0; p < phases; p++)
  {
    for (unsigned k = 0; k < nl; k++) lvl[k].push_back (ls[k].level);
    pthread_barrier_wait (&bar); pthread_barrier_wait (&bar); progress ();
    for (unsigned k = 0; k < nl; k++) if (r.chance (1, 2))
    {
      if (r.chance (1, 4)) { iot_logger_stop (ls[k].l); ls[k].level = 0; ls[k].state = 1; }
      else { if (ls[k].state == 1) { iot_logger_start (ls[k].l); ls[k].state = 0; } ls[k].level = (int) r.below (6); iot_logger_set_level (ls[k].l, (iot_loglevel_t) ls[k].level); }
    }
    pthread_barrier_wait (&bar);
  }
  for (auto & t : th) pthread_join (t, NULL);
  iot_logger_free (ls[0].l);
  pthread_barrier_destroy (&bar);
  for (unsigned k = 0; k < nl; k++)
  {
    // expected sequence per thread
    std::vector<std::vector<std::pair<int, std::string>>> want (nt); size_t total = 0;
    for (unsigned t = 0; t < nt; t++) for (int p = 0; p < phases; p++) for (size_t q = 0; q < g_texts[t][p].size (); q++) { int lv = g_levels[t][p][q]; if (lvl[0][p] >= lv && lvl[k][p] >= lv) { want[t].push_back ({ lv, g_texts[t][p][q] }); total++; } }
    std::vector<size_t> at (nt); size_t got = 0; uint64_t inter = 1469598103934665603ull;
    if (ls[k].file)
    {
      std::string f = slurp (ls[k].path); unlink (ls[k].path.c_str ());
      VH_CHECK (f.empty () || f.back () == '\n', "log-file-tail", "file does not end with a line end");
      for (size_t pos = 0; pos < f.size (); )
      {
        size_t e = f.find ('\n', pos); std::string line = f.substr (pos, e - pos + 1); pos = e + 1; got++;
        int t = -1; char c = 0; uint64_t ts = 0;
        VH_CHECK (sscanf (line.c_str (), "[wr%d:%" SCNu64 "%c", &t, &ts, &c) == 3 && c == ':' && t >= 0 && t < (int) nt, "log-file-mixed", "logger %u: malformed line %s", k, quote (line).c_str ());
        VH_CHECK (at[t] < want[t].size (), "log-extra", "logger %u: unexpected line %s", k, quote (line).c_str ());
        auto & w = want[t][at[t]++];
        std::string wl = ref_line ("wr" + std::to_string (t), ts, ls[k].name, w.first, w.second);
        VH_CHECK (line == wl, "log-file-order", "logger %u thread %d: line %s, expected %s", k, t, quote (line.substr (0, 200)).c_str (), quote (wl.substr (0, 200)).c_str ());
        inter = hash_bytes (&t, sizeof t, inter);
      }
    }
    else for (auto & m : g_mt[k])
    {
      size_t b = m.find ('|'); int t = -1; got++;
      VH_CHECK (sscanf (m.c_str () + b + 1, "m%d.", &t) == 1 && t >= 0 && t < (int) nt && at[t] < want[t].size (), "log-extra", "unexpected message %s", quote (m).c_str ());
      auto & w = want[t][at[t]++]; VH_CHECK (m == std::string (LV[w.first]) + "|" + w.second.substr (0, 1023), "log-order", "thread %d: %s, expected %s", t, quote (m).c_str (), quote (w.second).c_str ());
      inter = hash_bytes (&t, sizeof t, inter);
    }
    VH_CHECK (got == total, "log-lost", "logger %u received %zu of %zu messages", k, got, total);
    evaluation (total + 1); count ("concurrent_messages", total); if (total) distinct (inter);
  }
  if (want_sample ()) show ("%u threads, %u loggers, %d phases", nt, nl, phases);
  for (auto & v : g_mt) { v.clear (); v.shrink_to_fit (); }
  for (auto & a : g_texts) for (auto & b : a) { b.clear (); b.shrink_to_fit (); }
  for (auto & a : g_levels) for (auto & b : a) { b.clear (); b.shrink_to_fit (); }
  (void) idx;
}
// ---- UDP: each message is one datagram holding exactly its line
static void m_udp (Rng & r, uint64_t)
{
  int s = socket (AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a; memset (&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
  if (bind (s, (struct sockaddr *) &a, sizeof a) != 0) { close (s); count ("udp_unavailable"); return; }
  socklen_t al = sizeof a; getsockname (s, (struct sockaddr *) &a, &al);
  struct timeval tv = { 5, 0 }; setsockopt (s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  std::string name = gname (r); int level = 1 + (int) r.below (5); prctl (PR_SET_NAME, "udp");
  iot_logger_t * l;
  if (r.chance (1, 2)) l = iot_logger_alloc_udp (name.c_str (), (iot_loglevel_t) level, true, NULL, "127.0.0.1", ntohs (a.sin_port));
  else
  { // as configured in a container
    iot_container_t * c = iot_container_alloc ("c"); iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
    iot_data_string_map_add (m, "Name", iot_data_alloc_string (name.c_str (), IOT_DATA_COPY));
    iot_data_string_map_add (m, "Level", iot_data_alloc_string (LV[level], IOT_DATA_COPY));
    std::string to = "udp:127.0.0.1:" + std::to_string (ntohs (a.sin_port)); iot_data_string_map_add (m, "To", iot_data_alloc_string (to.c_str (), IOT_DATA_COPY));
    l = (iot_logger_t *) iot_logger_factory ()->config_fn (c, m); iot_data_free (m); iot_container_free (c);
  }
  static char buf[4096];
  for (int k = 0; k < 12; k++)
  {
    int lv = 1 + (int) r.below (5); std::string t = gtext (r, true); bool en = level >= lv;
    emit (l, lv, t.c_str ());
    if (en)
    {
      ssize_t n = recv (s, buf, sizeof buf, 0);
      VH_CHECK (n > 0, "log-udp-lost", "no datagram for an enabled message");
      std::string d (buf, (size_t) n); uint64_t ts = strtoull (d.c_str () + 5, NULL, 10);
      std::string w = ref_line ("udp", ts, name, lv, t);
      VH_CHECK (d == w, "log-udp-line", "datagram %s, expected %s", quote (d.substr (0, 300)).c_str (), quote (w.substr (0, 300)).c_str ());
      count ("datagrams");
    }
    else { ssize_t n = recv (s, buf, sizeof buf, MSG_DONTWAIT); VH_CHECK (n < 0, "log-extra", "a datagram for a suppressed message"); }
    evaluation (); distinct (hash_bytes (t.data (), t.size ()));
  }
  iot_logger_free (l); close (s);
}
// ---- level names and the console
static void m_names (Rng & r, uint64_t)
{
  for (int lv = 1; lv <= 5; lv++)
  {
    std::string s = LV[lv]; 
    VH_CHECK (!strcmp (iot_logger_level_to_string ((iot_loglevel_t) lv), LV[lv]), "level-name", "level %d is called %s", lv, iot_logger_level_to_string ((iot_loglevel_t) lv));
    for (auto & c : s) if (r.chance (1, 2)) c = (char) (r.chance (1, 2) ? toupper (c) : tolower (c));
    VH_CHECK (iot_logger_level_from_string (s.c_str ()) == (iot_loglevel_t) lv, "level-name", "%s is level %d", s.c_str (), iot_logger_level_from_string (s.c_str ()));
    evaluation (2);
  }
  std::string s; for (size_t n = 1 + r.below (6); n-- > 0; ) s += (char) r.range (1, 255);
  if (!strchr ("eEwWiIdDtT", s[0])) VH_CHECK (iot_logger_level_from_string (s.c_str ()) == IOT_LOGLEVEL_DEFAULT, "level-name", "unknown level %s is %d", quote (s).c_str (), iot_logger_level_from_string (s.c_str ()));
  VH_CHECK (iot_logger_level_from_string (iot_logger_level_to_string (IOT_LOG_NONE)) == IOT_LOG_NONE, "level-name", "the name of no level is level %d", iot_logger_level_from_string (iot_logger_level_to_string (IOT_LOG_NONE)));
  VH_CHECK (iot_logger_level_from_string (NULL) == IOT_LOGLEVEL_DEFAULT, "level-name", "NULL level");
  // the console in a child whose output goes to files
  std::string d = arg ("dir", "."); std::string fo = d + "/out", fe = d + "/err"; std::string name = gname (r), text = gtext (r, true); int level = (int) r.below (6);
  fflush (NULL);
  pid_t p = fork ();
  if (p == 0)
  {
    int a = open (fo.c_str (), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), b = open (fe.c_str (), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2 (a, 1); dup2 (b, 2); prctl (PR_SET_NAME, "con");
    iot_logger_t * l = iot_logger_alloc (name.c_str (), (iot_loglevel_t) level, true);
    for (int lv = 1; lv <= 5; lv++) emit (l, lv, text.c_str ());
    iot_logger_free (l); fflush (NULL); _exit (0);
  }
  int st = 0; waitpid (p, &st, 0); VH_CHECK (st == 0, "console-crash", "console logging ended with status %x: %s", st, quote (slurp (fe)).c_str ());
  std::string o = slurp (fo), e = slurp (fe); unlink (fo.c_str ()); unlink (fe.c_str ());
  size_t lines = 0;
  for (int which = 0; which < 2; which++)
  {
    const std::string & f = which ? o : e; size_t pos = 0;
    for (int lv = which ? 3 : 1; lv <= (which ? 5 : 2) && lv <= level; lv++)
    {
      size_t en = f.find ('\n', pos); VH_CHECK (en != std::string::npos, "console-lost", "message at %s missing from the console", LV[lv]);
      std::string line = f.substr (pos, en + 1 - pos); pos = en + 1; uint64_t ts = line.size () > 5 ? strtoull (line.c_str () + 5, NULL, 10) : 0;
      VH_CHECK (line == ref_line ("con", ts, name, lv, text), "console-line", "console line %s", quote (line).c_str ()); lines++;
    }
    VH_CHECK (pos == f.size (), "log-extra", "extra console output %s", quote (f.substr (pos)).c_str ());
  }
  VH_CHECK (lines == (size_t) level, "console-lost", "%zu lines", lines); count ("console_lines", lines); evaluation (lines); distinct (hash_bytes (text.data (), text.size ()) + level);
}
// ---- first use of the default logger from many threads
static std::atomic<int> g_go;
static void * first (void * o) { while (!g_go.load ()) sched_yield (); iot_logger_t * l = iot_logger_default (); iot_log_info (l, "not shown at the default level"); *(iot_logger_t **) o = l->level == IOT_LOGLEVEL_DEFAULT ? l : NULL; return NULL; }
static void m_default (Rng &, uint64_t)
{
  pthread_t t[8]; iot_logger_t * o[8]; g_go = 0;
  for (int k = 0; k < 8; k++) pthread_create (&t[k], NULL, first, &o[k]);
  g_go = 1;
  for (int k = 0; k < 8; k++) pthread_join (t[k], NULL);
  for (int k = 0; k < 8; k++) VH_CHECK (o[k] && o[k] == o[0], "default-logger", "a thread saw the default logger uninitialised");
  evaluation (8); distinct (1);
}
// ---- levels changed, loggers started and stopped while other threads log: every message's fate must agree with one order of the calls
struct LS { int state = IOT_COMPONENT_RUNNING, save = 0, level = 0; uint64_t hash () const { return (uint64_t) (state * 64 + save * 8 + level); } };
enum { S_SET, S_START, S_STOP, S_LOG };
static bool ls_apply (LS & s, const lin::Op & o)
{
  switch (o.kind)
  {
    case S_SET: s.save = (int) o.arg; if (s.state != IOT_COMPONENT_STOPPED) s.level = s.save; return true;
    case S_START: s.state = IOT_COMPONENT_RUNNING; s.level = s.save; return true;
    case S_STOP: s.state = IOT_COMPONENT_STOPPED; s.level = 0; return true;
    default: return (o.ret != 0) == (s.level >= o.arg);
  }
}
static thread_local int g_hits; static std::atomic<uint64_t> g_tick;
static void hit_sink (iot_logger_t *, iot_loglevel_t, uint64_t, const char *, const void *) { g_hits++; }
struct ST { iot_logger_t * l; int id; std::vector<lin::Op> ops; pthread_barrier_t * bar; uint64_t seed; unsigned delay; };
static void one_call (iot_logger_t * l, lin::Op & o)
{
  o.inv = g_tick.fetch_add (1);
  switch (o.kind) { case S_SET: iot_logger_set_level (l, (iot_loglevel_t) o.arg); break; case S_START: iot_logger_start (l); break; case S_STOP: iot_logger_stop (l); break; default: g_hits = 0; iot_log_log (l, (iot_loglevel_t) o.arg, "message at %d", (int) o.arg); o.ret = g_hits; VH_CHECK (g_hits <= 1, "log-extra", "one message reached the logger %d times", g_hits); }
  o.res = g_tick.fetch_add (1);
}
static void * switcher (void * p)
{
  ST * t = (ST *) p; Rng r (t->seed); pthread_barrier_wait (t->bar);
  for (auto & o : t->ops) { if (t->delay) { for (volatile unsigned k = (unsigned) r.below (t->delay); k; k--) {} } else if (r.chance (1, 4)) sched_yield (); one_call (t->l, o); }
  return NULL;
}
static void m_switch (Rng & r, uint64_t)
{
  for (int round = 0; round < 8; round++)
  {
    LS s0; s0.save = s0.level = (int) r.below (6); iot_logger_t * l = iot_logger_alloc_custom ("switched", (iot_loglevel_t) s0.save, true, NULL, hit_sink, NULL, NULL);
    if (r.chance (1, 3)) { iot_logger_stop (l); s0.state = IOT_COMPONENT_STOPPED; s0.level = 0; }
    unsigned n = 2 + (unsigned) r.below (4), delay = r.chance (1, 2) ? 0 : (unsigned) r.range (20, 2000); pthread_barrier_t bar; pthread_barrier_init (&bar, NULL, n); std::vector<ST> t (n); std::vector<pthread_t> th (n); g_tick = 1; unsigned style = (unsigned) r.below (3);
    for (unsigned k = 0; k < n; k++)
    {
      t[k] = ST { l, (int) k, {}, &bar, r.next (), delay };
      for (unsigned q = 2 + (unsigned) r.below (4); q--;) { lin::Op o; o.thread = (int) k; unsigned c = (unsigned) r.below (10); o.kind = style == 1 && k == 0 ? S_LOG : style == 2 ? (c < 5 ? S_SET : S_START) : c < 3 ? S_SET : c < 5 ? S_START : c < 7 ? S_STOP : S_LOG; o.arg = o.kind == S_SET ? (int) r.below (6) : o.kind == S_LOG ? 1 + (int) r.below (5) : 0; t[k].ops.push_back (o); }
    }
    for (unsigned k = 0; k < n; k++) if (pthread_create (&th[k], NULL, switcher, &t[k])) { perror ("harness: thread"); exit (2); }
    for (unsigned k = 0; k < n; k++) pthread_join (th[k], NULL);
    std::vector<lin::Op> h; for (auto & x : t) h.insert (h.end (), x.ops.begin (), x.ops.end ());
    auto look = [&] { for (int lv = 1; lv <= 5; lv++) { lin::Op o; o.thread = 99; o.kind = S_LOG; o.arg = lv; one_call (l, o); h.push_back (o); } };   // the level and, after a restart, the saved level
    look (); lin::Op st; st.thread = 99; st.kind = S_START; one_call (l, st); h.push_back (st); look ();
    lin::Checker<LS> ck (h, ls_apply);
    if (!ck.check (s0)) { std::string d; for (auto & o : h) d += " [" + std::to_string (o.inv) + "-" + std::to_string (o.res) + " t" + std::to_string (o.thread) + " " + (o.kind == S_SET ? "set " : o.kind == S_START ? "start" : o.kind == S_STOP ? "stop" : "log ") + (o.kind == S_SET || o.kind == S_LOG ? std::to_string (o.arg) : "") + (o.kind == S_LOG ? o.ret ? " delivered" : " not delivered" : "") + "]"; fail ("log-level-order", "logger %s, level %d: no order of the calls explains which messages were delivered:%s", s0.state == IOT_COMPONENT_STOPPED ? "stopped" : "running", s0.save, d.c_str ()); }
    evaluation (h.size ()); count ("level_changes_during_logging", h.size ()); std::vector<std::pair<uint64_t, uint64_t>> ev; for (auto & o : h) { ev.push_back ({ o.inv, (uint64_t) (o.thread * 16 + o.kind) }); ev.push_back ({ o.res, (uint64_t) (5000 + o.thread) }); } std::sort (ev.begin (), ev.end ()); uint64_t f = 11; for (auto & e : ev) f = (f ^ e.second) * 1099511628211ull; distinct (f);
    pthread_barrier_destroy (&bar); iot_logger_free (l); progress ();
  }
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "chain", m_chain, true }, { "threads", m_threads, false }, { "udp", m_udp, true }, { "names", m_names, false }, { "default", m_default, false }, { "switch", m_switch, true } };
  return run (argc, argv, modes, 6);
}
