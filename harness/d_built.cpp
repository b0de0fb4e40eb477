// C30: the library's own component types (logger, thread pool, scheduler), made by a container from configuration text. Oracle: what each setting,
// or its default when left out, asks for, judged by what the components then do: where and at which levels messages arrive, how many jobs a pool
// queues and runs at once, and at which priority and on which processor threads run.
// LINK: -Wl,--wrap=iot_wait_msecs,--wrap=pthread_setschedparam,--wrap=pthread_setschedprio,--wrap=pthread_getschedparam,--wrap=geteuid
#include "vh.hpp"
#include "prio.hpp"
#include "iot/container.h"
#include "iot/config.h"
#include "iot/logger.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"
#include "iot/thread.h"
#include "iot/time.h"
#include <map>
#include <algorithm>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <fcntl.h>
using namespace vh;
extern "C" void __wrap_iot_wait_msecs (uint64_t) { usleep (50); }
template<class T> static void shuffle (Rng & r, std::vector<T> & v) { for (size_t k = v.size (); k > 1; k--) std::swap (v[k - 1], v[r.below (k)]); }
static const char * LV[] = { "", "ERROR", "WARN", "Info", "Debug", "Trace" };
static std::map<std::string, std::string> g_doc; static std::map<std::string, std::string> g_saved;
static char * load (const char * name, const char *) { auto it = g_doc.find (name); return it == g_doc.end () ? NULL : strdup (it->second.c_str ()); }
static bool save (const char * name, const char *, const char * config) { g_saved[name] = config; return true; }
static const iot_container_config_t g_conf = { load, "u", save };
static std::string slurp (const std::string & p) { std::string s; FILE * f = fopen (p.c_str (), "rb"); if (f) { char b[65536]; size_t n; while ((n = fread (b, 1, sizeof b, f)) > 0) s.append (b, n); fclose (f); } return s; }
enum Dest { CONSOLE, FILE_, UDP, NOWHERE };
struct L { std::string cname, name, path, before; int level = 2; bool started = true; Dest dest = CONSOLE; int next = -1, sock = -1, port = 0; iot_logger_t * l = nullptr; std::vector<std::string> want, got; size_t others = 0, others_want = 0; bool extra = false; bool used = false; };
struct P { std::string cname; unsigned threads = 2; unsigned jobs = 0; int prio = -1, aff = -1, logger = -1; iot_threadpool_t * p = nullptr; unsigned queued = 0; };
struct S { std::string cname; int prio = -1, aff = -1, logger = -1; iot_scheduler_t * s = nullptr; };
static std::vector<L> g_l; static std::vector<P> g_p; static std::vector<S> g_s; static std::vector<std::string> g_con[2]; static unsigned g_msg;
static const long NPROC = sysconf (_SC_NPROCESSORS_ONLN);
static void placed (const char * key, int prio, int aff, const char * who)
{
  int p = prio < 1 ? 0 : prio; long cpu = aff < 0 || aff >= NPROC ? -1 : aff;
  VH_CHECK (vh::sched.prio == p, key, "%s configured for priority %d runs at %d", who, prio, vh::sched.prio);
  VH_CHECK (NPROC == 1 || vh::sched.cpu == cpu, key, "%s configured for processor %d runs on %ld", who, aff, vh::sched.cpu);
}
static std::atomic<int> g_running, g_ran; static std::atomic<bool> g_gate;
static void * job (void * a)
{
  P * p = (P *) a; placed ("built-pool-placed", p->prio, p->aff, "a pool"); g_running++;
  while (!g_gate.load ()) usleep (20);
  g_ran++; return NULL;
}
static void * once (void * a) { S * s = (S *) a; placed ("built-sched-placed", s->prio, s->aff, "a scheduler"); g_ran++; return NULL; }
static void drain (L & l)
{
  static char b[4096]; ssize_t n;
  if (l.sock >= 0) while ((n = recv (l.sock, b, sizeof b, MSG_DONTWAIT)) > 0) l.got.push_back (std::string (b, (size_t) n));
}
static void drain_all () { for (auto & l : g_l) drain (l); }
// A line without its thread and time; those of the library's own threads are told apart by the text
static bool mine (const std::string & line, std::string & out)
{
  size_t m = line.find ("] ~m"); if (m == std::string::npos) return false;
  if (line.compare (0, 7, "[built:")) fail ("built-line", "line %s is not from the thread that logged it", quote (line).c_str ());
  size_t c = line.find (':', 7); VH_CHECK (c != std::string::npos, "built-line", "line %s", quote (line).c_str ());
  out = line.substr (c + 1); return true;
}
static void emit (int k, int lv)
{
  char t[80]; snprintf (t, sizeof t, "~m%u to %d at %d", g_msg++, k, lv); iot_logger_t * l = g_l[k].l;
  switch (lv) { case 1: iot_log_error (l, "%s", t); break; case 2: iot_log_warn (l, "%s", t); break; case 3: iot_log_info (l, "%s", t); break; case 4: iot_log_debug (l, "%s", t); break; default: iot_log_trace (l, "%s", t); break; }
  if (g_l[k].started && g_l[k].level >= lv)
    for (int at = k; at >= 0; at = g_l[at].next)
    {
      L & x = g_l[at]; if (!x.started || x.level < lv) continue;
      std::string w = x.name + ":" + LV[lv] + "] " + t; count ("messages_expected");
      if (x.dest == CONSOLE) g_con[lv <= 2].push_back (w); else if (x.dest != NOWHERE) x.want.push_back (w);
    }
  else count ("messages_suppressed");
}
static void emit_all (Rng & r)
{
  for (size_t k = 0; k < g_l.size (); k++) for (int lv = 1; lv <= 5; lv++) emit ((int) k, lv);
  emit ((int) r.below (g_l.size ()), 1 + (int) r.below (5)); drain_all ();
}
static void judge (const char * what, const std::string & who, const std::vector<std::string> & want, const std::vector<std::string> & lines, size_t * others)
{
  size_t n = 0; std::string m;
  for (auto & line : lines)
  {
    if (!mine (line, m)) { ++*others; continue; }
    VH_CHECK (n < want.size (), "built-log-extra", "%s of %s has %s, nothing more was expected", what, who.c_str (), quote (m).c_str ());
    VH_CHECK (m == want[n], "built-log-line", "%s of %s has %s, expected %s", what, who.c_str (), quote (m).c_str (), quote (want[n]).c_str ()); n++;
  }
  VH_CHECK (n == want.size (), "built-log-lost", "%s of %s ends before %s", what, who.c_str (), quote (want[n]).c_str ());
  evaluation (want.size () + 1);
}
static std::vector<std::string> split (const std::string & s) { std::vector<std::string> v; size_t p = 0, e; while ((e = s.find ('\n', p)) != std::string::npos) { v.push_back (s.substr (p, e - p)); p = e + 1; } if (p < s.size ()) v.push_back (s.substr (p) + "<no line end>"); return v; }
static std::string esc (const std::string & s) { return "\"" + s + "\""; }
static void run_pool (P & p, bool limited)
{
  unsigned expect = std::min (p.threads, p.queued); g_gate = false; uint64_t t0 = now_ns ();
  while ((unsigned) g_running.load () < expect) { if (now_ns () - t0 > 20000000000ull) fail ("built-pool-threads", "a pool configured for %u threads runs %d of %u jobs at once", p.threads, g_running.load (), p.queued); usleep (20); drain_all (); }
  if (p.queued > p.threads) { usleep (300); VH_CHECK ((unsigned) g_running.load () <= p.threads, "built-pool-threads", "a pool configured for %u threads runs %d jobs at once", p.threads, g_running.load ()); count ("thread_numbers_judged"); }
  if (limited && p.jobs && p.queued >= p.threads)
  { // all threads are held: the queue takes up to the limit
    unsigned waiting = p.queued - p.threads; while (iot_threadpool_try_work (p.p, job, &p, IOT_THREAD_NO_PRIORITY)) { p.queued++; waiting++; VH_CHECK (waiting <= p.jobs, "built-pool-limit", "a pool configured for %u jobs queues %u", p.jobs, waiting); }
    VH_CHECK (waiting == p.jobs, "built-pool-limit", "a pool configured for %u jobs refuses after %u", p.jobs, waiting);
  }
  g_gate = true; iot_threadpool_wait (p.p); drain_all ();
  VH_CHECK ((unsigned) g_ran.load () == p.queued, "built-pool-ran", "%d of %u jobs ran", g_ran.load (), p.queued); p.queued = 0; g_running = 0; g_ran = 0; evaluation (2); count ("pools_run");
}
static void m_built (Rng & r, uint64_t)
{
  iot_container_config (&g_conf); g_doc.clear (); g_saved.clear (); g_l.clear (); g_p.clear (); g_s.clear (); g_con[0].clear (); g_con[1].clear (); g_msg = 0; g_running = 0; g_ran = 0; g_gate = true;
  std::string dir = arg ("dir", "."); prctl (PR_SET_NAME, "built"); uint64_t h = 7;
  unsigned nl = 1 + (unsigned) r.below (4), np = (unsigned) r.below (3), ns = (unsigned) r.below (3);
  struct C { std::string cname, type, conf; }; std::vector<C> cs;
  // loggers pass on to later ones in this list, so there is no cycle
  g_l.resize (nl);
  for (unsigned k = 0; k < nl; k++)
  {
    L & l = g_l[k]; l.cname = "c" + std::to_string (r.below (1000)) + "l" + std::to_string (k); l.name = r.chance (1, 2) ? l.cname : "the " + std::to_string (k) + " log"; 
  }
  auto member = [&] (std::string & js, const char * key, const std::string & v) { if (js.size () > 1) js += ","; js += esc (key) + ":" + v; };
  for (unsigned k = 0; k < nl; k++)
  {
    L & l = g_l[k]; std::vector<std::pair<const char *, std::string>> ms; ms.push_back ({ "Name", esc (l.name) });
    if (r.chance (4, 5))
    {
      std::string s; l.level = r.chance (1, 2) ? 5 : 1 + (int) r.below (5);
      if (r.chance (1, 8)) { l.level = r.chance (1, 2) ? 2 : 0; s = l.level ? "quiet" : ""; } else { s = LV[l.level]; for (auto & c : s) if (r.chance (1, 2)) c = (char) (r.chance (1, 2) ? toupper (c) : tolower (c)); }
      ms.push_back ({ "Level", esc (s) });
    }
    switch (r.below (8))
    {
      case 0: break;
      case 1: case 2: case 3: l.dest = FILE_; l.path = dir + "/" + (r.chance (1, 2) ? "a log" : "l") + std::to_string (k); if (r.chance (1, 3)) { l.before = "kept\n"; FILE * f = fopen (l.path.c_str (), "w"); fputs (l.before.c_str (), f); fclose (f); } ms.push_back ({ "To", esc ("file:" + l.path) }); break;
      case 4: case 5:
      {
        int s = socket (AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset (&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl (INADDR_LOOPBACK); socklen_t al = sizeof a; int big = 1 << 22;
        if (s < 0 || bind (s, (struct sockaddr *) &a, sizeof a) != 0) { if (s >= 0) close (s); count ("udp_unavailable"); break; }
        setsockopt (s, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); getsockname (s, (struct sockaddr *) &a, &al); l.sock = s; l.port = ntohs (a.sin_port); l.dest = UDP; ms.push_back ({ "To", esc ("udp:127.0.0.1:" + std::to_string (l.port)) }); break;
      }
      case 6: ms.push_back ({ "To", esc (r.chance (1, 2) ? "console" : r.chance (1, 2) ? "" : "stdout:x") }); break;
      default: l.dest = NOWHERE; ms.push_back ({ "To", esc ("file:" + dir + "/no such directory/log") }); break;
    }
    if (r.chance (1, 2)) { l.started = r.chance (1, 2); ms.push_back ({ "Start", l.started ? "true" : "false" }); }
    if (k + 1 < nl && r.chance (1, 2)) { l.next = (int) r.range (k + 1, nl - 1); ms.push_back ({ "Next", esc (g_l[l.next].cname) }); } else if (r.chance (1, 6)) ms.push_back ({ "Next", esc ("no such component") });
    shuffle (r, ms); std::string js = "{"; for (auto & m : ms) member (js, m.first, m.second); cs.push_back ({ l.cname, "IOT::Logger", js + "}" });
  }
  auto prio = [&] () { return r.chance (1, 4) ? IOT_THREAD_NO_PRIORITY : (int) r.below (100); }; auto aff = [&] () { return r.chance (1, 4) ? -1 : r.chance (1, 6) ? (int) NPROC + (int) r.below (5) : (int) r.below ((uint64_t) NPROC); };
  for (unsigned k = 0; k < np; k++)
  {
    P p; p.cname = "c" + std::to_string (r.below (1000)) + "p" + std::to_string (k); std::vector<std::pair<const char *, std::string>> ms;
    if (r.chance (3, 4)) { p.threads = 1 + (unsigned) r.below (5); ms.push_back ({ "Threads", std::to_string (p.threads) }); }
    if (r.chance (3, 4)) { p.jobs = (unsigned) r.below (12); ms.push_back ({ "MaxJobs", std::to_string (p.jobs) }); }
    if (r.chance (1, 2)) { p.prio = prio (); ms.push_back ({ "Priority", std::to_string (p.prio) }); }
    if (r.chance (1, 2)) { p.aff = aff (); ms.push_back ({ "Affinity", std::to_string (p.aff) }); }
    if (r.chance (1, 3)) ms.push_back ({ "ShutdownDelay", std::to_string (r.below (500)) });
    if (r.chance (2, 3)) { p.logger = (int) r.below (nl); ms.push_back ({ "Logger", esc (g_l[p.logger].cname) }); }
    shuffle (r, ms); std::string js = "{"; for (auto & m : ms) member (js, m.first, m.second); cs.push_back ({ p.cname, "IOT::ThreadPool", js + "}" }); g_p.push_back (p);
  }
  for (unsigned k = 0; k < ns; k++)
  {
    S s; s.cname = "c" + std::to_string (r.below (1000)) + "s" + std::to_string (k); std::vector<std::pair<const char *, std::string>> ms;
    if (r.chance (1, 2)) { s.prio = prio (); ms.push_back ({ "Priority", std::to_string (s.prio) }); }
    if (r.chance (1, 2)) { s.aff = aff (); ms.push_back ({ "Affinity", std::to_string (s.aff) }); }
    if (r.chance (2, 3)) { s.logger = (int) r.below (nl); ms.push_back ({ "Logger", esc (g_l[s.logger].cname) }); }
    shuffle (r, ms); std::string js = "{"; for (auto & m : ms) member (js, m.first, m.second); cs.push_back ({ s.cname, "IOT::Scheduler", js + "}" }); g_s.push_back (s);
  }
  size_t added = 0; std::string doc = "{"; std::vector<C> main; if (r.chance (1, 3) && cs.size () > nl) added = 1 + r.below (cs.size () - nl);   // pools and schedulers added to the container later
  for (size_t k = 0; k < cs.size () - added; k++) main.push_back (cs[k]);
  shuffle (r, main);
  for (auto & c : main) { member (doc, c.cname.c_str (), esc (c.type)); g_doc[c.cname] = c.conf; }
  g_doc["cont"] = doc + "}"; for (auto & c : cs) { h = hash_bytes (c.conf.data (), c.conf.size (), h); log_op ("%s %s %s", c.type.c_str (), c.cname.c_str (), quote (c.conf).c_str ()); }
  console_to ((dir + "/out").c_str (), (dir + "/err").c_str ());
  iot_container_t * c = iot_container_alloc ("cont"); VH_CHECK (iot_container_init (c), "built-init", "the container could not be initialised");
  for (size_t k = cs.size () - added; k < cs.size (); k++) iot_container_add_component (c, cs[k].type.c_str (), cs[k].cname.c_str (), cs[k].conf.c_str ());
  auto find = [&] (const std::string & n) { iot_component_t * f = iot_container_find_component (c, n.c_str ()); VH_CHECK (f != NULL, "built-missing", "no component %s", n.c_str ()); return f; };
  for (auto & l : g_l) l.l = (iot_logger_t *) find (l.cname);
  for (auto & p : g_p) p.p = (iot_threadpool_t *) find (p.cname);
  for (auto & s : g_s) s.s = (iot_scheduler_t *) find (s.cname);
  if (r.chance (2, 3)) emit_all (r);
  for (auto & p : g_p) if (r.chance (2, 3) && &p == &g_p[0])
  { // before it is started, a pool queues as many jobs as its limit
    unsigned lim = p.jobs ? p.jobs : 40; while (p.queued < lim && iot_threadpool_try_work (p.p, job, &p, IOT_THREAD_NO_PRIORITY)) p.queued++;
    VH_CHECK (p.queued == lim, "built-pool-limit", "a pool configured for %u jobs refuses after %u", p.jobs, p.queued);
    VH_CHECK (!p.jobs || !iot_threadpool_try_work (p.p, job, &p, IOT_THREAD_NO_PRIORITY), "built-pool-limit", "a pool configured for %u jobs queues more", p.jobs); count (p.jobs ? "limits_judged" : "unlimited_queues"); evaluation (2); g_gate = false;
  }
  unsigned rounds = 1 + (unsigned) r.below (2);
  for (unsigned round = 0; round < rounds; round++)
  {
    iot_container_start (c); for (auto & l : g_l) l.started = true;
    for (auto & p : g_p) if (p.queued) run_pool (p, true);
    emit_all (r);
    for (auto & p : g_p)
    {
      g_gate = false; unsigned n = p.threads + 1 + (unsigned) r.below (3); for (unsigned k = 0; k < n; k++) if (iot_threadpool_try_work (p.p, job, &p, IOT_THREAD_NO_PRIORITY)) p.queued++; else usleep (100);
      run_pool (p, r.chance (1, 2));
    }
    for (auto & s : g_s)
    {
      iot_schedule_t * sc = iot_schedule_create (s.s, once, NULL, &s, IOT_MS_TO_NS (1), 0, 1, NULL, IOT_THREAD_NO_PRIORITY); iot_schedule_set_sync (sc, true); iot_schedule_add (s.s, sc); uint64_t t0 = now_ns ();
      while (!g_ran.load ()) { if (now_ns () - t0 > 20000000000ull) fail ("built-sched-ran", "a configured scheduler runs nothing"); usleep (20); drain_all (); }
      g_ran = 0; evaluation (); count ("schedulers_run"); iot_schedule_delete (s.s, sc);
    }
    if (r.chance (2, 3))
    { // a new level for a logger, by its configuration
      L & l = g_l[r.below (nl)]; iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); int lv = (int) r.below (6); iot_data_string_map_add (m, "Level", iot_data_alloc_string (LV[lv], IOT_DATA_COPY));
      bool ok = iot_component_reconfig ((iot_component_t *) l.l, c, m); iot_data_free (m); VH_CHECK (ok, "built-reconfig", "a logger refused its new level"); l.level = lv; count ("levels_reconfigured"); emit_all (r);
      VH_CHECK (g_saved.count (l.cname), "built-reconfig", "the new configuration of %s was not saved", l.cname.c_str ()); VH_CHECK (g_saved[l.cname].find (std::string ("\"Level\":\"") + LV[lv] + "\"") != std::string::npos, "built-reconfig", "%s saved as %s", l.cname.c_str (), quote (g_saved[l.cname]).c_str ());
    }
    for (auto & p : g_p) if (p.logger >= 0) g_l[p.logger].used = true;
    for (auto & s : g_s) if (s.logger >= 0) g_l[s.logger].used = true;
    if (r.chance (1, 2) || round + 1 < rounds) { iot_container_stop (c); for (auto & l : g_l) l.started = false; emit_all (r); }
  }
  iot_container_free (c); drain_all (); wait_threads ("built-threads", 0); drain_all (); console_back ();
  for (auto & l : g_l)
  {
    if (l.dest == FILE_) { std::string s = slurp (l.path); VH_CHECK (s.compare (0, l.before.size (), l.before) == 0, "built-log-kept", "what the file held is gone: %s", quote (s.substr (0, 200)).c_str ()); judge ("the file", l.cname, l.want, split (s.substr (l.before.size ())), &l.others); unlink (l.path.c_str ()); }
    else if (l.dest == UDP) { for (auto & g : l.got) { VH_CHECK (!g.empty () && g.back () == '\n', "built-line", "datagram %s", quote (g).c_str ()); g.pop_back (); } judge ("the receiver", l.cname, l.want, l.got, &l.others); close (l.sock); l.sock = -1; }
    count (l.dest == FILE_ ? "file_loggers" : l.dest == UDP ? "udp_loggers" : l.dest == CONSOLE ? "console_loggers" : "unwritable_loggers");
  }
  // what pools and schedulers log goes to the logger they name and on from there, and to no other
  std::vector<bool> reach (nl, false); for (unsigned k = 0; k < nl; k++) if (g_l[k].used) for (int at = (int) k; at >= 0; at = g_l[at].next) reach[at] = true;
  for (unsigned k = 0; k < nl; k++) if (!reach[k]) VH_CHECK (g_l[k].others == 0, "built-logger", "%s holds %zu lines of components that do not name it", g_l[k].cname.c_str (), g_l[k].others);
  for (auto & cf : cs) for (unsigned k = 0; k < nl; k++) if (g_l[k].used && (g_l[k].dest == FILE_ || g_l[k].dest == UDP) && cf.cname == g_l[k].cname)
  {
    iot_data_t * m = iot_data_from_json (cf.conf.c_str ()); const char * lv = iot_data_string_map_get_string (m, "Level"); bool all = lv && toupper (*lv) == 'T'; iot_data_free (m);
    if (all) { VH_CHECK (g_l[k].others > 0, "built-logger", "nothing of the components that name %s was logged there", g_l[k].cname.c_str ()); count ("component_loggers_judged"); evaluation (); }
  }
  size_t other = 0; for (int e = 0; e < 2; e++) { std::string f = dir + (e ? "/err" : "/out"); judge (e ? "the error output" : "the output", "the console", g_con[e], split (slurp (f)), &other); unlink (f.c_str ()); }
  distinct (h); evaluation (); if (want_sample ()) show ("%s", quote (cs[r.below (cs.size ())].conf).c_str ());
  g_l.clear (); g_l.shrink_to_fit (); g_p.clear (); g_p.shrink_to_fit (); g_s.clear (); g_s.shrink_to_fit (); for (auto & v : g_con) { v.clear (); v.shrink_to_fit (); } g_doc.clear (); g_saved.clear ();
}
int main (int argc, char ** argv)
{
  iot_component_factory_add (iot_logger_factory ()); iot_component_factory_add (iot_threadpool_factory ()); iot_component_factory_add (iot_scheduler_factory ());
  static const Mode modes[] = { { "built", m_built, true } };
  return run (argc, argv, modes, sizeof modes / sizeof modes[0]);
}
