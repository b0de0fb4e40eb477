// C17, C18: scheduler. Virtual-time mode: the library reads a clock the controller advances (clock_gettime and the timed condition wait are wrapped),
// so every due time is exact and each dispatch, callback, refusal, skip, release and call result is compared with a model. Real-time modes: stress
// from many threads with monitors in the callbacks, and never-early checks against the real clock.
// LINK: -Wl,--wrap=clock_gettime -Wl,--wrap=pthread_cond_timedwait -Wl,--wrap=pthread_cond_wait -Wl,--wrap=iot_wait_msecs,--wrap=pthread_setschedparam,--wrap=pthread_setschedprio,--wrap=pthread_getschedparam,--wrap=geteuid
#include "vh.hpp"
#include "prio.hpp"
#include "iot/logger.h"
#include "iot/scheduler.h"
#include "iot/thread.h"
#include "iot/time.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <algorithm>
#include <mutex>
using namespace vh;
static uint64_t LIMIT = 20000000000ull; static const uint64_t MS = 1000000, HALF = 500000;
// ---- virtual clock
static std::atomic<bool> g_virtual { false }; static std::atomic<uint64_t> g_vnow { 2000000000ull * 1000000000ull };
static const uint64_t SLACK = 100000;   // the library's clock runs ahead by the number of times it was read
static pthread_mutex_t g_wmx = PTHREAD_MUTEX_INITIALIZER; static uint64_t g_deadline, g_seen; static std::atomic<uint64_t> g_kick { 0 }, g_waits { 0 }, g_pokes { 0 }, g_ack { 0 }; static std::atomic<bool> g_in { false }; static pthread_cond_t * g_cond; static pthread_mutex_t * g_mutex;
static std::atomic<bool> g_hold { false }; static bool activations_settled ();
extern "C" int __real_clock_gettime (clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime (clockid_t c, struct timespec * ts)
{
  if (!g_virtual || c != CLOCK_REALTIME) return __real_clock_gettime (c, ts);
  uint64_t v = g_vnow; ts->tv_sec = (time_t) (v / 1000000000ull); ts->tv_nsec = (long) (v % 1000000000ull); return 0;
}
static std::atomic<uint64_t> g_tid { 0 }; static std::atomic<bool> g_idle { false };   // the scheduler's thread, and whether it waits untimed
extern "C" int __real_pthread_cond_wait (pthread_cond_t *, pthread_mutex_t *);
extern "C" int __wrap_pthread_cond_wait (pthread_cond_t * c, pthread_mutex_t * m)
{
  bool me = g_virtual && (uint64_t) pthread_self () == g_tid; if (me) g_idle = true;
  int ret = __real_pthread_cond_wait (c, m);
  if (me) g_idle = false;
  return ret;
}
extern "C" int __real_pthread_cond_timedwait (pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
extern "C" int __wrap_pthread_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
  if (!g_virtual) return __real_pthread_cond_timedwait (c, m, ts);
  uint64_t dl = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec;
  VH_CHECK (ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "sched-timespec", "waits until a malformed time %lld.%ld", (long long) ts->tv_sec, ts->tv_nsec);
  pthread_mutex_lock (&g_wmx); uint64_t seen = g_kick; g_deadline = dl; g_seen = seen; g_tid = (uint64_t) pthread_self (); g_cond = c; g_mutex = m; pthread_mutex_unlock (&g_wmx); g_waits++; int ret;
  for (;;)
  {
    if (g_vnow + SLACK >= dl) { struct timespec past = { 1, 0 }; ret = __real_pthread_cond_timedwait (c, m, &past); break; }
    uint64_t pokes = g_pokes; g_in = true; ret = __real_pthread_cond_wait (c, m); g_in = false; g_ack = g_pokes.load ();   // woken by the library, or by the controller: the clock moved, or a wake-up for no reason as POSIX allows
    if (g_kick != seen) { count ("spurious_wakeups"); break; }
    if (g_pokes == pokes) break;
  }
  // activations that end on their own have ended before the next dispatch, so whether one is skipped is determined
  if (g_hold && !activations_settled ()) { pthread_mutex_unlock (m); while (g_hold && !activations_settled ()) usleep (10); pthread_mutex_lock (m); }
  return ret;
}
extern "C" void __wrap_iot_wait_msecs (uint64_t) { usleep (50); }
// loggers nobody else keeps
static void sink (iot_logger_t *, iot_loglevel_t, uint64_t, const char * text, const void *) { VH_CHECK (text, "sched-log", "no message"); count ("messages_logged"); }
static iot_logger_t * own_logger (Rng & r) { return r.chance (1, 2) ? NULL : iot_logger_alloc_custom ("sched", r.chance (1, 2) ? IOT_LOG_TRACE : IOT_LOG_WARN, true, NULL, sink, NULL, NULL); }
static int g_sprio; static int g_saff;   // what the scheduler's thread was asked to be
static iot_scheduler_t * new_scheduler (Rng & r)
{
  g_refuse_prio = r.chance (1, 2) ? 0 : 1 + (unsigned) r.below (4);
  g_sprio = r.chance (1, 2) ? IOT_THREAD_NO_PRIORITY : (int) r.below (100); g_saff = r.chance (1, 2) ? IOT_THREAD_NO_AFFINITY : (int) r.below ((uint64_t) sysconf (_SC_NPROCESSORS_ONLN));
  iot_logger_t * l = own_logger (r); iot_scheduler_t * s = iot_scheduler_alloc (g_sprio, g_saff, l); iot_logger_free (l); return s;
}
static void on_scheduler_thread () { int p = g_sprio < 1 ? 0 : g_sprio; VH_CHECK (vh::sched.prio == p, "sched-priority", "the scheduler's thread was to have priority %d, has %d", g_sprio, vh::sched.prio); VH_CHECK (g_saff < 0 || vh::sched.cpu == g_saff || sysconf (_SC_NPROCESSORS_ONLN) == 1, "sched-affinity", "the scheduler's thread was to run on processor %d, not %ld", g_saff, vh::sched.cpu); }
// an activation, on a thread of its own or of a pool
static void at_priority (int want, bool pooled)
{
  bool valid = want >= 1 && want <= 99; if (!pooled) { VH_CHECK (vh::sched.prio == (valid ? want : 0), "sched-run-priority", "an activation of priority %d runs in a thread of priority %d", want, vh::sched.prio); if (valid) count ("threads_at_their_priority"); return; }
  if (want == IOT_THREAD_NO_PRIORITY) return;
  VH_CHECK (vh::sched.prio == want || vh::sched.refused == want, "sched-run-priority", "an activation of priority %d runs in a pool thread of priority %d", want, vh::sched.prio); vh::sched.refused = INT32_MIN; count ("pooled_at_their_priority");
}
static int rnd_prio (Rng & r) { return r.chance (1, 2) ? IOT_THREAD_NO_PRIORITY : r.chance (1, 12) ? 100 : (int) r.below (100); }
// ---- what happened, in the scheduler thread's order
enum { E_RUN, E_FN, E_ABORT, E_ACT }; static const char * EN[] = { "run callback", "sync function", "abort callback", "call from callback" };
struct Ev { int type, id, val; };
static Ev g_log[8192]; static std::atomic<int> g_nlog { 0 }; static pthread_mutex_t g_lmx = PTHREAD_MUTEX_INITIALIZER;
static void ev (int type, int id, int val = 0) { pthread_mutex_lock (&g_lmx); int n = g_nlog; if (n < 8192) { g_log[n] = Ev { type, id, val }; g_nlog = n + 1; } pthread_mutex_unlock (&g_lmx); }
enum { A_NONE, A_ADD, A_REMOVE, A_RESET, A_DELETE, A_CREATE, A_STOP, A_START, A_FREE, A_ADDREF_FREE }; static const char * AN[] = { "nothing", "add", "remove", "reset", "delete", "create", "stop", "start", "free scheduler", "add_ref+free" };
struct Act { int op = A_NONE, target = -1; uint64_t delay = 0; int at = 0; };   // performed on the at-th call of the callback
static const int MAXS = 24;
struct Arg { uint32_t magic; int id; };
struct Sch {
  int id; iot_schedule_t * s; Arg * arg; uint64_t period, delay, repeat; bool conc, sync, gated, has_run, has_abort; int pool, prio; Act act[3];
  sem_t gate; Act rel; std::atomic<bool> rel_set, rel_done; std::atomic<int> rel_ret, at_gate;
  // observed
  std::atomic<bool> alive; std::atomic<int> a_cnt[3], starts, ends, frees, active; std::atomic<bool> created;
  // model
  bool m_exists, m_queued, m_freed, m_created; uint64_t m_due, m_stamp, m_remaining, m_dropped; int m_out, m_starts, m_cnt[3]; bool m_self;
};
static std::atomic<int> g_at_gate { 0 };   // activations held at their gates
static Sch g_s[MAXS]; static int g_ns; static std::atomic<iot_scheduler_t *> g_sched; static iot_threadpool_t * g_pa, * g_pb; static std::atomic<bool> g_sched_freed;
static int do_act (const Act & a);
static void * cb_fn (void * p)
{
  Arg * a = (Arg *) p; VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "the function was given a released argument"); Sch & s = g_s[a->id];
  int act = ++s.active; VH_CHECK (s.conc || act == 1, "sched-overlap", "schedule %d: %d activations at once though not concurrent", s.id, act);
  if (s.sync) { on_scheduler_thread (); ev (E_FN, s.id); const Act & x = s.act[1]; if (x.op != A_NONE && s.a_cnt[1]++ == x.at) ev (E_ACT, s.id, do_act (x)); s.starts++; }
  else
  {
    at_priority (s.prio, s.pool != 0);
    s.starts++;
    if (s.gated) { s.at_gate++; g_at_gate++; while (sem_wait (&s.gate) != 0) {} if (s.rel_set.exchange (false)) { s.rel_ret = do_act (s.rel); s.rel_done = true; } }
  }
  VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "the argument was released while the function ran"); 
  --s.active; s.ends++;
  return NULL;
}
static void * cb_run (void * p) { Arg * a = (Arg *) p; VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "the run callback was given a released argument"); Sch & s = g_s[a->id]; ev (E_RUN, s.id); const Act & x = s.act[0]; if (x.op != A_NONE && s.a_cnt[0]++ == x.at) ev (E_ACT, s.id, do_act (x)); VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "argument released during the run callback"); return NULL; }
static void * cb_abort (void * p) { Arg * a = (Arg *) p; VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "the abort callback was given a released argument"); Sch & s = g_s[a->id]; ev (E_ABORT, s.id); const Act & x = s.act[2]; if (x.op != A_NONE && s.a_cnt[2]++ == x.at) ev (E_ACT, s.id, do_act (x)); VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "argument released during the abort callback"); return NULL; }
static void cb_free (void * p) { Arg * a = (Arg *) p; VH_CHECK (a->magic == 0xA11FE, "sched-double-release", "argument released twice"); Sch & s = g_s[a->id]; VH_CHECK (s.active == 0, "sched-free-running", "schedule %d's argument released while %d activations run", s.id, s.active.load ()); s.frees++; if (g_virtual && (uint64_t) pthread_self () == g_tid) { iot_component_wait ((iot_component_t *) g_sched.load (), 0xFF); count ("releases_by_the_scheduler_thread"); } a->magic = 0xDEAD; free (a); }
static void a_create (Sch & s)
{
  s.arg = (Arg *) malloc (sizeof (Arg)); s.arg->magic = 0xA11FE; s.arg->id = s.id;
  s.s = iot_schedule_create (g_sched, cb_fn, cb_free, s.arg, s.period, s.delay, s.repeat, s.pool == 1 ? g_pa : s.pool == 2 ? g_pb : NULL, s.prio);
  if (s.has_run) iot_schedule_add_run_callback (g_sched, s.s, cb_run);
  if (s.has_abort) iot_schedule_add_abort_callback (g_sched, s.s, cb_abort);
  if (s.conc) { iot_schedule_set_concurrent (s.s, true); VH_CHECK (!iot_schedule_set_sync (s.s, true), "sched-set-sync", "concurrent schedule made synchronous"); }
  if (s.sync) { VH_CHECK (iot_schedule_set_sync (s.s, true), "sched-set-sync", "not made synchronous"); iot_schedule_set_concurrent (s.s, true); }
  VH_CHECK (iot_schedule_dropped (s.s) == 0, "sched-dropped", "new schedule has dropped events");
  s.created = true; s.alive = true;
}
// each schedule's due times have an offset of its own, beyond how far the clock runs ahead, so that no two are due at the same time
static uint64_t off (const Sch & s) { return 1000 + (uint64_t) s.id * 10000; }
static uint64_t reset_delay (const Sch & t, uint64_t delay) { return t.period == 0 && delay ? delay - HALF + off (t) : delay; }
// performed by whoever's callback it is; results: -1 target gone, else as returned
static int do_act (const Act & a)
{
  if (a.op == A_STOP) { iot_scheduler_stop (g_sched); return 1; }
  if (a.op == A_START) { iot_scheduler_start (g_sched); return 1; }
  if (a.op == A_FREE) { iot_scheduler_t * s = g_sched; g_sched_freed = true; iot_scheduler_free (s); return 1; }
  if (a.op == A_ADDREF_FREE) { iot_scheduler_add_ref (g_sched); iot_scheduler_free (g_sched); return 1; }
  if (a.op == A_NONE) return 0;
  Sch & t = g_s[a.target];
  if (a.op == A_CREATE) { if (t.created) return -1; a_create (t); return iot_schedule_add (g_sched, t.s); }
  if (!t.alive) return -1;
  switch (a.op)
  {
    case A_ADD: return iot_schedule_add (g_sched, t.s);
    case A_REMOVE: return iot_schedule_remove (g_sched, t.s);
    case A_RESET: iot_schedule_reset (g_sched, t.s, reset_delay (t, a.delay)); return 1;
    case A_DELETE: t.alive = false; iot_schedule_delete (g_sched, t.s); return 1;
  }
  return 0;
}
// ---- model
static bool m_running; static uint64_t m_stamp; static int m_bq, m_blimit; static int m_fail; static std::vector<Ev> m_log; static bool m_gone; static int m_refs;
static uint64_t later (uint64_t d) { uint64_t v = g_vnow; return d >= (uint64_t) INT64_MAX - v ? (uint64_t) INT64_MAX : v + d; }
static void m_release (Sch & s) { if (s.m_created && !s.m_exists && s.m_out == 0 && !s.m_self) s.m_freed = true; }
static void m_create (Sch & s) { s.m_created = s.m_exists = true; s.m_due = later (s.delay); s.m_stamp = ++m_stamp; s.m_remaining = s.repeat; }
static int m_act (const Act & a)
{
  if (a.op == A_STOP) { m_running = false; return 1; }
  if (a.op == A_START) { m_running = true; return 1; }
  if (a.op == A_FREE) { m_gone = true; return 1; }
  if (a.op == A_ADDREF_FREE) return 1;
  if (a.op == A_NONE) return 0;
  Sch & t = g_s[a.target];
  if (a.op == A_CREATE) { if (t.m_created) return -1; m_create (t); t.m_queued = true; return 1; }
  if (!t.m_exists) return -1;
  switch (a.op)
  {
    case A_ADD: { bool r = !t.m_queued; t.m_queued = true; return r; }
    case A_REMOVE: { bool r = t.m_queued; t.m_queued = false; return r; }
    case A_RESET: t.m_due = later (t.period); if (t.m_due < INT64_MAX) { uint64_t d = reset_delay (t, a.delay); t.m_due = d >= (uint64_t) INT64_MAX - t.m_due ? (uint64_t) INT64_MAX : t.m_due + d; } t.m_stamp = ++m_stamp; return 1;
    case A_DELETE: t.m_exists = t.m_queued = false; m_release (t); return 1;
  }
  return 0;
}
static void m_cb (Sch & s, int which) { m_log.push_back (Ev { which, s.id, 0 }); const Act & x = s.act[which]; if (x.op != A_NONE && s.m_cnt[which]++ == x.at) { int r = m_act (x); m_log.push_back (Ev { E_ACT, s.id, r }); count ("calls_from_callbacks"); } }
static void m_abort (Sch & s) { if (s.has_abort) m_cb (s, E_ABORT); s.m_dropped++; count ("refused_activations"); }
static void m_dispatch (Sch & s)
{
  bool last = s.repeat && --s.m_remaining == 0; if (last) s.m_remaining = s.repeat;
  uint64_t stamp = s.m_stamp; evaluation ();
  if (!s.conc && s.m_out > 0) count ("skipped_activations");
  else
  {
    s.m_self = true;
    if (s.has_run) m_cb (s, E_RUN);
    if (s.sync) { m_cb (s, E_FN); s.m_starts++; }
    else if (s.pool == 2) { if (m_bq < m_blimit) { m_bq++; s.m_out++; } else m_abort (s); }
    else if (s.pool == 1) s.m_starts++;
    else if (m_fail >= 2) { m_fail -= 2; m_abort (s); }
    else { s.m_starts++; if (s.gated) s.m_out++; }
    s.m_self = false; m_release (s); count ("activations");
  }
  if (s.m_exists && s.m_queued)
  {
    if (last) { s.m_queued = false; count ("completed_schedules"); }
    else if (s.m_stamp == stamp) { s.m_due = later (s.period); s.m_stamp = ++m_stamp; }
  }
}
static void m_run ()
{
  for (int guard = 0; m_running && !m_gone; guard++)
  {
    Sch * best = NULL;
    for (int k = 0; k < g_ns; k++) { Sch & s = g_s[k]; if (s.m_exists && s.m_queued && s.m_due <= g_vnow && (!best || s.m_due < best->m_due || (s.m_due == best->m_due && s.m_stamp < best->m_stamp))) best = &s; }
    if (!best) break;
    m_dispatch (*best);
    if (guard > 3000) { fprintf (stderr, "harness: model does not settle\n"); exit (2); }
  }
}
static uint64_t g_fp;
static int outstanding () { int n = 0; for (int k = 0; k < g_ns; k++) if (g_s[k].pool == 0) n += g_s[k].m_out; return n; }
static std::atomic<long> g_base;   // threads that are not activations
static bool activations_settled () { if (threads_alive - g_base > g_at_gate) return false; if (g_pa) iot_threadpool_wait (g_pa); return true; }
template <class F> static void wait_for (F f, const char * key, const std::string & what) { uint64_t t0 = now_ns (); unsigned n = 0; while (!f ()) { if (now_ns () - t0 > LIMIT) fail (key, "%s", what.c_str ()); if (++n > 50) usleep (20); else sched_yield (); } }
// wakes the scheduler thread; nothing it was to be woken for is outstanding
static void poke () { pthread_mutex_lock (&g_wmx); pthread_cond_t * c = g_cond; pthread_mutex_t * m = g_mutex; pthread_mutex_unlock (&g_wmx); if (!c) return; pthread_mutex_lock (m); bool in = g_in; uint64_t p = in ? ++g_pokes : 0; if (in) pthread_cond_broadcast (c); pthread_mutex_unlock (m); if (in) wait_for ([&] { return g_ack >= p; }, "harness", "no answer to a poke"); }
static std::string evs (const Ev & e) { return std::string (EN[e.type]) + " of schedule " + std::to_string (e.id) + (e.type == E_ACT ? " result " + std::to_string (e.val) : ""); }
static void settle ()
{
  m_run ();
  size_t n = m_log.size (); g_fp = g_fp * 31 + n;
  auto compare = [&] () { size_t got = std::min<size_t> ((size_t) g_nlog.load (), n); for (size_t k = 0; k < got; k++) if (g_log[k].type != m_log[k].type || g_log[k].id != m_log[k].id || g_log[k].val != m_log[k].val) fail ("sched-sequence", "event %zu was %s, expected %s", k, evs (g_log[k]).c_str (), evs (m_log[k]).c_str ()); };
  uint64_t t0 = now_ns (); unsigned spins = 0;
  while ((size_t) g_nlog < n) { compare (); if (now_ns () - t0 > LIMIT) fail ("sched-late", "event %d expected (%s) has not happened in 20 s", g_nlog.load (), evs (m_log[(size_t) g_nlog]).c_str ()); if (++spins > 50) usleep (20); else sched_yield (); }
  compare ();
  for (int k = 0; k < g_ns; k++) { Sch & s = g_s[k]; wait_for ([&] { return s.starts >= s.m_starts; }, "sched-late", "schedule " + std::to_string (k) + " has not run in 20 s though due"); }
  if (g_pa) iot_threadpool_wait (g_pa);
  if (m_running && !m_gone) { uint64_t kick = ++g_kick; poke (); wait_for ([&] { pthread_mutex_lock (&g_wmx); bool ok = g_seen >= kick && g_deadline > g_vnow + SLACK; pthread_mutex_unlock (&g_wmx); return ok; }, "sched-spin", "the scheduler has not gone to wait for the next schedule in 20 s"); }
  else if (!m_gone && g_tid) for (int k = 0; k < 2500 && !g_idle; k++) usleep (k < 5 ? 1 : 20);   // stopped from a callback: let it finish that dispatch
  wait_for ([&] { return threads_alive <= g_base + outstanding (); }, "sched-threads", "activations have not ended");
  VH_CHECK ((size_t) g_nlog == n, "sched-extra", "unexpected %s", evs (g_log[n]).c_str ());
  for (int k = 0; k < g_ns; k++)
  {
    Sch & s = g_s[k]; if (!s.m_created) continue;
    VH_CHECK (s.starts == s.m_starts, "sched-count", "schedule %d has run %d times, expected %d", k, s.starts.load (), s.m_starts);
    if (s.m_freed) wait_for ([&] { return s.frees == 1; }, "sched-not-released", "schedule " + std::to_string (k) + "'s argument not released after its deletion");
    VH_CHECK (s.frees == (s.m_freed ? 1 : 0), "sched-release", "schedule %d's argument released %d times, expected %d", k, s.frees.load (), (int) s.m_freed);
    if (s.m_exists && !m_gone) { if (!m_running) wait_for ([&] { return iot_schedule_dropped (s.s) >= s.m_dropped; }, "sched-dropped", "refused activations not counted"); VH_CHECK (iot_schedule_dropped (s.s) == s.m_dropped, "sched-dropped", "schedule %d dropped %llu, expected %llu", k, (unsigned long long) iot_schedule_dropped (s.s), (unsigned long long) s.m_dropped); }
  }
  evaluation (); distinct (g_fp); progress ();
}
static uint64_t rnd_time (Rng & r) { unsigned c = (unsigned) r.below (8); return c == 0 ? 0 : c < 6 ? (1 + r.below (6)) * MS - HALF : c == 6 ? (1 + r.below (40)) * MS - HALF : 3600000 * MS - HALF; }
static void plan_act (Rng & r, Act & a, int self)
{
  static const int OPS[] = { A_ADD, A_ADD, A_REMOVE, A_REMOVE, A_RESET, A_RESET, A_DELETE, A_DELETE, A_CREATE, A_STOP, A_ADDREF_FREE };
  a.op = OPS[r.below (11)]; a.at = (int) r.below (3); a.target = r.chance (1, 2) && self >= 0 ? self : (int) r.below ((uint64_t) (g_ns < MAXS ? g_ns + 1 : g_ns)); a.delay = (r.chance (1, 12) ? 3600000 : r.below (r.chance (1, 4) ? 50 : 6)) * MS; // with the period of the one reset, never on a whole ms
  if (a.target >= g_ns) a.target = 0;
  if (a.op == A_ADD && a.target == self) a.target = (self + 1) % std::max (1, g_ns);
}
static Sch & slot (Rng & r)
{
  Sch & s = g_s[g_ns]; s.id = g_ns++; s.s = NULL; s.arg = NULL; s.period = rnd_time (r); s.delay = rnd_time (r); if (s.period) s.period += off (s); if (s.delay) s.delay += off (s); s.repeat = r.chance (1, 3) ? 0 : 1 + r.below (4);
  if (r.chance (1, 30)) s.delay = r.chance (1, 2) ? UINT64_MAX : (uint64_t) INT64_MAX; if (r.chance (1, 30)) s.period = r.chance (1, 2) ? UINT64_MAX - r.below (1000) : (uint64_t) INT64_MAX;
  if (!s.period && !s.repeat) s.repeat = 1 + r.below (5);
  int kind = (int) r.below (10); s.sync = kind < 4; s.conc = !s.sync && r.chance (1, 3); s.pool = s.sync ? (int) r.below (2) : kind < 6 ? 1 : kind < 8 ? 2 : 0; s.gated = s.pool == 0 && !s.sync && r.chance (1, 2);
  if (s.sync && s.pool == 2) s.pool = 1;
  s.prio = rnd_prio (r);
  s.has_run = r.chance (2, 3); s.has_abort = r.chance (2, 3); for (int k = 0; k < 3; k++) { s.act[k] = Act (); s.a_cnt[k] = 0; s.m_cnt[k] = 0; }
  s.starts = s.ends = s.frees = s.active = 0; s.alive = s.created = false; s.m_exists = s.m_queued = s.m_freed = s.m_created = s.m_self = false; s.m_due = s.m_stamp = s.m_remaining = s.m_dropped = 0; s.m_out = s.m_starts = 0;
  sem_init (&s.gate, 0, 0); s.rel = Act (); s.rel_set = s.rel_done = false; s.rel_ret = 0; s.at_gate = 0;
  return s;
}
static sem_t g_fill; static std::atomic<int> g_filling;
static void * filler (void *) { g_filling = 1; while (sem_wait (&g_fill) != 0) {} g_filling = 0; return NULL; }
static void block_b () { iot_threadpool_add_work (g_pb, filler, NULL, IOT_THREAD_NO_PRIORITY); wait_for ([] { return g_filling == 1; }, "harness", "filler not started"); }
static void drain_b (bool again)
{
  for (int k = 0; k < g_ns; k++) { Sch & s = g_s[k]; if (s.pool == 2) { s.m_starts += s.m_out; s.m_out = 0; m_release (s); } }
  m_bq = 0; sem_post (&g_fill); wait_for ([] { return g_filling == 0; }, "harness", "filler not ended"); iot_threadpool_wait (g_pb);
  if (again) block_b ();
}
static void release_one (Rng & r, Sch & s, bool with_act, Act * forced = NULL)
{
  if (with_act) { if (forced) s.rel = *forced; else { plan_act (r, s.rel, s.id); if (s.rel.op == A_CREATE) s.rel.op = A_RESET; } s.rel_done = false; s.rel_set = true; }
  if (forced) g_hold = false;
  wait_for ([&] { return s.at_gate > 0; }, "harness", "activation not at its gate"); s.at_gate--; g_at_gate--; sem_post (&s.gate);
  int want = 0; if (with_act) { bool freeing = s.rel.op == A_FREE; s.m_self = true; want = m_act (s.rel); s.m_self = false; wait_for ([&] { return s.rel_done.load (); }, "sched-deadlock", std::string ("a call (") + AN[s.rel.op] + ") from a running activation has not returned in 20 s"); if (!freeing) VH_CHECK (s.rel_ret == want, "sched-result", "%s from a running activation returned %d, expected %d", AN[s.rel.op], s.rel_ret.load (), want); count ("calls_from_activations"); }
  s.m_out--; m_release (s);
}
struct W { iot_scheduler_t * s; pthread_t t; };
static void * state_waiter (void * p) { W * w = (W *) p; iot_component_wait ((iot_component_t *) w->s, IOT_COMPONENT_STOPPED); return NULL; }
static void m_virt (Rng & r, uint64_t)
{
  g_virtual = true; g_vnow = (g_vnow / MS + 2) * MS; g_ns = 0; g_nlog = 0; m_log.clear (); m_log.reserve (4096); m_running = m_gone = false; m_stamp = 0; m_bq = 0; m_fail = 0; g_sched_freed = false; g_fp = 1; fail_threads = 0; g_deadline = 0; g_cond = NULL; g_tid = 0; g_idle = false; g_at_gate = 0; g_hold = false;
  sem_init (&g_fill, 0, 0); g_filling = 0; m_blimit = 1 + (int) r.below (3);
  g_pa = iot_threadpool_alloc ((uint16_t) (1 + r.below (3)), 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL); g_pb = iot_threadpool_alloc (1, (uint32_t) m_blimit, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
  iot_threadpool_start (g_pa); iot_threadpool_start (g_pb); block_b ();
  g_sched = new_scheduler (r);
  g_base = threads_alive.load (); g_hold = true; W w { g_sched, 0 }; bool waiting = false;
  unsigned steps = 15 + (unsigned) r.below (50); bool callbacks = r.chance (2, 3);
  unsigned init = 1 + (unsigned) r.below (5);
  auto create = [&] () {
    Sch & s = slot (r);
    if (callbacks) for (int k = 0; k < 3; k++) if (r.chance (1, 3)) { plan_act (r, s.act[k], s.id); if (s.act[k].op == A_CREATE) { if (g_ns < MAXS - 2) { Sch & n = slot (r); n.act[0] = n.act[1] = n.act[2] = Act (); s.act[k].target = n.id; } else s.act[k].op = A_RESET; } }
    a_create (s); m_create (s); log_op ("create %d period %llu delay %llu repeat %llu %s%s pool %d%s run %d abort %d; acts %s@%d>%d %s@%d>%d %s@%d>%d", s.id, (unsigned long long) s.period, (unsigned long long) s.delay, (unsigned long long) s.repeat, s.sync ? "sync" : "", s.conc ? "conc" : "", s.pool, s.gated ? " gated" : "", s.has_run, s.has_abort, AN[s.act[0].op], s.act[0].at, s.act[0].target, AN[s.act[1].op], s.act[1].at, s.act[1].target, AN[s.act[2].op], s.act[2].at, s.act[2].target);
    return s.id; };
  auto call = [&] (int op, int target, uint64_t delay) { Act a; a.op = op; a.target = target; a.delay = delay; log_op ("%s %d (%llu)", AN[op], target, (unsigned long long) delay); int want = m_act (a); int got = do_act (a); VH_CHECK (got == want, "sched-result", "%s of schedule %d returned %d, expected %d", AN[op], target, got, want); };
  while (init--) { int id = create (); if (r.chance (3, 4)) call (A_ADD, id, 0); }
  if (r.chance (3, 4)) { log_op ("start"); m_running = true; iot_scheduler_start (g_sched); }
  settle ();
  for (unsigned k = 0; k < steps; k++)
  {
    unsigned op = (unsigned) r.below (24); int t = (int) r.below ((uint64_t) g_ns); bool ok = g_s[t].created && g_s[t].m_exists;
    if (op < 9) { uint64_t d = r.chance (1, 12) ? 3600001 * MS : (1 + r.below (r.chance (1, 4) ? 50 : 4)) * MS; log_op ("advance %llu ms", (unsigned long long) (d / MS)); g_vnow += d; poke (); count ("clock_steps"); }
    else if (op < 11) { if (ok) call (A_ADD, t, 0); }
    else if (op < 12) { if (ok) call (A_REMOVE, t, 0); }
    else if (op < 14) { if (ok) call (A_RESET, t, r.below (r.chance (1, 4) ? 50 : 6) * MS); }
    else if (op < 15) { if (ok && r.chance (1, 2)) call (A_DELETE, t, 0); }
    else if (op < 17) { if (g_ns < MAXS - 3) { int id = create (); if (r.chance (3, 4)) call (A_ADD, id, 0); } }
    else if (op < 18) { log_op ("%s", m_running ? "stop" : "start"); if (m_running) { m_running = false; if (r.chance (1, 2)) { uint64_t d = (1 + r.below (r.chance (1, 4) ? 50 : 6)) * MS; log_op ("the clock moves %llu ms just before", (unsigned long long) (d / MS)); g_vnow += d; count ("stops_as_time_passes"); } iot_scheduler_stop (g_sched); count ("stops"); } else { m_running = true; iot_scheduler_start (g_sched); } }
    else if (op < 20) { for (int z = 0; z < g_ns; z++) { Sch & s = g_s[(t + z) % g_ns]; if (s.pool == 0 && s.m_out > 0) { log_op ("release %d", s.id); release_one (r, s, r.chance (1, 3)); break; } } }
    else if (op < 21) { log_op ("drain"); drain_b (true); }
    else if (op < 22) { if (!m_fail) { m_fail = 2; fail_threads = 2; log_op ("threads fail"); } }
    else if (op < 23) { if (m_running && !waiting) { waiting = true; g_base++; fail_threads = 0; pthread_create (&w.t, NULL, state_waiter, &w); } }
    else if (ok) { VH_CHECK (iot_schedule_id (g_s[t].s) == iot_schedule_id (g_s[t].s), "sched-id", "id"); iot_scheduler_add_ref (g_sched); iot_scheduler_free (g_sched); iot_scheduler_free (NULL); }
        bool was = m_running; settle (); if (waiting && !m_running) { pthread_join (w.t, NULL); waiting = false; g_base--; }
    if (was && !m_running) count ("stops_from_callbacks");   // stopped by a callback
    fail_threads = m_fail;
  }
  fail_threads = 0; m_fail = 0;
  if (waiting) { iot_scheduler_stop (g_sched); m_running = false; pthread_join (w.t, NULL); g_base--; waiting = false; settle (); }
  g_hold = true;
  // the end: destroyed from here, with activations outstanding; or by a callback of its own; or by an activation
  unsigned how = (unsigned) r.below (4); 
  if (how == 1 || how == 2)
  {
    if (g_ns < MAXS) { Sch & s = slot (r); s.sync = how == 1 || r.chance (1, 2); s.conc = false; s.pool = 0; s.gated = !s.sync; s.delay = 0; s.period = 5 * MS - HALF + off (s); s.repeat = 0; s.has_run = how == 2 && s.sync; s.has_abort = false; if (s.sync) s.act[s.has_run ? 0 : 1] = Act { A_FREE, 0, 0, 0 };
      log_op ("the end: freed from %s", s.gated ? "an activation" : s.has_run ? "a run callback" : "a sync function");
      if (!m_running) { iot_scheduler_start (g_sched); m_running = true; settle (); }
      if (m_running)   // a callback of the overdue ones may have stopped it again
      {
        a_create (s); m_create (s); if (s.gated) { call (A_ADD, s.id, 0); settle (); if (s.m_out && m_running) { Act f; f.op = A_FREE; release_one (r, s, true, &f); count ("freed_from_activation"); } }
        else { m_act (Act { A_ADD, s.id, 0, 0 }); m_run (); int rr = iot_schedule_add (g_sched, s.s); VH_CHECK (rr == 1, "sched-result", "add"); if (m_gone) { wait_for ([] { return g_sched_freed.load (); }, "sched-late", "schedule that frees the scheduler has not run"); count (s.has_run ? "freed_from_run_callback" : "freed_from_sync_function"); } }
      } }
  }
  g_hold = false;
  bool outside = !m_gone;
  if (outside) { if (r.chance (1, 2)) g_vnow += (1 + r.below (50)) * MS; if (r.chance (1, 2)) { iot_scheduler_stop (g_sched); } m_gone = true; g_sched_freed = true; iot_scheduler_free (g_sched); count ("freed_outside"); }
  m_running = false;
  // nothing fires any more; activations outstanding still own their schedules
  for (int k = 0; k < g_ns; k++) { Sch & s = g_s[k]; if (s.m_created && s.m_exists) { s.m_exists = s.m_queued = false; s.m_self = false; m_release (s); } }
  if (outside) for (int k = 0; k < g_ns; k++) { Sch & s = g_s[k]; if (s.m_freed && !(s.pool && !s.sync)) VH_CHECK (s.frees == 1, "sched-free-early", "the scheduler was destroyed but schedule %d's argument is not released", k); }
  g_vnow += 100 * MS; int left = 0; for (int k = 0; k < g_ns; k++) if (g_s[k].pool == 0) left += g_s[k].m_out; if (left) count ("freed_with_activations_running");
  for (int k = 0; k < g_ns; k++) if (g_s[k].m_created && !g_s[k].m_freed) VH_CHECK (g_s[k].frees == 0, "sched-release", "schedule %d released while %d of its activations are outstanding", k, g_s[k].m_out);
  for (int k = 0; k < g_ns; k++) { Sch & s = g_s[k]; while (s.pool == 0 && s.m_out > 0) { sem_post (&s.gate); s.m_out--; m_release (s); } }
  drain_b (false); iot_threadpool_wait (g_pa);
  iot_threadpool_free (g_pa); iot_threadpool_free (g_pb); wait_threads ("sched-threads", 0); g_pa = g_pb = NULL; g_sched = NULL;
  for (size_t k = 0; k < m_log.size () && (int) k < g_nlog; k++) if (g_log[k].type != m_log[k].type || g_log[k].id != m_log[k].id) fail ("sched-sequence", "event %zu was %s, expected %s", k, evs (g_log[k]).c_str (), evs (m_log[k]).c_str ());
  VH_CHECK ((size_t) g_nlog == m_log.size (), "sched-after-free", "%d events, expected %zu: fired after the scheduler was freed", g_nlog.load (), m_log.size ());
  for (int k = 0; k < g_ns; k++) { Sch & s = g_s[k]; if (s.created) { VH_CHECK (s.frees == 1, "sched-release", "schedule %d's argument released %d times in all", k, s.frees.load ()); VH_CHECK (s.starts == s.m_starts && s.ends == s.starts, "sched-count", "schedule %d ran %d times (%d ended), expected %d", k, s.starts.load (), s.ends.load (), s.m_starts); } sem_destroy (&s.gate); }
  m_log.clear (); m_log.shrink_to_fit (); g_virtual = false; evaluation ();
  if (want_sample ()) show ("%d schedules, %u steps, %d events, end %u", g_ns, steps, g_nlog.load (), how);
}
// ---- stress on the real clock: many threads, callbacks that call back; monitors in the callbacks
struct X { std::atomic<uint32_t> magic { 0xA11FE }; bool conc, sync; uint64_t repeat, period, delay, born; std::atomic<int> active { 0 }, starts { 0 }, runs { 0 }, aborts { 0 }, frees { 0 }, removed { 0 }, late { 0 }, touched { 0 }; iot_schedule_t * s; std::atomic<bool> deleted { false }; std::atomic<uint64_t> first { 0 }; pthread_mutex_t mx; int self_op; unsigned work; };
static const int NX = 64; static X * g_x[NX]; static std::atomic<bool> g_end; static iot_threadpool_t * g_xp[2];
static uint64_t real_ns () { struct timespec ts; __real_clock_gettime (CLOCK_REALTIME, &ts); return (uint64_t) ts.tv_sec * 1000000000ull + (uint64_t) ts.tv_nsec; }
struct XA { uint32_t magic; X * x; };
static void * x_fn (void * p)
{
  XA * a = (XA *) p; VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "the function was given a released argument"); X * x = a->x; uint64_t now = real_ns ();
  int act = ++x->active; VH_CHECK (x->conc || act == 1, "sched-overlap", "%d activations at once though not concurrent", act);
  uint64_t z = 0; x->first.compare_exchange_strong (z, now); x->starts++;
  if (!x->touched) VH_CHECK (now >= x->born + x->delay, "sched-early", "first run %llu ns after creation with a delay of %llu", (unsigned long long) (now - x->born), (unsigned long long) x->delay);
  if (x->removed) x->late++;
  for (volatile unsigned k = 0; k < x->work; k++) {}
  if (x->self_op && (x->starts % 4) == 3) { x->touched = 1; switch (x->self_op) { case 1: iot_schedule_reset (g_sched, x->s, 20000); break; case 2: if (!x->deleted && pthread_mutex_trylock (&x->mx) == 0) { if (!x->deleted) iot_schedule_remove (g_sched, x->s); if (!x->deleted) iot_schedule_add (g_sched, x->s); pthread_mutex_unlock (&x->mx); } break; default: break; } }
  VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "the argument was released while the function ran");
  --x->active; return NULL;
}
static void * x_run (void * p) { XA * a = (XA *) p; VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "run callback given a released argument"); a->x->runs++; return NULL; }
static void * x_abort (void * p) { XA * a = (XA *) p; VH_CHECK (a->magic == 0xA11FE, "sched-arg-released", "abort callback given a released argument"); a->x->aborts++; return NULL; }
static void x_free (void * p) { XA * a = (XA *) p; VH_CHECK (a->magic == 0xA11FE, "sched-double-release", "argument released twice"); VH_CHECK (a->x->active == 0, "sched-free-running", "argument released while an activation runs"); a->x->frees++; a->magic = 0; free (a); }
struct XT { uint64_t seed; int nx; pthread_t t; };
static void * x_thread (void * p)
{
  XT * t = (XT *) p; Rng r (t->seed);
  while (!g_end)
  {
    X * x = g_x[r.below ((uint64_t) t->nx)]; unsigned op = (unsigned) r.below (12);
    if (op == 11) { iot_scheduler_add_ref (g_sched); if (r.chance (1, 2)) { iot_scheduler_stop (g_sched); usleep ((unsigned) r.below (100)); iot_scheduler_start (g_sched); } iot_scheduler_free (g_sched); }
    else if (pthread_mutex_trylock (&x->mx) == 0)
    {
      if (!x->deleted)
      {
        x->touched = 1;
        if (op < 4) { x->removed = 0; iot_schedule_add (g_sched, x->s); }
        else if (op < 6) { iot_schedule_remove (g_sched, x->s); if (!x->self_op) { x->late = 0; x->removed = 1; } if (r.chance (1, 3)) { usleep (300); int l = x->late; VH_CHECK (x->conc || !x->removed || l <= 1, "sched-late-run", "%d activations began after removal returned", l); count ("removals_watched"); } }
        else if (op < 8) iot_schedule_reset (g_sched, x->s, r.below (100000));
        else if (op < 9) { iot_schedule_add_run_callback (g_sched, x->s, r.chance (1, 2) ? x_run : NULL); iot_schedule_add_abort_callback (g_sched, x->s, r.chance (1, 2) ? x_abort : NULL); }
        else if (op < 10 && r.chance (1, 6)) { x->deleted = true; iot_schedule_delete (g_sched, x->s); count ("deletes_while_running"); }
        else { iot_schedule_dropped (x->s); iot_schedule_id (x->s); }
      }
      pthread_mutex_unlock (&x->mx);
    }
    evaluation (); if (r.chance (1, 3)) usleep ((unsigned) r.below (60));
  }
  return NULL;
}
static void m_stress (Rng & r, uint64_t)
{
  g_end = false; int nx = 2 + (int) r.below (12), nt = 1 + (int) r.below (4); unsigned small = 1 + (unsigned) r.below (3);
  g_xp[0] = iot_threadpool_alloc (3, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL); g_xp[1] = iot_threadpool_alloc (1, small, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL); iot_threadpool_start (g_xp[0]); iot_threadpool_start (g_xp[1]);
  g_sched = new_scheduler (r);
  for (int k = 0; k < nx; k++)
  {
    X * x = g_x[k] = new X; pthread_mutex_init (&x->mx, NULL); int kind = (int) r.below (4); x->sync = kind == 0; x->conc = kind != 0 && r.chance (1, 3); x->repeat = r.chance (1, 2) ? 0 : 1 + r.below (20); x->period = r.range (20000, 400000); x->delay = r.below (500000); x->self_op = r.chance (1, 3) ? 1 + (int) r.below (2) : 0; x->work = (unsigned) r.below (r.chance (1, 2) ? 10 : 30000); if (kind == 3) x->period += 500000;
    XA * a = (XA *) malloc (sizeof *a); a->magic = 0xA11FE; a->x = x; x->born = real_ns ();
    x->s = iot_schedule_create (g_sched, x_fn, x_free, a, x->period, x->delay, x->repeat, kind == 1 ? g_xp[0] : kind == 2 ? g_xp[1] : NULL, IOT_THREAD_NO_PRIORITY);
    if (x->sync) iot_schedule_set_sync (x->s, true); if (x->conc) iot_schedule_set_concurrent (x->s, true);
    if (r.chance (1, 2)) iot_schedule_add_run_callback (g_sched, x->s, x_run); if (r.chance (1, 2)) iot_schedule_add_abort_callback (g_sched, x->s, x_abort);
    iot_schedule_add (g_sched, x->s);
  }
  iot_scheduler_start (g_sched);
  XT ts[8]; for (int k = 0; k < nt; k++) { ts[k].seed = r.next (); ts[k].nx = nx; pthread_create (&ts[k].t, NULL, x_thread, &ts[k]); }
  usleep (15000 + (unsigned) r.below (15000)); g_end = true;
  for (int k = 0; k < nt; k++) pthread_join (ts[k].t, NULL);
  // destroyed while schedules are due and running; activations may call the scheduler until their schedules are, so those are quietened first
  for (int k = 0; k < nx; k++) if (!g_x[k]->deleted && g_x[k]->self_op) { pthread_mutex_lock (&g_x[k]->mx); g_x[k]->deleted = true; iot_schedule_delete (g_sched, g_x[k]->s); pthread_mutex_unlock (&g_x[k]->mx); }
  bool quiet = r.chance (1, 2); for (int k = 0; k < nx; k++) if (g_x[k]->self_op) quiet = true;
  if (quiet) { iot_scheduler_stop (g_sched); usleep (300); iot_threadpool_wait (g_xp[0]); iot_threadpool_wait (g_xp[1]); wait_for ([] { return threads_alive <= 5; }, "sched-threads", "activations have not ended"); for (int k = 0; k < nx; k++) wait_for ([&] { return g_x[k]->active == 0; }, "sched-threads", "activation has not ended"); }
  iot_scheduler_free (g_sched); g_sched = NULL; long total = 0;
  iot_threadpool_wait (g_xp[0]); iot_threadpool_wait (g_xp[1]); iot_threadpool_free (g_xp[0]); iot_threadpool_free (g_xp[1]); wait_threads ("sched-threads", 0);
  for (int k = 0; k < nx; k++) { X * x = g_x[k]; total += x->starts; VH_CHECK (x->frees == 1, "sched-release", "an argument was released %d times in all", x->frees.load ()); VH_CHECK (x->active == 0, "sched-free-running", "activation still running"); }
  uint64_t f = 1; for (int k = 0; k < nx; k++) f = f * 1099511628211ull + (uint64_t) g_x[k]->starts * 64 + (uint64_t) g_x[k]->aborts; distinct (f); count ("activations", (uint64_t) total); for (int k = 0; k < nx; k++) { count ("refused_activations", (uint64_t) g_x[k]->aborts); pthread_mutex_destroy (&g_x[k]->mx); delete g_x[k]; }
  evaluation ((uint64_t) total + (uint64_t) nx);
  if (want_sample ()) show ("%d schedules, %d calling threads, %ld activations", nx, nt, total);
}
// ---- real clock: never early, exact counts, due order
struct Y { uint64_t born, delay, period, repeat, last_run; std::atomic<int> n { 0 }; std::atomic<uint64_t> first { 0 }; int id; };
static std::atomic<int> g_yorder[64], g_yn;
static void * y_fn (void * p)
{
  Y * y = (Y *) p; uint64_t now = iot_time_nsecs (); int n = ++y->n;
  if (n == 1) { y->first = now; g_yorder[g_yn++] = y->id; VH_CHECK (now >= y->born + y->delay, "sched-early", "first run %llu ns after creation, delay %llu", (unsigned long long) (now - y->born), (unsigned long long) y->delay); }
  else VH_CHECK (now >= y->last_run + y->period - 0, "sched-early", "run %llu ns after the previous one, period %llu", (unsigned long long) (now - y->last_run), (unsigned long long) y->period);
  y->last_run = now; return NULL;   // synchronous: the next start is reckoned from after this
}
static void m_real (Rng & r, uint64_t)
{
  int n = 1 + (int) r.below (10); static Y ys[16]; iot_schedule_t * ss[16]; g_yn = 0; uint64_t longest = 0;
  iot_scheduler_t * sc = new_scheduler (r); bool first = r.chance (1, 2); if (first) iot_scheduler_start (sc);
  struct Due { uint64_t lo, hi; int id; }; std::vector<Due> due;
  for (int k = 0; k < n; k++)
  {
    Y & y = ys[k]; y.n = 0; y.first = 0; y.id = k; y.delay = r.range (1, 30) * MS + r.below (MS); y.period = r.range (0, 3000) * 1000; y.repeat = 1 + r.below (4); y.born = iot_time_nsecs (); y.last_run = 0;
    ss[k] = iot_schedule_create (sc, y_fn, NULL, &y, y.period, y.delay, y.repeat, NULL, IOT_THREAD_NO_PRIORITY); iot_schedule_set_sync (ss[k], true); longest = std::max (longest, y.delay + y.repeat * y.period);
    due.push_back ({ y.born + y.delay, iot_time_nsecs () + y.delay, k });
  }
  for (int k = n; k-- > 0;) VH_CHECK (iot_schedule_add (sc, ss[k]), "sched-result", "add");
  uint64_t added = iot_time_nsecs ();
  if (!first) iot_scheduler_start (sc);
  for (int k = 0; k < n; k++) wait_for ([&] { return ys[k].n >= (int) ys[k].repeat; }, "sched-late", "a schedule has not run its " + std::to_string (ys[k].repeat) + " times 20 s after it was added");
  usleep (2000);
  iot_scheduler_stop (sc); iot_scheduler_free (sc);
  for (int k = 0; k < n; k++) VH_CHECK (ys[k].n == (int) ys[k].repeat, "sched-count", "ran %d times, repeat count %llu", ys[k].n.load (), (unsigned long long) ys[k].repeat);
  int pos[16]; for (int k = 0; k < n; k++) pos[g_yorder[k]] = k;
  for (auto & a : due) for (auto & b : due) if (a.hi < b.lo && (!first || added < b.lo)) { count ("ordered_pairs"); VH_CHECK (pos[a.id] < pos[b.id], "sched-order", "schedule due %llu ns before another was started after it", (unsigned long long) (b.lo - a.hi)); }
  wait_threads ("sched-threads", 0);
  for (int k = 0; k < n; k++) { evaluation (ys[k].repeat); distinct (Rng::mix (ys[k].delay * 31 + ys[k].period)); } count ("real_time_runs", (uint64_t) n);
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "virt", m_virt, true }, { "stress", m_stress, true }, { "real", m_real, true } };
  return run (argc, argv, modes, 3);
}
