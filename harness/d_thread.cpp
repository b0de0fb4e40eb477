// C27: thread creation, priorities and mutexes. The kernel is not asked for real-time scheduling (prio.hpp): what each thread was created with is
// recorded where pthread_create is called, creations and priorities are refused on demand, and every thread reports how often and with what it ran.
// LINK: -Wl,--wrap=pthread_setschedparam,--wrap=pthread_setschedprio,--wrap=pthread_getschedparam,--wrap=geteuid
#include "vh.hpp"
#include "prio.hpp"
#include "iot/thread.h"
#include "iot/component.h"
#include <semaphore.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <sched.h>
using namespace vh;
static uint64_t LIMIT = 20000000000ull;
static const int PRIO[] = { -1000, -7, -2, -1, -1, 0, 1, 2, 50, 98, 99, 100, 101, 1 << 30 };
struct Made { std::atomic<int> runs { 0 }; void * got = nullptr; pthread_t self; Sched s; pthread_t tid; bool ok = false; int prio = 0, aff = 0; sem_t ran; bool with_tid = false; int gp = 0; };
static void * body (void * a)
{
  Made * m = (Made *) a; m->got = a; m->self = pthread_self (); m->s = vh::sched; m->gp = iot_thread_current_get_priority (); m->runs++; sem_post (&m->ran); return NULL;
}
struct Log { std::atomic<int> errors { 0 }, msgs { 0 }; };
static void log_fn (iot_logger_t * l, iot_loglevel_t level, uint64_t, const char * text, const void * ctx) { (void) l; Log * g = (Log *) ctx; VH_CHECK (text && text[0], "thread-log", "an empty message"); g->msgs++; if (level == IOT_LOG_ERROR) g->errors++; }
static void wait_sem (sem_t * s, const char * key, const char * what) { uint64_t t0 = now_ns (); while (sem_trywait (s) != 0) { VH_CHECK (now_ns () - t0 < LIMIT, key, "%s", what); usleep (20); } }
static long g_cpus;
// one creation judged; exact when nobody else creates threads meanwhile
static Made * one (Rng & r, iot_logger_t * logger, Log * g, int fails, int refuse, bool exact)
{
  Made * m = new Made; sem_init (&m->ran, 0, 0); m->prio = r.pick (PRIO); m->aff = r.chance (1, 3) ? (int) r.below ((uint64_t) g_cpus) : r.chance (1, 2) ? -1 : r.chance (1, 2) ? (int) g_cpus + (int) r.below (3) : -2 - (int) r.below (3);
  m->with_tid = r.chance (2, 3); bool root = g_euid == 0, rt = root && m->prio >= 1 && m->prio <= 99;
  int e0 = g->errors; unsigned c0 = creations_tried;
  if (exact) { fail_threads = fails; refuse_rt = refuse; }
  m->ok = iot_thread_create (m->with_tid ? &m->tid : NULL, body, m, m->prio, m->aff, logger);
  unsigned tries = creations_tried - c0; if (exact) fail_threads = refuse_rt = 0;
  if (exact) log_op ("create prio %d affinity %d %s%s fails %d refuse %d -> %d after %u attempts", m->prio, m->aff, m->with_tid ? "tid " : "", root ? "root" : "user", fails, refuse, m->ok, tries);
  if (exact)
  {
    bool first = !fails && !(rt && refuse);   // granted at once
    bool can = first || fails < 2;             // an ordinary thread is granted at the second attempt
    VH_CHECK (m->ok == can, "thread-result", "creation (priority %d, %d creations refused, real-time %s) returned %d", m->prio, fails, refuse ? "refused" : "granted", m->ok);
    if (!m->ok && logger) { VH_CHECK (g->errors > e0, "thread-error-logged", "a failed creation was not logged"); count ("failures_logged"); }
    if (m->ok) { VH_CHECK (g->errors == e0, "thread-error-logged", "an error logged though the thread was created"); }
    if (m->ok && !first) { count (rt && refuse && !fails ? "real_time_refused" : "created_at_second_attempt"); }
    if (m->ok && !first) VH_CHECK (tries >= 2, "harness", "attempts");
  }
  if (m->ok)
  {
    wait_sem (&m->ran, "thread-not-run", "a created thread has not run its function within 20 s");
    bool first = exact && !fails && !(rt && refuse);
    VH_CHECK (m->got == m, "thread-arg", "wrong argument"); VH_CHECK (m->s.detached, "thread-detached", "the thread was not created detached");
    if (m->with_tid) VH_CHECK (pthread_equal (m->tid, m->self), "thread-id", "the identifier returned is not the thread's");
    if (first || !exact)
    {
      if (rt) { VH_CHECK (m->s.policy == SCHED_FIFO && m->s.prio == m->prio, "thread-priority", "requested priority %d, runs with policy %d priority %d", m->prio, m->s.policy, m->s.prio); VH_CHECK (m->gp == m->prio, "thread-get-priority", "priority %d read as %d", m->prio, m->gp); count ("created_at_priority"); }
      else { VH_CHECK (m->s.policy == SCHED_OTHER && m->s.prio == 0, "thread-priority", "priority %d not to be granted%s, runs with policy %d priority %d", m->prio, root ? "" : " to an ordinary user", m->s.policy, m->s.prio); VH_CHECK (m->gp == 0, "thread-get-priority", "priority 0 read as %d", m->gp); }
      bool valid = m->aff >= 0 && m->aff < g_cpus; VH_CHECK (valid ? m->s.cpu == m->aff : g_cpus == 1 || m->s.cpu == -1, "thread-affinity", "affinity %d of %ld processors, the thread's is %ld", m->aff, g_cpus, m->s.cpu); if (valid) count ("created_with_affinity");
    }
    else VH_CHECK (m->s.policy == SCHED_OTHER ? m->s.prio == 0 : m->s.policy == SCHED_FIFO && m->s.prio == m->prio && rt && !refuse, "thread-priority", "policy %d priority %d after a refused attempt for %d", m->s.policy, m->s.prio, m->prio);
  }
  evaluation (); distinct (hash_bytes (&m->prio, 4, hash_bytes (&m->aff, 4, (uint64_t) fails * 7 + (uint64_t) refuse * 3 + root + exact * 64 + m->with_tid * 128)));
  return m;
}

// the function ran exactly once if creation said so, else never
static void settle (Made * m) { VH_CHECK (m->runs == (m->ok ? 1 : 0), "thread-runs", "the function ran %d times after creation returned %d", m->runs.load (), m->ok); sem_destroy (&m->ran); delete m; }
struct Caller { uint64_t seed; iot_logger_t * logger; Log * g; unsigned n; std::vector<Made *> made; pthread_t t; int mode; };
static void * caller (void * a)
{
  Caller * c = (Caller *) a; Rng r (c->seed); c->made.reserve (c->n);
  for (unsigned k = 0; k < c->n; k++)
  {
    Made * m = one (r, c->logger, c->g, 0, 0, false); c->made.push_back (m);
  }
  return NULL;
}
static void m_create (Rng & r, uint64_t)
{
  if (!g_cpus) g_cpus = sysconf (_SC_NPROCESSORS_ONLN);
  Log g; iot_logger_t * logger = r.chance (1, 3) ? NULL : iot_logger_alloc_custom ("thread", r.chance (1, 2) ? IOT_LOG_ERROR : IOT_LOG_TRACE, false, NULL, log_fn, &g, NULL); if (logger) iot_logger_start (logger);
  g_euid = r.chance (1, 4) ? 1000 : 0; vh::sched = Sched (); thread_start_delay_us = r.chance (1, 4) ? 200 : 0;
  if (r.chance (2, 3))
  {
    unsigned n = 1 + (unsigned) r.below (8);
    for (unsigned k = 0; k < n; k++)
    {
      int fails = r.chance (1, 2) ? 0 : 1 + (int) r.below (2), refuse = r.chance (1, 2) ? 0 : 1 + (int) r.below (2);
      Made * m = one (r, logger, &g, fails, refuse, true); wait_threads ("thread-left", 0); settle (m); progress ();
    }
  }
  else
  {
    unsigned n = 2 + (unsigned) r.below (3); Caller c[4];
    for (unsigned k = 0; k < n; k++) { c[k].seed = r.next (); c[k].logger = logger; c[k].g = &g; c[k].n = 1 + (unsigned) r.below (6); }
    for (unsigned k = 0; k < n; k++) VH_CHECK (pthread_create (&c[k].t, NULL, caller, &c[k]) == 0, "harness", "thread");
    for (unsigned k = 0; k < n; k++) pthread_join (c[k].t, NULL);
    wait_threads ("thread-left", 0); for (unsigned k = 0; k < n; k++) { for (Made * m : c[k].made) settle (m); c[k].made.clear (); c[k].made.shrink_to_fit (); } count ("concurrent_callers", n);
  }
  thread_start_delay_us = 0; g_euid = 0;
  if (logger) iot_logger_free (logger);
}
// ---- priorities of this and other threads
struct Held { pthread_t t; sem_t go, done; std::atomic<bool> quit { false }; std::atomic<int> op { 0 }, in { 0 }, out { 0 }; std::atomic<int> policy { 0 }, prio { 0 }; };
static Held g_h[4]; static unsigned g_nh; static int g_refuse_next;
static Held * held (pthread_t t) { for (unsigned k = 0; k < g_nh; k++) if (pthread_equal (g_h[k].t, t)) return &g_h[k]; fail ("harness", "unknown thread"); }
static int set_other (pthread_t t, int pol, int p) { Held * h = held (t); if ((pol == SCHED_FIFO || pol == SCHED_RR) ? p < 1 || p > 99 : p != 0) return EINVAL; if (chance_prio ()) return EPERM; h->policy = pol; h->prio = p; return 0; }
static int get_other (pthread_t t, int * pol, struct sched_param * sp) { Held * h = held (t); *pol = h->policy; sp->sched_priority = h->prio; return 0; }
static void * holder (void * a)
{
  Held * h = (Held *) a;
  for (;;)
  {
    while (sem_wait (&h->go) != 0) {}
    if (h->quit) return NULL;
    vh::sched.policy = h->policy; vh::sched.prio = h->prio;   // what other threads set it to
    if (h->op == 1) h->out = iot_thread_current_get_priority (); else h->out = iot_thread_current_set_priority (h->in);
    h->policy = vh::sched.policy; h->prio = vh::sched.prio; sem_post (&h->done);
  }
}
static void m_prio (Rng & r, uint64_t)
{
  g_set_other = set_other; g_get_other = get_other; g_nh = 1 + (unsigned) r.below (4); int model[4], refuse = r.chance (1, 2);
  for (unsigned k = 0; k < g_nh; k++) { Held & h = g_h[k]; h.quit = false; h.policy = 0; h.prio = 0; model[k] = 0; sem_init (&h.go, 0, 0); sem_init (&h.done, 0, 0); VH_CHECK (pthread_create (&h.t, NULL, holder, &h) == 0, "harness", "thread"); }
  unsigned n = 5 + (unsigned) r.below (30); uint64_t f = 0;
  for (unsigned k = 0; k < n; k++)
  {
    unsigned i = (unsigned) r.below (g_nh); Held & h = g_h[i]; int p = r.pick (PRIO); bool self = r.chance (1, 2), get = r.chance (1, 3); bool deny = refuse && r.chance (1, 4); g_refuse_prio = deny ? 1 : 0; int v;
    if (self) { h.op = get ? 1 : 2; h.in = p; sem_post (&h.go); while (sem_wait (&h.done) != 0) {} v = h.out; }
    else v = get ? iot_thread_get_priority (h.t) : iot_thread_set_priority (h.t, p);
    log_op ("thread %u %s %s %d%s -> %d", i, self ? "itself" : "from outside", get ? "get" : "set", p, deny ? " refused" : "", v);
    if (get) VH_CHECK (v == model[i], "priority-get", "priority %d read as %d", model[i], v);
    else
    {
      bool ok = p >= 1 && p <= 99 && !deny; VH_CHECK ((v != 0) == ok, "priority-set-result", "setting priority %d%s returned %d", p, deny ? " (refused)" : "", v); if (ok) model[i] = p; count (ok ? "priorities_set" : "priorities_refused");
    }
    for (unsigned j = 0; j < g_nh; j++) { VH_CHECK (g_h[j].prio == model[j], "priority-set", "thread %u has priority %d, not %d", j, g_h[j].prio.load (), model[j]); VH_CHECK (model[j] == 0 || g_h[j].policy == SCHED_FIFO, "priority-policy", "policy %d", g_h[j].policy.load ()); }
    VH_CHECK (iot_thread_priority_valid (p) == (p >= sched_get_priority_min (SCHED_FIFO) && p <= sched_get_priority_max (SCHED_FIFO)), "priority-valid", "priority %d valid: %d", p, iot_thread_priority_valid (p));
    f = f * 31 + i * 1000003u + (uint64_t) p * 5 + self * 2 + get; evaluation (); distinct (f);
  }
  g_refuse_prio = 0;
  for (unsigned k = 0; k < g_nh; k++) { g_h[k].quit = true; sem_post (&g_h[k].go); pthread_join (g_h[k].t, NULL); sem_destroy (&g_h[k].go); sem_destroy (&g_h[k].done); }
  g_nh = 0;
}
// ---- first use from several threads at once, each in a process of its own
static std::atomic<int> g_at, g_bad; static std::atomic<unsigned> g_n;
static void * first (void * a)
{
  int p = (int) (intptr_t) a; g_at++; while (g_at < (int) g_n) {}
  bool v = iot_thread_priority_valid (p); if (v != (p >= 1 && p <= 99)) g_bad = p ? p : -12345;
  return NULL;
}
static void first_use (Rng & r) { pthread_t t[8]; g_at = 0; g_bad = 0; g_n = 2 + (unsigned) r.below (7); for (unsigned k = 0; k < g_n; k++) VH_CHECK (pthread_create (&t[k], NULL, first, (void *) (intptr_t) r.pick (PRIO)) == 0, "harness", "thread"); for (unsigned k = 0; k < g_n; k++) pthread_join (t[k], NULL); }
static void m_first (Rng & r, uint64_t)
{
  if (arg_int ("fork", 0))
  {
    pid_t p = fork (); if (p == 0) { first_use (r); _exit (g_bad ? 1 : 0); }
    int st = 0; while (waitpid (p, &st, 0) < 0) {}
    VH_CHECK (WIFEXITED (st) && WEXITSTATUS (st) == 0, "priority-valid-first", "an invalid priority taken as valid (or a valid one as invalid) when several threads ask first");
  }
  else { first_use (r); VH_CHECK (!g_bad, "priority-valid-first", "priority %d misjudged when several threads ask first", g_bad.load ()); }
  count ("first_uses"); evaluation (); distinct (r.next ());
}
// ---- mutexes and the threads of a component
struct Mx { pthread_mutex_t m; pthread_cond_t c; uint64_t n = 0, target = 0; std::atomic<int> in { 0 }; uint64_t turn = 0; unsigned who = 0; };
struct Mw { Mx * x; unsigned k, total; uint64_t rounds; pthread_t t; };
static void * locker (void * a)
{
  Mw * w = (Mw *) a; Mx * x = w->x;
  for (uint64_t i = 0; i < w->rounds; i++)
  {
    if (i % 5 == 4) { if (pthread_mutex_trylock (&x->m) != 0) { count ("locks_found_held"); VH_CHECK (pthread_mutex_lock (&x->m) == 0, "mutex-lock", "lock failed"); } } else VH_CHECK (pthread_mutex_lock (&x->m) == 0, "mutex-lock", "lock failed");
    VH_CHECK (x->in++ == 0, "mutex-exclusion", "two threads hold the lock"); x->n++; if (i % 8 == 0) sched_yield ();
    x->in--;
    if (i % 16 == 15) { while (x->turn != w->k && x->who == w->total) pthread_cond_wait (&x->c, &x->m); x->turn = (x->turn + 1) % w->total; pthread_cond_broadcast (&x->c); }
    VH_CHECK (pthread_mutex_unlock (&x->m) == 0, "mutex-unlock", "unlock failed");
  }
  pthread_mutex_lock (&x->m); x->who = 0; pthread_cond_broadcast (&x->c); pthread_mutex_unlock (&x->m);   // whoever is done no longer takes turns
  return NULL;
}
static void m_mutex (Rng & r, uint64_t)
{
  Mx * x = new Mx; memset ((void *) &x->m, (int) r.below (256), sizeof x->m); iot_mutex_init (&x->m); pthread_cond_init (&x->c, NULL); unsigned n = 2 + (unsigned) r.below (4); Mw w[5]; uint64_t sum = 0; x->who = n;
  for (unsigned k = 0; k < n; k++) { w[k].x = x; w[k].k = k; w[k].total = n; w[k].rounds = 10 + r.below (200); sum += w[k].rounds; }
  for (unsigned k = 0; k < n; k++) VH_CHECK (pthread_create (&w[k].t, NULL, locker, &w[k]) == 0, "harness", "thread");
  for (unsigned k = 0; k < n; k++) pthread_join (w[k].t, NULL);
  VH_CHECK (x->n == sum, "mutex-count", "%lu increments under the lock, %lu counted", (unsigned long) sum, (unsigned long) x->n);
  VH_CHECK (pthread_mutex_destroy (&x->m) == 0, "mutex-destroy", "destroy failed"); pthread_cond_destroy (&x->c); delete x; count ("increments", sum); evaluation (); distinct (r.next ());
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "create", m_create, true }, { "prio", m_prio, true }, { "first", m_first, false }, { "mutex", m_mutex, true } };
  return run (argc, argv, modes, 4);
}
