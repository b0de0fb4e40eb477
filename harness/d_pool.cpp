// C15, C16: thread pool. Controlled mode: every job waits at a gate the controller opens, so what is queued, running and due next is known exactly.
// Stress modes: jobs and callers record events on a global clock, judged afterwards.
// LINK: -Wl,--wrap=iot_wait_msecs,--wrap=pthread_setschedparam,--wrap=pthread_setschedprio,--wrap=pthread_getschedparam,--wrap=geteuid
#include "vh.hpp"
#include "prio.hpp"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include "iot/time.h"
#include "iot/logger.h"
#include <pthread.h>
#include <semaphore.h>
#include <algorithm>
#include <deque>
using namespace vh;
extern "C" void __wrap_iot_wait_msecs (uint64_t) { usleep (50); }   // the pool polls with this while it waits for its threads
static int g_born;   // what the pool's threads must start at, -1 if that is not determined
static void at_priority (int want) { if (want == IOT_THREAD_NO_PRIORITY) { if (g_born >= 0 && !vh::sched.touched) { VH_CHECK (vh::sched.prio == g_born, "pool-default-priority", "a thread of a pool of default priority %d has priority %d", g_born, vh::sched.prio); count ("jobs_at_the_default_priority"); } return; } VH_CHECK (vh::sched.prio == want || vh::sched.refused == want, "pool-priority", "a job of priority %d runs on a thread of priority %d", want, vh::sched.prio); vh::sched.refused = INT32_MIN; count (vh::sched.prio == want ? "jobs_at_their_priority" : "jobs_refused_their_priority"); }
// every pool is given a logger nobody else keeps
static std::atomic<unsigned> g_lines;
static void sink (iot_logger_t *, iot_loglevel_t, uint64_t, const char *, const void *) { g_lines++; }
static iot_threadpool_t * pool (unsigned threads, uint32_t max, Rng & r)
{
  g_refuse_prio = r.chance (1, 2) ? 0 : 1 + (unsigned) r.below (4);
  int dp = r.chance (1, 2) ? IOT_THREAD_NO_PRIORITY : (int) r.below (100); refuse_rt = r.chance (1, 4) && !fail_threads ? (int) r.below (3) : 0; g_euid = r.chance (1, 4) ? 1000 : 0;
  g_born = refuse_rt ? -1 : g_euid || dp < 1 ? 0 : dp;
  iot_logger_t * l = r.chance (1, 2) ? NULL : iot_logger_alloc_custom ("pool", r.chance (1, 2) ? IOT_LOG_TRACE : IOT_LOG_WARN, true, NULL, sink, NULL, NULL);
  iot_threadpool_t * p = iot_threadpool_alloc ((uint16_t) threads, max, dp, IOT_THREAD_NO_AFFINITY, l); iot_logger_free (l); refuse_rt = 0; return p;
}
static std::atomic<uint64_t> g_clock { 1 };
static uint64_t tick () { return g_clock.fetch_add (1); }
static const uint64_t LIMIT = 20000000000ull;
struct Job { int id; int prio; std::atomic<int> runs { 0 }; std::atomic<bool> wrong { false }; sem_t gate; uint64_t sub_inv = 0, sub_res = 0; std::atomic<uint64_t> start { 0 }, end { 0 }; std::atomic<uint64_t> tid { 0 }; bool accepted = false; unsigned work = 0; int child = -1; };
static const int MAXJ = 4096;
static Job g_jobs[MAXJ]; static int g_njobs;
static std::atomic<int> g_order[MAXJ]; static std::atomic<int> g_taken, g_starts, g_ends;
static void reset_jobs () { for (int k = 0; k < g_njobs; k++) sem_destroy (&g_jobs[k].gate); g_njobs = 0; g_taken = 0; g_starts = 0; g_ends = 0; g_clock = 1; }
static Job & fresh (int prio)
{
  if (g_njobs >= MAXJ) { fprintf (stderr, "harness: too many jobs\n"); exit (2); }
  Job & j = g_jobs[g_njobs]; j.id = g_njobs++; j.prio = prio; j.runs = 0; j.wrong = false; sem_init (&j.gate, 0, 0); j.sub_inv = j.sub_res = 0; j.start = 0; j.end = 0; j.tid = 0; j.accepted = false; j.work = 0; j.child = -1; return j;
}
static void * gated (void * a)
{
  Job * j = (Job *) a; j->runs++; j->start = tick (); j->tid = (uint64_t) pthread_self (); at_priority (j->prio);
  g_order[j->id] = g_taken.fetch_add (1); g_starts++;
  while (sem_wait (&j->gate) != 0) {}
  j->end = tick (); g_ends++;
  return NULL;
}
struct Waiter { iot_threadpool_t * p; uint64_t inv = 0; std::atomic<uint64_t> res { 0 }; pthread_t t; };
static void * waiter (void * a) { Waiter * w = (Waiter *) a; iot_threadpool_wait (w->p); w->res = tick (); return NULL; }
struct Sub { iot_threadpool_t * p; Job * j; std::atomic<bool> done { false }; bool seen = false; pthread_t t; };
static void * submitter (void * a) { Sub * s = (Sub *) a; iot_threadpool_add_work (s->p, gated, s->j, s->j->prio); s->j->sub_res = tick (); s->done = true; return NULL; }
// a waiter may return only if at some moment of the call no accepted job was queued or running
static void judge_waiters (Waiter * ws, unsigned n)
{
  std::vector<std::pair<uint64_t, uint64_t>> busy; for (int k = 0; k < g_njobs; k++) if (g_jobs[k].accepted && g_jobs[k].end > g_jobs[k].sub_res) busy.push_back ({ g_jobs[k].sub_res, g_jobs[k].end });
  std::sort (busy.begin (), busy.end ());
  for (unsigned k = 0; k < n; k++)
  {
    uint64_t at = ws[k].inv; for (auto & b : busy) { if (b.first > at) break; at = std::max (at, b.second); }
    VH_CHECK (at < ws[k].res, "pool-wait-early", "a wait from %llu to %llu returned though a job was queued or running throughout (to %llu)", (unsigned long long) ws[k].inv, (unsigned long long) ws[k].res.load (), (unsigned long long) at);
    count ("waits_judged"); evaluation ();
  }
}
static const int PR[] = { IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_PRIORITY, 0, 1, 2, 5, 50, 99, -7 };
static bool before (int a, int b) { if (a == IOT_THREAD_NO_PRIORITY) return false; return b == IOT_THREAD_NO_PRIORITY || b < a; }   // a runs before an earlier b
static void m_ctl (Rng & r, uint64_t)
{
  reset_jobs ();
  unsigned T = 1 + (unsigned) r.below (r.chance (1, 2) ? 2 : 6); uint32_t M = r.chance (1, 3) ? 0 : 1 + (uint32_t) r.below (r.chance (1, 2) ? 3 : 12); bool prios = r.chance (3, 4); unsigned np = 1 + (unsigned) r.below (9);
  unsigned fail_some = 0;
  if (r.chance (1, 10)) { fail_some = 1; }
  iot_threadpool_t * p;
  if (fail_some) { // the last thread cannot be created: the pool works with those it has
    p = NULL; T = 1 + T % 3;
  }
  p = pool (T, M, r);
  std::vector<int> q, busy; static Waiter ws[64]; unsigned nw = 0, joined = 0; static Sub ss[64]; unsigned nsub = 0; bool running = false; int started = 0;
  std::deque<int> blocked;   // indices of ss waiting for room
  uint64_t f = T * 64 + M;
  auto model_insert = [&] (int id) { size_t k = q.size (); if (g_jobs[id].prio != IOT_THREAD_NO_PRIORITY) for (k = 0; k < q.size () && !before (g_jobs[id].prio, g_jobs[q[k]].prio); k++) {} q.insert (q.begin () + (long) k, id); };
  auto settle = [&] () {
    for (;;)
    {
      std::vector<int> expect;
      while (running && busy.size () + expect.size () < T && !q.empty ()) { expect.push_back (q[0]); q.erase (q.begin ()); }
      uint64_t t0 = now_ns ();
      while (g_starts < started + (int) expect.size ()) { VH_CHECK (now_ns () - t0 < LIMIT, "pool-not-started", "%zu of %zu queued jobs not started within 20 s with %u of %u threads free", started + expect.size () - (size_t) g_starts, expect.size (), T - (unsigned) busy.size (), T); if (now_ns () - t0 > 100000) usleep (20); else sched_yield (); }
      if (expect.empty ()) break;
      for (int id : expect)
      {
        Job & j = g_jobs[id];
        if (j.runs != 1 || g_order[id] < started || g_order[id] >= started + (int) expect.size ())
        {
          int got = -1; for (int k = 0; k < g_njobs; k++) if (g_jobs[k].runs && g_order[k] >= started) { bool e = false; for (int x : expect) if (x == k) e = true; if (!e) got = k; }
          fail ("pool-order", "job %d (priority %d) started instead of job %d (priority %d) though that comes first", got, got >= 0 ? g_jobs[got].prio : 0, id, j.prio);
        }
        busy.push_back (id);
      }
      started += (int) expect.size (); evaluation (expect.size ());
      // room appeared for blocked submitters, one each
      unsigned room = M ? M - (unsigned) q.size () : 1000; unsigned enter = (unsigned) std::min<size_t> (room, blocked.size ());
      t0 = now_ns (); 
      while (enter)
      {
        bool any = false;
        for (size_t k = 0; k < blocked.size () && enter; k++) { Sub & s = ss[blocked[k]]; if (s.done) { s.j->accepted = true; model_insert (s.j->id); blocked.erase (blocked.begin () + (long) k); enter--; any = true; count ("blocked_submitters_resumed"); break; } }
        if (!any) { VH_CHECK (now_ns () - t0 < LIMIT, "pool-submitter-stuck", "a blocked submitter has not resumed 20 s after room appeared (%zu of %u queued)", q.size (), M); usleep (20); }
        // several that resumed together may have been queued in either order; only one at a time is admitted by construction below
      }
    }
    VH_CHECK (g_starts == started, "pool-overrun", "a job started with %zu of %u threads busy, %s", busy.size (), T, running ? "running" : "stopped");
    for (int k : blocked) VH_CHECK (!ss[k].done, "pool-bound", "a submitter did not block with %zu jobs queued (limit %u)", q.size (), M);
    VH_CHECK (busy.size () <= T, "pool-threads", "%zu jobs running on %u threads", busy.size (), T);
  };
  unsigned steps = 20 + (unsigned) r.below (60); if (r.chance (2, 3)) { iot_threadpool_start (p); running = true; settle (); }
  auto release = [&] () { size_t k = r.below (busy.size ()); int id = busy[k]; busy.erase (busy.begin () + (long) k); int e = g_ends; sem_post (&g_jobs[id].gate); uint64_t t0 = now_ns (); while (g_ends == e) { VH_CHECK (now_ns () - t0 < LIMIT, "harness", "job did not end"); sched_yield (); } };
  for (unsigned k = 0; k < steps; k++)
  {
    unsigned op = (unsigned) r.below (16); int prio = prios ? PR[r.below (np)] : IOT_THREAD_NO_PRIORITY;
    if (op < 7)
    {
      bool full = M && q.size () >= M; Job & j = fresh (prio); 
      if (full && r.chance (1, 3) && nsub < 60 && blocked.size () < 3 && T - busy.size () <= 1)   // with more threads free, which of the queued and the resumed come first is a race
      {
        Sub & s = ss[nsub]; s.p = p; s.j = &j; s.done = false; s.seen = false; blocked.push_back ((int) nsub++); pthread_create (&s.t, NULL, submitter, &s); log_op ("add job %d prio %d blocks", j.id, prio);
        if (r.chance (1, 4)) usleep (200);
      }
      else
      {
        bool wait = !full && blocked.empty () && r.chance (1, 2), ok = true;
        if (!blocked.empty () && !full) continue;
        j.sub_inv = tick (); if (wait) iot_threadpool_add_work (p, gated, &j, prio); else ok = iot_threadpool_try_work (p, gated, &j, prio); j.sub_res = tick ();
        log_op ("%s job %d prio %d -> %d (%zu queued)", wait ? "add" : "try", j.id, prio, ok, q.size ());
        VH_CHECK (ok == !full, "pool-try", "try_work returned %d with %zu jobs queued (limit %u)", ok, q.size (), M);
        if (ok) { j.accepted = true; model_insert (j.id); } else count ("refused");
      }
      f = f * 31 + (uint64_t) (prio + 10);
    }
    else if (op < 12) { if (!busy.empty () && (running || blocked.empty () || T == busy.size ())) { log_op ("release"); release (); if (!running && r.chance (1, 8)) usleep (300); f = f * 31 + 1; } }
    else if (op < 13) { log_op (running ? "stop" : "start"); if (running) { iot_threadpool_stop (p); running = false; count ("stops"); } else { iot_threadpool_start (p); running = true; } f = f * 31 + 2; }
    else if (op < 14) { if (nw < 60) { Waiter & w = ws[nw++]; w.p = p; w.res = 0; w.inv = tick (); pthread_create (&w.t, NULL, waiter, &w); f = f * 31 + 3; } }
    else if (r.chance (1, 4) && (running || blocked.empty ())) while (!busy.empty ()) { release (); settle (); }
    settle (); distinct (f); progress ();
    if (busy.empty () && q.empty ()) { uint64_t t0 = now_ns (); for (; joined < nw; joined++) { while (!ws[joined].res) { VH_CHECK (now_ns () - t0 < LIMIT, "pool-wait-stuck", "a waiter (of %u) has not returned 20 s after the pool became idle", nw - joined); usleep (20); } pthread_join (ws[joined].t, NULL); } }
  }
  bool discard = r.chance (1, 4) && blocked.empty ();   // destroy with jobs still queued: they never run
  if (discard) for (unsigned k = joined; k < nw; k++) if (!ws[k].res) { discard = false; break; }
  if (!discard) { if (!running) { iot_threadpool_start (p); running = true; settle (); } while (!busy.empty ()) { release (); settle (); } 
    VH_CHECK (q.empty () && blocked.empty (), "harness", "not drained"); }
  else { if (running) { iot_threadpool_stop (p); running = false; } while (!busy.empty ()) { release (); settle (); } count ("jobs_discarded", q.size ()); if (!q.empty ()) count ("destroyed_with_jobs"); }
  if (!discard) for (; joined < nw; joined++) { uint64_t t0 = now_ns (); while (!ws[joined].res) { VH_CHECK (now_ns () - t0 < LIMIT, "pool-wait-stuck", "a waiter has not returned 20 s after the pool became idle"); usleep (20); } pthread_join (ws[joined].t, NULL); }
  else for (; joined < nw; joined++) pthread_join (ws[joined].t, NULL);
  for (unsigned k = 0; k < nsub; k++) pthread_join (ss[k].t, NULL);
  int before_free = g_starts; iot_threadpool_free (p);
  VH_CHECK (g_starts == before_free, "pool-run-after-free", "a job ran while or after the pool was destroyed");
  for (int k = 0; k < g_njobs; k++) { Job & j = g_jobs[k]; bool left = std::find (q.begin (), q.end (), k) != q.end (); VH_CHECK (j.runs == (j.accepted && !left ? 1 : 0), "pool-runs", "job %d (%s) ran %d times", k, j.accepted ? "accepted" : "refused", j.runs.load ()); }
  judge_waiters (ws, nw); wait_threads ("pool-threads-left", 0);
  count ("jobs_run", (uint64_t) g_ends); evaluation ();
  if (want_sample ()) show ("%u threads, limit %u, %d jobs, %u waiters, %u blocked submitters%s", T, M, g_njobs, nw, nsub, discard ? ", destroyed with jobs queued" : "");
}
// ---- stress
struct Ctx { iot_threadpool_t * p; unsigned T; uint32_t M; std::atomic<int> next { 0 }, active { 0 }, peak { 0 }; int limit; bool prios; unsigned work; std::atomic<bool> quit { false }; };
static Ctx * g_ctx;
static void spin (unsigned n) { for (volatile unsigned k = 0; k < n; k++) {} }
static void * free_job (void * a);
static void submit (Ctx * c, Job & j, bool tryit)
{
  j.sub_inv = tick (); bool ok = true;
  if (tryit) ok = iot_threadpool_try_work (c->p, free_job, &j, j.prio); else iot_threadpool_add_work (c->p, free_job, &j, j.prio);
  j.sub_res = tick (); j.accepted = ok; if (!ok) count ("refused");
}
static void * free_job (void * a)
{
  Job * j = (Job *) a; Ctx * c = g_ctx; int act = c->active.fetch_add (1) + 1; j->start = tick (); j->runs++; j->tid = (uint64_t) pthread_self (); at_priority (j->prio);
  int pk = c->peak; while (act > pk && !c->peak.compare_exchange_weak (pk, act)) {}
  VH_CHECK (act <= (int) c->T, "pool-threads", "%d jobs running at once on %u threads", act, c->T);
  spin (j->work);
  if (j->child >= 0) submit (c, g_jobs[j->child], true);
  j->end = tick (); c->active.fetch_sub (1); g_ends++;
  return NULL;
}
static void * s_submit (void * a) { Ctx * c = (Ctx *) a; for (;;) { int k = c->next.fetch_add (1); if (k >= c->limit) return NULL; Job & j = g_jobs[k]; submit (c, j, (k * 2654435761u >> 7) & 1); if (k % 16 == 0) sched_yield (); } }
static void * s_wait (void * a) { Waiter * w = (Waiter *) a; w->inv = tick (); iot_threadpool_wait (w->p); w->res = tick (); return NULL; }
struct Tog { Ctx * c; std::vector<std::pair<uint64_t, uint64_t>> off; unsigned n = 0; };
static void * s_toggle (void * a)
{
  Tog * t = (Tog *) a; Rng r (t->c->limit);
  while (!t->c->quit) { iot_threadpool_stop (t->c->p); uint64_t x = tick (); usleep ((unsigned) r.below (150)); uint64_t y = tick (); iot_threadpool_start (t->c->p); if (t->off.size () < 400) t->off.push_back ({ x, y }); t->n++; usleep ((unsigned) r.below (300)); }
  return NULL;
}
static void m_stress (Rng & r, uint64_t)
{
  reset_jobs (); Ctx c; g_ctx = &c; c.T = 1 + (unsigned) r.below (8); c.M = r.chance (1, 4) ? 0 : 1 + (uint32_t) r.below (r.chance (1, 2) ? 3 : 40); c.prios = r.chance (1, 4); c.work = r.chance (1, 2) ? 0 : 3000;
  unsigned n = 40 + (unsigned) r.below (r.chance (1, 5) ? 1500 : 300), ns = 1 + (unsigned) r.below (4), nw = (unsigned) r.below (4); bool tog = r.chance (1, 2), hold = r.chance (1, 4);
  for (unsigned k = 0; k < n; k++) { Job & j = fresh (c.prios ? PR[r.below (8)] : IOT_THREAD_NO_PRIORITY); j.work = c.work ? (unsigned) r.below (c.work) : 0; }
  c.limit = (int) n; for (unsigned k = 0; k < n; k++) if (r.chance (1, 12)) { Job & ch = fresh (IOT_THREAD_NO_PRIORITY); g_jobs[k].child = ch.id; }
  c.p = pool (c.T, c.M, r);
  pthread_t ts[8], tt; static Waiter ws[16]; Tog tg; tg.c = &c;
  iot_threadpool_start (c.p);
  for (unsigned k = 0; k < ns; k++) pthread_create (&ts[k], NULL, s_submit, &c);
  for (unsigned k = 0; k < nw; k++) { ws[k].p = c.p; ws[k].res = 0; pthread_create (&ws[k].t, NULL, s_wait, &ws[k]); }
  if (tog) pthread_create (&tt, NULL, s_toggle, &tg);
  if (hold) for (int k = 0; k < 40; k++) { iot_threadpool_add_ref (c.p); if (k % 4 == 0) sched_yield (); iot_threadpool_free (c.p); }
  for (unsigned k = 0; k < ns; k++) pthread_join (ts[k], NULL);
  if (tog) { c.quit = true; pthread_join (tt, NULL); count ("stops", tg.n); }
  ws[nw].p = c.p; s_wait (&ws[nw]); nw++;
  bool last_wait = true; for (int k = 0; k < g_njobs; k++) if (g_jobs[k].accepted && !g_jobs[k].end) last_wait = false;
  VH_CHECK (last_wait, "pool-wait-early", "the last wait returned before every accepted job had run");
  uint64_t t0 = now_ns (); for (unsigned k = 0; k + 1 < nw; k++) { while (!ws[k].res) { VH_CHECK (now_ns () - t0 < LIMIT, "pool-wait-stuck", "a waiter has not returned 20 s after the pool became idle"); usleep (20); } pthread_join (ws[k].t, NULL); }
  iot_threadpool_free (c.p); wait_threads ("pool-threads-left", 0);
  uint64_t acc = 0; for (int k = 0; k < g_njobs; k++) { Job & j = g_jobs[k]; VH_CHECK (j.runs == (j.accepted ? 1 : 0), "pool-runs", "job %d (%s) ran %d times", k, j.accepted ? "accepted" : "refused", j.runs.load ()); acc += j.accepted; }
  judge_waiters (ws, nw);
  // while stopped, a thread may at most begin the one job it had taken
  for (auto & o : tg.off)
  {
    uint64_t seen[64]; unsigned m = 0;
    for (int k = 0; k < g_njobs; k++) if (g_jobs[k].start > o.first && g_jobs[k].start < o.second)
    {
      for (unsigned x = 0; x < m; x++) VH_CHECK (seen[x] != g_jobs[k].tid, "pool-start-stopped", "one thread started two jobs while the pool was stopped");
      if (m < 64) seen[m++] = g_jobs[k].tid;
    }
    evaluation ();
  }
  // submission order: without priorities, a job accepted wholly before another never starts after that one ended
  if (!c.prios && c.T == 1)
  {
    std::vector<int> a; for (int k = 0; k < g_njobs; k++) if (g_jobs[k].accepted) a.push_back (k);
    std::vector<int> b = a; std::sort (a.begin (), a.end (), [] (int x, int y) { return g_jobs[x].sub_inv < g_jobs[y].sub_inv; }); std::sort (b.begin (), b.end (), [] (int x, int y) { return g_jobs[x].sub_res < g_jobs[y].sub_res; });
    size_t z = 0; uint64_t latest = 0; int who = -1;
    for (int y : a) { while (z < b.size () && g_jobs[b[z]].sub_res < g_jobs[y].sub_inv) { if (g_jobs[b[z]].start > latest) { latest = g_jobs[b[z]].start; who = b[z]; } z++; } VH_CHECK (g_jobs[y].start > latest, "pool-order", "job %d submitted later than job %d was started before it", y, who); }
  }
  count ("jobs_run", acc); evaluation (acc); distinct (Rng::mix (c.T * 64 + c.M * 4096 + (uint64_t) c.peak) ^ acc); { uint64_t f = 3; for (int k = 0; k < g_njobs; k++) f = f * 1099511628211ull + g_jobs[k].start % 7 + (g_jobs[k].tid >> 12) % 5; distinct (f); }
  if (want_sample ()) show ("%u threads, limit %u, %llu jobs accepted of %d, peak %d at once", c.T, c.M, (unsigned long long) acc, g_njobs, c.peak.load ());
}
// ---- destruction: from outside with jobs queued and running, from a job, by the last of several reference holders
struct D { iot_threadpool_t * p; std::atomic<bool> freed { false }; std::atomic<uint64_t> freed_at { 0 }; };
static D g_d;
static void * quick (void * a) { Job * j = (Job *) a; j->runs++; j->start = tick (); spin (j->work); j->end = tick (); g_ends++; return NULL; }
static void * destroyer (void * a) { Job * j = (Job *) a; j->runs++; j->start = tick (); spin (j->work); iot_threadpool_free (g_d.p); g_d.freed_at = tick (); g_d.freed = true; j->end = tick (); g_ends++; return NULL; }
static void * releaser (void * a) { usleep ((unsigned) (uintptr_t) a); iot_threadpool_free (g_d.p); return NULL; }
static void m_free (Rng & r, uint64_t)
{
  reset_jobs (); unsigned T = 1 + (unsigned) r.below (5), n = (unsigned) r.below (40); int kind = (int) r.below (5); g_d.freed = false; g_d.freed_at = 0;
  thread_start_delay_us = r.chance (1, 4) ? 300 : 0;
  unsigned nf = kind == 4 ? 1 + (unsigned) r.below (T) : 0; 
  iot_threadpool_t * p = g_d.p = pool (T, 0, r);
  (void) nf; int die = kind == 1 ? (int) r.below (n + 1) : -1; bool start_first = r.chance (1, 2), stop = r.chance (1, 4), never = r.chance (1, 8) && kind == 0;
  if (start_first && !never) iot_threadpool_start (p);
  unsigned work = r.chance (1, 2) ? 0 : 20000;
  pthread_t th[8]; unsigned holders = kind == 2 ? 1 + (unsigned) r.below (5) : 0; for (unsigned k = 0; k < holders; k++) iot_threadpool_add_ref (p);
  if (kind == 1) iot_threadpool_add_ref (p);   // the driver's own use while it submits; the job holds the other
  int k0 = 0;
  for (unsigned k = 0; k <= n; k++)
  {
    Job & j = fresh (IOT_THREAD_NO_PRIORITY); j.work = work ? (unsigned) r.below (work) : 0; k0++;
    j.sub_inv = tick (); j.accepted = iot_threadpool_try_work (p, (int) k == die ? destroyer : quick, &j, IOT_THREAD_NO_PRIORITY); j.sub_res = tick ();
    VH_CHECK (j.accepted, "pool-try", "refused though there is no limit");
  }
  if (!start_first && !never) iot_threadpool_start (p);
  if (stop && kind != 1) iot_threadpool_stop (p);
  if (kind == 1)
  {
    iot_threadpool_free (p); uint64_t mine = tick ();   // whoever is last destroys it: this thread (then the job's is not the last) or the job
    uint64_t t0 = now_ns (); while (!g_d.freed) { VH_CHECK (now_ns () - t0 < LIMIT, "pool-free-stuck", "destroying the pool from its own job has not returned in 20 s (or the job never ran)"); usleep (20); }
    wait_threads ("pool-threads-left", 0); count ("destroyed_from_job");
    for (int k = 0; k < k0; k++) VH_CHECK (k == die || g_jobs[k].start < std::max (mine, g_d.freed_at.load ()), "pool-run-after-free", "job %d started after the pool was destroyed", k);
  }
  else if (kind == 2)
  {
    for (unsigned k = 0; k < holders; k++) pthread_create (&th[k], NULL, releaser, (void *) (uintptr_t) r.below (200));
    iot_threadpool_free (p); for (unsigned k = 0; k < holders; k++) pthread_join (th[k], NULL);
    count ("destroyed_by_racing_holders");
    int s = 0; for (int k = 0; k < k0; k++) { s += g_jobs[k].start != 0; VH_CHECK (!g_jobs[k].start == !g_jobs[k].end, "pool-free-early", "job %d still running after the pool was destroyed", k); }
    wait_threads ("pool-threads-left", 0); (void) s;
  }
  else
  {
    if (r.chance (1, 2)) usleep ((unsigned) r.below (200));
    uint64_t a = tick (); (void) a; iot_threadpool_free (p); uint64_t b = tick ();
    for (int k = 0; k < k0; k++) VH_CHECK (!g_jobs[k].start == !g_jobs[k].end, "pool-free-early", "job %d still running after the pool was destroyed", k);
    wait_threads ("pool-threads-left", 0); for (int k = 0; k < k0; k++) VH_CHECK (g_jobs[k].start < b, "pool-run-after-free", "job %d started after the pool was destroyed", k);
    count (never ? "destroyed_never_started" : "destroyed_outside");
  }
  int ran = 0; for (int k = 0; k < k0; k++) { VH_CHECK (g_jobs[k].runs <= 1, "pool-runs", "job %d ran %d times", k, g_jobs[k].runs.load ()); ran += g_jobs[k].runs; }
  thread_start_delay_us = 0;
  evaluation ((uint64_t) k0); distinct ((uint64_t) kind * 1000003 + T * 10007 + n * 101 + (uint64_t) ran * 7 + work); count ("jobs_run", (uint64_t) ran); count ("jobs_discarded", (uint64_t) (k0 - ran));
  // threads that cannot be created: the pool works with those it got, and can be destroyed
  if (r.chance (1, 4))
  {
    reset_jobs (); unsigned fails = 2 * (1 + (unsigned) r.below (2)); fail_threads = (int) fails;
    iot_threadpool_t * q = pool (1 + (unsigned) r.below (3), 0, r); fail_threads = 0; iot_threadpool_start (q); iot_threadpool_free (q); wait_threads ("pool-threads-left", 0); count ("pools_short_of_threads");
  }
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "ctl", m_ctl, true }, { "stress", m_stress, true }, { "free", m_free, true } };
  return run (argc, argv, modes, 3);
}
