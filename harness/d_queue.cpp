// C14: blocking queue. Oracles: a bounded FIFO applied sequentially; a linearizability search on small concurrent histories with blocked callers
// required to return once the queue allows it; conservation, order and real-time FIFO checks on large histories.
#include "lin.hpp"
#include "iot/queue.h"
#include <pthread.h>
#include <deque>
#include <algorithm>
using namespace vh;
enum { ENQ, DEQ, TENQ, TDEQ, SIZE, MAX, SETMAX, STOP };
static const char * NM[] = { "enqueue", "dequeue", "try_enqueue", "try_dequeue", "size", "maxsize", "setmaxsize", "stop" };
struct S {
  std::vector<int64_t> q; uint32_t max = 0; bool run = true;
  uint64_t hash () const { uint64_t h = Rng::mix (max * 2ull + run); for (int64_t v : q) h = Rng::mix (h * 3 + Rng::mix ((uint64_t) v)); return h; }
  bool full () const { return max && q.size () >= max; }
};
// ret: dequeue -> value or -1 for NULL
static bool apply (S & s, const lin::Op & o)
{
  switch (o.kind)
  {
    case ENQ: if (!s.full ()) { s.q.push_back (o.arg); return true; } return !s.run;
    case DEQ: case TDEQ:
      if (s.q.empty ()) return (o.kind == TDEQ || !s.run) && (o.pending || o.ret == -1);
      if (!o.pending && o.ret != s.q.front ()) return false;
      s.q.erase (s.q.begin ()); return true;
    case TENQ: if (s.full ()) return o.pending || !o.ret; if (!o.pending && !o.ret) return false; s.q.push_back (o.arg); return true;
    case SIZE: return o.pending || o.ret == (int64_t) s.q.size ();
    case MAX: return o.pending || o.ret == (int64_t) s.max;
    case SETMAX: s.max = (uint32_t) o.arg; return true;
    default: s.run = false; return true;
  }
}
static int64_t take (iot_data_t * d) { if (!d) return -1; int64_t v = iot_data_i64 (d); iot_data_free (d); return v; }
static int64_t perform (iot_queue_t * q, const lin::Op & o)
{
  switch (o.kind)
  {
    case ENQ: iot_queue_enqueue (q, iot_data_alloc_i64 (o.arg)); return 0;
    case DEQ: return take (iot_queue_dequeue (q));
    case TENQ: { iot_data_t * d = iot_data_alloc_i64 (o.arg); bool ok = iot_queue_try_enqueue (q, d); if (!ok) iot_data_free (d); return ok; }
    case TDEQ: return take (iot_queue_try_dequeue (q));
    case SIZE: return iot_queue_size (q);
    case MAX: return iot_queue_maxsize (q);
    case SETMAX: iot_queue_setmaxsize (q, (uint32_t) o.arg); return 0;
    default: iot_queue_stop (q); return 0;
  }
}
// sequences from one thread, never calling what would block
static void m_seq (Rng & r, uint64_t)
{
  S s; s.max = (uint32_t) r.below (5); if (r.chance (1, 8)) s.max = 0xFFFFFFFFu;
  iot_queue_t * q = iot_queue_alloc (s.max); int64_t next = 1; unsigned n = 10 + (unsigned) r.below (120); uint64_t f = s.max; unsigned bias = 1 + (unsigned) r.below (3);
  VH_CHECK (iot_queue_size (q) == 0 && iot_queue_maxsize (q) == s.max, "queue-new", "new queue has size %u and limit %u", iot_queue_size (q), iot_queue_maxsize (q));
  while (n--)
  {
    lin::Op o; unsigned k = (unsigned) r.below (14);
    o.kind = k < 3 + bias ? (r.chance (1, 2) ? TENQ : ENQ) : k < 9 ? (r.chance (1, 2) ? TDEQ : DEQ) : k < 10 ? SIZE : k < 11 ? MAX : k < 13 ? SETMAX : STOP;
    if (o.kind == STOP && r.chance (3, 4)) o.kind = SIZE;
    if (o.kind == ENQ && s.full () && s.run) o.kind = TENQ;
    if (o.kind == DEQ && s.q.empty () && s.run) o.kind = TDEQ;
    if (o.kind == ENQ || o.kind == TENQ) o.arg = next++;
    if (o.kind == SETMAX) { unsigned c = (unsigned) r.below (6); o.arg = c == 0 ? 0 : c == 1 ? (int64_t) s.q.size () : c == 2 ? (int64_t) s.q.size () / 2 : (int64_t) r.below (8); }
    bool full = s.full (), empty = s.q.empty ();
    o.ret = perform (q, o); log_op ("%s %lld -> %lld", NM[o.kind], (long long) o.arg, (long long) o.ret);
    S before = s;
    VH_CHECK (::apply (s, o), "queue-seq", "%s (%lld) returned %lld with %zu queued (first %lld), limit %u, %s", NM[o.kind], (long long) o.arg, (long long) o.ret, before.q.size (), before.q.empty () ? 0ll : (long long) before.q[0], before.max, before.run ? "running" : "stopped");
    VH_CHECK (iot_queue_size (q) == s.q.size (), "queue-size", "size %u after %s, expected %zu", iot_queue_size (q), NM[o.kind], s.q.size ());
    f = f * 31 + (uint64_t) o.kind * 4 + full * 2 + empty; evaluation (); distinct (f);
    if (!s.run) count ("calls_after_stop");
  }
  count ("items_left_for_free", s.q.size ());
  iot_queue_free (q);
}
struct T { iot_queue_t * q; int id; std::vector<lin::Op> plan; std::vector<lin::Op> * hist; pthread_barrier_t * bar; std::atomic<int> at { -1 }; std::atomic<bool> done { false }; unsigned delay; };
static std::atomic<uint64_t> g_clock;
static std::atomic<bool> g_stopped;
static void spin (unsigned n) { for (volatile unsigned k = 0; k < n; k++) {} }
static void * run_thread (void * p)
{
  T * t = (T *) p; Rng r (t->delay * 31 + (unsigned) t->id);
  pthread_barrier_wait (t->bar);
  for (size_t k = 0; k < t->plan.size (); k++)
  {
    lin::Op o = t->plan[k]; o.thread = t->id; o.pending = true;
    if (t->delay) spin ((unsigned) r.below (t->delay)); else if (r.chance (1, 4)) sched_yield ();
    o.inv = g_clock.fetch_add (1); (*t->hist)[k] = o; t->at = (int) k;
    o.ret = perform (t->q, o); if (o.kind == STOP) g_stopped = true;
    o.res = g_clock.fetch_add (1); o.pending = false;
    (*t->hist)[k] = o;
  }
  t->done = true;
  return NULL;
}
static void m_conc (Rng & r, uint64_t)
{
  unsigned n = 2 + (unsigned) r.below (4); S s0; s0.max = r.chance (1, 6) ? 0 : 1 + (uint32_t) r.below (3);
  iot_queue_t * q = iot_queue_alloc (s0.max); pthread_barrier_t bar; pthread_barrier_init (&bar, NULL, n); g_clock = 1; g_stopped = false; int64_t next = 1;
  static T ts[8]; static std::vector<lin::Op> hist[8]; pthread_t th[8]; unsigned delay = r.chance (1, 2) ? 0 : (unsigned) r.range (50, 3000);
  unsigned style = (unsigned) r.below (4); bool resize = r.chance (1, 3), stop = r.chance (1, 5);
  for (unsigned k = 0; k < n; k++)
  {
    T & t = ts[k]; t.q = q; t.id = (int) k; t.plan.clear (); t.at = -1; t.done = false; t.delay = delay; t.bar = &bar;
    unsigned role = style == 0 ? k % 2 : style == 1 ? 2 : (unsigned) r.below (3);   // producer, consumer, either
    unsigned ops = 2 + (unsigned) r.below (n > 3 ? 4 : 5);
    for (unsigned z = 0; z < ops; z++)
    {
      lin::Op o; bool prod = role == 2 ? r.chance (1, 2) : role == 0; bool blk = r.chance (2, 3);
      o.kind = prod ? (blk ? ENQ : TENQ) : (blk ? DEQ : TDEQ);
      if (resize && r.chance (1, 6)) { o.kind = SETMAX; o.arg = (int64_t) r.below (4); }
      else if (r.chance (1, 10)) o.kind = r.chance (3, 4) ? SIZE : MAX;
      else if (stop && k == 0 && z == ops - 1) o.kind = STOP;
      if (o.kind == ENQ || o.kind == TENQ) o.arg = next++;
      t.plan.push_back (o);
    }
    lin::Op pend; pend.pending = true; pend.inv = ~0ull; hist[k].assign (t.plan.size (), pend); t.hist = &hist[k];
  }
  unsigned pre = (unsigned) r.below (3);
  std::vector<lin::Op> extra;
  auto mine = [&] (int kind, int64_t a) { lin::Op o; o.kind = kind; o.arg = a; o.thread = 9; o.inv = g_clock.fetch_add (1); o.ret = perform (q, o); o.res = g_clock.fetch_add (1); extra.push_back (o); return o.ret; };
  while (pre--) mine (TENQ, next++);
  for (unsigned k = 0; k < n; k++) pthread_create (&th[k], NULL, run_thread, &ts[k]);
  // All calls must return, except those the queue really blocks; those are let go one call at a time, recorded as well. What the others
  // did is only known once everything has settled: a call that stays out while the queue allows it has missed its wake-up.
  unsigned rounds = 0; uint64_t t0 = now_ns (); 
  for (;;)
  {
    bool all = true, can = false; int stuck = -1;
    uint32_t size = iot_queue_size (q), max = iot_queue_maxsize (q);
    std::string who;
    for (unsigned k = 0; k < n; k++)
    {
      if (ts[k].done) continue;
      all = false; int at = ts[k].at; if (at < 0) { can = true; continue; }
      int kind = ts[k].plan[(size_t) at].kind; stuck = kind; who += std::string (" ") + NM[kind];
      if (kind == ENQ ? (!max || size < max) : kind == DEQ ? size > 0 : true) can = true;
    }
    if (all) break;
    if (can) { VH_CHECK (now_ns () - t0 < 20000000000ull, "queue-lost-wakeup", "calls still blocked after 20 s with %u queued and limit %u:%s", size, max, who.c_str ()); usleep (30); continue; }
    // settled? look again after a moment; only then is the queue blocking them
    uint64_t c0 = g_clock; usleep (300); if (g_clock != c0) { t0 = now_ns (); continue; }
    count ("blocked_calls_released"); rounds++;
    if (g_stopped) { VH_CHECK (now_ns () - t0 < 20000000000ull, "queue-stop-wakeup", "calls still blocked 20 s after the queue was stopped:%s", who.c_str ()); usleep (30); continue; }
    if (rounds > 6 || r.chance (1, 6)) { mine (STOP, 0); g_stopped = true; }
    else if (stuck == DEQ) mine (TENQ, next++);
    else if (r.chance (1, 3)) { mine (SETMAX, r.chance (1, 3) ? 0 : (int64_t) max + 1 + (int64_t) r.below (2)); count ("released_by_resize"); }
    else mine (TDEQ, 0);
    t0 = now_ns ();
  }
  for (unsigned k = 0; k < n; k++) pthread_join (th[k], NULL);
  mine (SIZE, 0); while (mine (TDEQ, 0) != -1) {}
  std::vector<lin::Op> h = extra; for (unsigned k = 0; k < n; k++) h.insert (h.end (), hist[k].begin (), hist[k].end ());
  if (h.size () > 64) { count ("histories_too_long"); }
  else
  {
    lin::Checker<S> ck (h, ::apply);
    if (!ck.check (s0))
    {
      std::string s; std::sort (h.begin (), h.end (), [] (const lin::Op & a, const lin::Op & b) { return a.inv < b.inv; });
      for (auto & o : h) s += " [" + std::to_string (o.inv) + "-" + std::to_string (o.res) + " t" + std::to_string (o.thread) + " " + NM[o.kind] + " " + std::to_string (o.arg) + " -> " + std::to_string (o.ret) + "]";
      fail ("queue-linearizable", "no order of the calls explains the results (limit %u):%s", s0.max, s.c_str ());
    }
    count ("states_searched", ck.visited);
  }
  std::vector<std::pair<uint64_t, uint64_t>> ev; for (auto & o : h) { ev.push_back ({ o.inv, (uint64_t) o.thread * 64 + o.kind * 4 + (o.ret == -1) }); ev.push_back ({ o.res, 1000 + (uint64_t) o.thread }); }
  std::sort (ev.begin (), ev.end ()); uint64_t f = s0.max; for (auto & e : ev) f = (f ^ e.second) * 1099511628211ull; distinct (f);
  evaluation (h.size ()); count ("concurrent_calls", h.size ());
  pthread_barrier_destroy (&bar); iot_queue_free (q);
  if (want_sample ()) show ("%u threads, limit %u, %zu calls, %u releases", n, s0.max, h.size (), rounds);
}
// large histories
struct Ev { uint64_t ei, er, di = 0, dr = 0; uint32_t by = 0; };
struct P { iot_queue_t * q; unsigned id, n; bool tries; unsigned delay; std::vector<Ev> * ev; std::atomic<unsigned> * left; std::vector<std::pair<int64_t, std::pair<uint64_t, uint64_t>>> got; std::vector<std::pair<uint64_t, uint64_t>> empties; uint64_t refused = 0; };
static void * producer (void * a)
{
  P * p = (P *) a; Rng r (p->id * 77 + p->n);
  for (unsigned k = 0; k < p->n; k++)
  {
    Ev & e = p->ev[p->id][k]; iot_data_t * d = iot_data_alloc_i64 ((int64_t) p->id << 32 | k);
    if (p->delay && r.chance (1, 8)) spin ((unsigned) r.below (p->delay));
    if (p->tries && r.chance (1, 2)) { for (;;) { e.ei = g_clock.fetch_add (1); if (iot_queue_try_enqueue (p->q, d)) break; p->refused++; sched_yield (); } }
    else { e.ei = g_clock.fetch_add (1); iot_queue_enqueue (p->q, d); }
    e.er = g_clock.fetch_add (1);
  }
  return NULL;
}
static void * consumer (void * a)
{
  P * p = (P *) a; Rng r (p->id * 99 + 5);
  for (;;)
  {
    uint64_t i = g_clock.fetch_add (1); bool tr = p->tries && r.chance (1, 2); if (p->delay && r.chance (1, 8)) spin ((unsigned) r.below (p->delay));
    iot_data_t * d = tr ? iot_queue_try_dequeue (p->q) : iot_queue_dequeue (p->q);
    uint64_t o = g_clock.fetch_add (1);
    if (d) { int64_t v = take (d); p->got.push_back ({ v, { i, o } }); }
    else { p->empties.push_back ({ i, o }); if (!tr) break; if (*p->left == 0) break; sched_yield (); }
  }
  return NULL;
}
struct Z { iot_queue_t * q; std::atomic<bool> stop { false }; uint32_t limit; uint64_t n = 0; };
static void * resizer (void * a)
{
  Z * z = (Z *) a; Rng r (z->limit);
  while (!z->stop) { iot_queue_setmaxsize (z->q, r.chance (1, 10) ? z->limit : 1 + (uint32_t) r.below (z->limit)); uint32_t s = iot_queue_size (z->q); VH_CHECK (s <= z->limit, "queue-bound", "%u queued though the limit was never above %u", s, z->limit); z->n++; usleep (20); }
  return NULL;
}
static void m_stress (Rng & r, uint64_t)
{
  unsigned np = 1 + (unsigned) r.below (4), nc = 1 + (unsigned) r.below (4), n = 50 + (unsigned) r.below (r.chance (1, 4) ? 1500 : 300); g_clock = 1;
  uint32_t limit = r.chance (1, 5) ? 0 : r.chance (1, 2) ? 1 + (uint32_t) r.below (4) : 1 + (uint32_t) r.below (100); bool resize = limit > 1 && r.chance (1, 2);
  iot_queue_t * q = iot_queue_alloc (limit); static std::vector<Ev> ev[8]; static P ps[8], cs[8]; pthread_t tp[8], tc[8], tz; Z z; z.q = q; z.limit = limit; std::atomic<unsigned> left { 1 };
  for (unsigned k = 0; k < np; k++) { ev[k].assign (n, Ev ()); ps[k] = P { q, k, n, r.chance (1, 3), r.chance (1, 2) ? 0u : 2000u, ev, &left, {}, {}, 0 }; }
  for (unsigned k = 0; k < nc; k++) { cs[k] = P { q, k, n, r.chance (1, 3), r.chance (1, 2) ? 0u : 2000u, ev, &left, {}, {}, 0 }; }
  for (unsigned k = 0; k < nc; k++) pthread_create (&tc[k], NULL, consumer, &cs[k]);
  for (unsigned k = 0; k < np; k++) pthread_create (&tp[k], NULL, producer, &ps[k]);
  if (resize) pthread_create (&tz, NULL, resizer, &z); else if (limit) for (int k = 0; k < 20; k++) { uint32_t s = iot_queue_size (q); VH_CHECK (s <= limit, "queue-bound", "%u queued with limit %u", s, limit); }
  for (unsigned k = 0; k < np; k++) pthread_join (tp[k], NULL);
  if (resize) { z.stop = true; pthread_join (tz, NULL); count ("resizes", z.n); }
  left = 0; iot_queue_stop (q);
  for (unsigned k = 0; k < nc; k++) pthread_join (tc[k], NULL);
  uint64_t li = g_clock.fetch_add (1); iot_data_t * d; uint64_t total = 0, over = 0;
  P rest {}; while ((d = iot_queue_try_dequeue (q))) { uint64_t i = g_clock.fetch_add (1); rest.got.push_back ({ take (d), { i, g_clock.fetch_add (1) } }); } (void) li;
  auto account = [&] (P & c, uint32_t who) {
    int64_t last[8]; for (auto & l : last) l = -1;
    for (auto & g : c.got)
    {
      unsigned p = (unsigned) (g.first >> 32); int64_t k = g.first & 0xFFFFFFFF;
      VH_CHECK (p < np && k < n, "queue-invented", "dequeued %llx which was never enqueued", (long long) g.first);
      Ev & e = ev[p][(size_t) k]; VH_CHECK (!e.by, "queue-duplicate", "item %u/%lld dequeued twice", p, (long long) k);
      VH_CHECK (k > last[p], "queue-order", "consumer got item %lld of producer %u after item %lld", (long long) k, p, (long long) last[p]);
      last[p] = k; e.by = who; e.di = g.second.first; e.dr = g.second.second; VH_CHECK (e.dr > e.ei, "queue-future", "item dequeued before it was enqueued"); total++;
    }
  };
  for (unsigned k = 0; k < nc; k++) account (cs[k], k + 1);
  account (rest, 99);
  VH_CHECK (total == (uint64_t) np * n, "queue-lost", "%llu items enqueued but %llu dequeued", (unsigned long long) np * n, (unsigned long long) total);
  // real-time FIFO: a enqueued wholly before b is never dequeued wholly after b
  std::vector<Ev> all; for (unsigned k = 0; k < np; k++) all.insert (all.end (), ev[k].begin (), ev[k].end ());
  std::vector<Ev> byres = all; std::sort (all.begin (), all.end (), [] (const Ev & a, const Ev & b) { return a.ei < b.ei; }); std::sort (byres.begin (), byres.end (), [] (const Ev & a, const Ev & b) { return a.er < b.er; });
  size_t j = 0; uint64_t latest = 0;
  for (auto & b : all) { while (j < byres.size () && byres[j].er < b.ei) { latest = std::max (latest, byres[j].di); j++; } VH_CHECK (b.dr > latest, "queue-fifo", "an item enqueued at %llu was dequeued by %llu, before one enqueued earlier was taken at %llu", (unsigned long long) b.ei, (unsigned long long) b.dr, (unsigned long long) latest); if (b.di < latest) over++; }
  // a dequeue told "empty" while an item was in the queue for the whole call
  for (unsigned k = 0; k < nc; k++) for (auto & e : cs[k].empties) { count ("empty_results"); if (cs[k].empties.size () < 40) for (auto & a : byres) { if (a.er >= e.first) break; VH_CHECK (a.di <= e.second, "queue-false-empty", "dequeue found nothing though an item was queued throughout"); } }
  for (unsigned k = 0; k < np; k++) count ("refused_try_enqueue", ps[k].refused);
  count ("items_through", total); count ("overlapping_reorders", over); evaluation (total); distinct (Rng::mix (total * 131 + over) ^ latest); distinct (Rng::mix (rest.got.size () * 64 + np * 8 + nc + limit * 4096));
  for (unsigned k = 0; k < 8; k++) { cs[k] = P (); ps[k] = P (); std::vector<Ev> ().swap (ev[k]); }
  iot_queue_free (q);
  if (want_sample ()) show ("%u producers, %u consumers, limit %u%s: %llu items", np, nc, limit, resize ? " (changing)" : "", (unsigned long long) total);
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "seq", m_seq, true }, { "conc", m_conc, true }, { "stress", m_stress, true } };
  return run (argc, argv, modes, 3);
}
