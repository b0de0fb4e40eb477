// C19: component lifecycle. Oracles: the transition rule below, applied sequentially, and by a linearizability search to concurrent histories.
#include "lin.hpp"
#include "iot/component.h"
#include "iot/logger.h"
#include "iot/thread.h"
#include <pthread.h>
#include <set>
#include <algorithm>
using namespace vh;
enum { SET, LOCKREAD, WAIT, WAITLOCK, ADDREF, DECREF };
struct S { uint32_t st = 0; uint64_t hash () const { return st; } };
static bool legal (uint32_t from, uint32_t to) { if (from == to) return false; if (to == IOT_COMPONENT_DELETED) return from != IOT_COMPONENT_RUNNING; return from != IOT_COMPONENT_DELETED; }
static bool apply (S & s, const lin::Op & o)
{
  switch (o.kind)
  {
    case SET: if (legal (s.st, (uint32_t) o.arg)) { if (!o.pending && !o.ret) return false; s.st = (uint32_t) o.arg; return true; } return o.pending || !o.ret;
    case LOCKREAD: return s.st == (uint32_t) o.ret;
    default: return s.st == (uint32_t) o.ret && (s.st & (uint32_t) o.arg);
  }
}
static const uint32_t ST[] = { IOT_COMPONENT_STOPPED, IOT_COMPONENT_RUNNING, IOT_COMPONENT_STARTING, IOT_COMPONENT_DELETED };
static bool req (iot_component_t * c, uint32_t s) { return s == IOT_COMPONENT_STOPPED ? iot_component_set_stopped (c) : s == IOT_COMPONENT_RUNNING ? iot_component_set_running (c) : s == IOT_COMPONENT_STARTING ? iot_component_set_starting (c) : iot_component_set_deleted (c); }
static void nop (iot_component_t *) {}
static iot_component_factory_t g_fac = { "T::Comp", IOT_CATEGORY_USER, NULL, NULL, NULL, NULL };
static iot_component_t * mk () { iot_component_t * c = (iot_component_t *) calloc (1, sizeof *c); iot_component_init (c, &g_fac, nop, nop); c->name = strdup ("n"); c->config = iot_data_alloc_map (IOT_DATA_STRING); return c; }
static void rm (iot_component_t * c) { iot_component_fini (c); free (c); }
static void m_seq (Rng & r, uint64_t idx)
{
  iot_component_t * c = mk (); uint32_t st = IOT_COMPONENT_INITIAL; int64_t refs = 1; uint64_t code = idx;
  VH_CHECK (c->state == st, "comp-initial", "initial state %d", c->state);
  for (int k = 0; k < 8; k++)
  {
    uint32_t to = k < 5 ? ST[code % 4] : ST[r.below (4)]; code /= 4; bool want = legal (st, to);
    log_op ("set %u in %u", to, st);
    bool got = req (c, to); if (want) st = to;
    VH_CHECK (got == want, "comp-result", "request for %s in state %s reports %d", iot_component_state_name ((iot_component_state_t) to), iot_component_state_name ((iot_component_state_t) (want ? 0 : st)), got);
    VH_CHECK (c->state == st, "comp-state", "state is %d after a request for %u, expected %u", c->state, to, st);
    VH_CHECK (iot_component_lock (c) == (int) st && iot_component_unlock (c) == (int) st, "comp-state", "lock/unlock report another state");
    if (st)
    {
      uint32_t mask = st | (uint32_t) r.below (16);
      VH_CHECK (iot_component_wait (c, mask) == (int) st, "comp-wait", "wait returned another state");
      VH_CHECK (iot_component_wait_and_lock (c, mask) == (int) st && iot_component_unlock (c) == (int) st, "comp-wait", "wait_and_lock returned another state");
    }
    if (r.chance (1, 2)) { iot_component_add_ref (c); refs++; } else if (refs > 1) { bool last = iot_component_dec_ref (c); refs--; VH_CHECK (!last, "comp-refs", "last reference reported with %lld left", (long long) refs); }
    iot_data_t * d = iot_component_read (c);
    static const char * N[] = { "Initial", "Stopped", "Running", "", "Deleted", "", "", "", "Starting" };
    VH_CHECK (!strcmp (iot_data_string_map_get_string (d, "state"), N[st]) && !strcmp (iot_data_string_map_get_string (d, "name"), "n") && !strcmp (iot_data_string_map_get_string (d, "type"), "T::Comp") && !strcmp (iot_data_string_map_get_string (d, "category"), IOT_CATEGORY_USER), "comp-read", "state read as %s in %s", iot_data_string_map_get_string (d, "state"), N[st]);
    VH_CHECK (iot_data_string_map_get (d, "config") == c->config, "comp-read", "config");
    iot_data_free (d);
    evaluation (); distinct ((uint64_t) st * 1000003 + to * 101 + idx % 1024);
  }
  while (refs > 1) { VH_CHECK (!iot_component_dec_ref (c), "comp-refs", "last reference reported early"); refs--; }
  VH_CHECK (iot_component_dec_ref (c), "comp-refs", "last reference not reported");
  rm (c);
}
struct T { iot_component_t * c; int id; std::vector<lin::Op> plan; std::vector<lin::Op> * hist; pthread_barrier_t * bar; std::atomic<int> at { -1 }; std::atomic<bool> done { false }; unsigned delay; };
static std::atomic<uint64_t> g_clock;
static int state_of (const char * n) { for (uint32_t k : { 0u, 1u, 2u, 4u, 8u }) if (!strcmp (n, iot_component_state_name ((iot_component_state_t) k))) return (int) k; return 99; }
static void spin (unsigned n) { for (volatile unsigned k = 0; k < n; k++) {} }
static void * run_thread (void * p)
{
  T * t = (T *) p; Rng r (t->delay * 31 + t->id);
  pthread_barrier_wait (t->bar);
  for (size_t k = 0; k < t->plan.size (); k++)
  {
    lin::Op o = t->plan[k]; o.thread = t->id;
    if (t->delay) spin ((unsigned) r.below (t->delay)); else if (r.chance (1, 4)) sched_yield ();
    (*t->hist)[k].inv = o.inv = g_clock.fetch_add (1); t->at = (int) k;
    switch (o.kind)
    {
      case SET: o.ret = req (t->c, (uint32_t) o.arg); break;
      case LOCKREAD: if (o.arg) { iot_data_t * d = iot_component_read (t->c); o.ret = state_of (iot_data_string_map_get_string (d, "state")); iot_data_free (d); break; } else { o.ret = iot_component_lock (t->c); spin (200); int s = t->c->state; iot_component_state_t u = iot_component_unlock (t->c); VH_CHECK (u == o.ret && s == o.ret, "comp-locked-change", "state went from %d to %d while locked", (int) o.ret, u); break; }
      case WAIT: o.ret = iot_component_wait (t->c, (uint32_t) o.arg); break;
      default: { o.ret = iot_component_wait_and_lock (t->c, (uint32_t) o.arg); spin (200); iot_component_state_t u = iot_component_unlock (t->c); VH_CHECK (u == o.ret, "comp-locked-change", "state went from %d to %d while locked", (int) o.ret, u); break; }
    }
    o.res = g_clock.fetch_add (1); o.pending = false;
    (*t->hist)[k] = o;
  }
  t->done = true;
  return NULL;
}
static void m_conc (Rng & r, uint64_t)
{
  unsigned setters = 2 + r.below (2), waiters = r.below (3); bool del = r.chance (1, 2);
  iot_component_t * c = mk (); pthread_barrier_t bar; pthread_barrier_init (&bar, NULL, setters + waiters); g_clock = 1;
  static T ts[8]; static std::vector<lin::Op> hist[8]; pthread_t th[8]; unsigned n = setters + waiters; unsigned delay = r.chance (1, 2) ? 0 : (unsigned) r.range (50, 3000);
  for (unsigned k = 0; k < n; k++)
  {
    T & t = ts[k]; t.c = c; t.id = (int) k; t.plan.clear (); t.at = -1; t.done = false; t.delay = delay; t.bar = &bar;
    if (k < setters) for (unsigned q = 2 + r.below (4); q-- > 0; ) { lin::Op o; if (r.chance (1, 4)) { o.kind = LOCKREAD; o.arg = r.chance (1, 2); } else { o.kind = SET; o.arg = ST[r.below (del && r.chance (1, 3) ? 4 : 3)]; } t.plan.push_back (o); }
    else for (unsigned q = 1 + r.below (2); q-- > 0; ) { lin::Op o; o.kind = r.chance (1, 2) ? WAIT : WAITLOCK; o.arg = (int64_t) ((1ull << r.below (4)) | (r.chance (1, 3) ? r.below (16) : 0) | (del ? 4 : 0)); if (!del && o.arg == 4) o.arg = 1; t.plan.push_back (o); }
    lin::Op pend; pend.pending = true; pend.inv = ~0ull; hist[k].assign (t.plan.size (), pend); t.hist = &hist[k];
  }
  for (unsigned k = 0; k < n; k++) pthread_create (&th[k], NULL, run_thread, &ts[k]);
  for (unsigned k = 0; k < setters; k++) pthread_join (th[k], NULL);
  // every waiter whose mask the state satisfies must return; the others are then let go by further changes, recorded as well
  std::vector<lin::Op> extra;
  for (int round = 0; waiters; round++)
  {
    bool all = true; uint32_t need = 0;
    uint32_t st = (uint32_t) iot_component_lock (c); iot_component_unlock (c);
    for (unsigned k = setters; k < n; k++)
    {
      T & t = ts[k]; uint64_t t0 = now_ns ();
      for (;;)
      {
        if (t.done) break;
        int at = t.at; uint32_t mask = at >= 0 ? (uint32_t) t.plan[(size_t) at].arg : 15;
        if (at >= 0 && !(mask & st)) { if (t.at == at && !t.done) { all = false; need = mask; break; } continue; }
        VH_CHECK (now_ns () - t0 < 20000000000ull, "comp-lost-wakeup", "a thread waiting for states %x has not returned 20 s after the state became %x", mask, st);
        usleep (50);
      }
    }
    if (all) break;
    lin::Op o; o.kind = SET; for (uint32_t b : ST) if (need & b) { o.arg = b; break; }
    if (o.arg == IOT_COMPONENT_DELETED && st == IOT_COMPONENT_RUNNING) o.arg = IOT_COMPONENT_STOPPED;
    if (round > 50) VH_CHECK (false, "harness", "cannot release waiters");
    o.inv = g_clock.fetch_add (1); o.ret = req (c, (uint32_t) o.arg); o.res = g_clock.fetch_add (1); extra.push_back (o);
  }
  for (unsigned k = setters; k < n; k++) pthread_join (th[k], NULL);
  std::vector<lin::Op> h = extra; for (unsigned k = 0; k < n; k++) h.insert (h.end (), hist[k].begin (), hist[k].end ());
  lin::Op fin; fin.kind = LOCKREAD; fin.inv = g_clock.fetch_add (1); fin.ret = c->state; fin.res = g_clock.fetch_add (1); h.push_back (fin);
  lin::Checker<S> ck (h, apply);
  if (!ck.check (S ()))
  {
    std::string s; for (auto & o : h) s += " [" + std::to_string (o.inv) + "-" + std::to_string (o.res) + " t" + std::to_string (o.thread) + " " + (o.kind == SET ? "set" : o.kind == LOCKREAD ? "read" : "wait") + " " + std::to_string (o.arg) + " -> " + std::to_string (o.ret) + "]";
    fail ("comp-linearizable", "no order of the calls explains the results:%s", s.c_str ());
  }
  // fingerprint of the interleaving: order of events
  std::vector<std::pair<uint64_t, uint64_t>> ev; for (auto & o : h) { ev.push_back ({ o.inv, (uint64_t) o.thread * 64 + o.kind * 8 + (o.ret & 7) }); ev.push_back ({ o.res, 1000 + (uint64_t) o.thread }); }
  std::sort (ev.begin (), ev.end ()); uint64_t f = 7; for (auto & e : ev) f = (f ^ e.second) * 1099511628211ull; distinct (f);
  evaluation (h.size ()); count ("concurrent_calls", h.size ()); count ("states_searched", ck.visited); for (auto & o : h) if (o.kind == SET && o.ret) count ("changes");
  for (auto & o : h) if (o.kind >= WAIT) count ("waits_returned");
  pthread_barrier_destroy (&bar); rm (c);
  if (want_sample ()) show ("%u setters, %u waiters, %zu calls", setters, waiters, h.size ());
}
// exactly one of N racing identical requests succeeds
struct R { iot_component_t * c; uint32_t to; pthread_barrier_t * bar; int won; int lasts; unsigned n; };
static void * racer (void * p)
{
  R * x = (R *) p; x->won = 0; x->lasts = 0;
  pthread_barrier_wait (x->bar); x->won = req (x->c, x->to);
  pthread_barrier_wait (x->bar);
  for (unsigned k = 0; k < x->n; k++) { iot_component_add_ref (x->c); if (iot_component_dec_ref (x->c)) x->lasts += 100; }
  if (iot_component_dec_ref (x->c)) { x->lasts++; rm (x->c); }
  return NULL;
}
static void m_race (Rng & r, uint64_t)
{
  for (int round = 0; round < 6; round++)
  {
    iot_component_t * c = mk (); unsigned n = 2 + r.below (5); pthread_barrier_t bar; pthread_barrier_init (&bar, NULL, n); pthread_t th[8]; R rs[8];
    uint32_t from = r.below (2) ? ST[r.below (3)] : 0, to = ST[r.below (4)]; if (from) req (c, from); unsigned k2 = (unsigned) r.below (50);
    for (unsigned k = 1; k < n; k++) iot_component_add_ref (c);
    for (unsigned k = 0; k < n; k++) { rs[k] = R { c, to, &bar, 0, 0, k2 }; pthread_create (&th[k], NULL, racer, &rs[k]); }
    int won = 0, lasts = 0; for (unsigned k = 0; k < n; k++) { pthread_join (th[k], NULL); won += rs[k].won; lasts += rs[k].lasts; }
    VH_CHECK (won == (legal (from, to) ? 1 : 0), "comp-winners", "%d of %u racing requests for %u from %u told they succeeded", won, n, to, from);
    VH_CHECK (lasts == 1, "comp-refs", "last reference reported %d times", lasts);
    pthread_barrier_destroy (&bar); evaluation (2); count ("races"); distinct (from * 64 + to * 8 + n + k2 * 1000);
  }
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "seq", m_seq, true }, { "conc", m_conc, false }, { "race", m_race, false } };
  return run (argc, argv, modes, 3);
}
