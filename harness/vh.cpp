#include <signal.h>
#include "vh.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#endif
extern "C" {
#if defined(VH_ASAN) || defined(VH_TSAN)
void __sanitizer_set_death_callback (void (*cb) (void)); void __sanitizer_set_report_fd (void *);
#endif
#ifdef VH_ASAN
int __sanitizer_install_malloc_and_free_hooks (void (*malloc_hook) (const volatile void *, size_t), void (*free_hook) (const volatile void *));
#endif
}
namespace vh {
void (*at_end) () = nullptr;
static const char * g_mode = "?";
static uint64_t g_seed = 1, g_index = 0;
static int g_argc; static char ** g_argv;
static std::atomic<uint64_t> g_progress {0};
static std::atomic<long> g_live {0};
static std::atomic<uint64_t> g_evals {0};
struct Counter { const char * name; std::atomic<uint64_t> n; };
static Counter g_counters[512]; static std::atomic<int> g_ncounters {0};
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static uint64_t * g_set; static const size_t g_cap = 1u << 22; static size_t g_used = 0;
static char g_samples[8][900]; static int g_nsamples = 0;
static char g_ops[64][240]; static unsigned g_opn = 0;

void log_op (const char * fmt, ...) { va_list ap; va_start (ap, fmt); vsnprintf (g_ops[g_opn++ % 64], sizeof g_ops[0], fmt, ap); va_end (ap); }
void clear_ops () { g_opn = 0; }
static void dump_ops (FILE * f)
{
  unsigned first = g_opn > 64 ? g_opn - 64 : 0;
  for (unsigned i = first; i < g_opn; i++) fprintf (f, "  op %u: %s\n", i, g_ops[i % 64]);
}
static int g_con[2] = { -1, -1 };
static void rescue () { for (int k = 0; k < 2; k++) if (g_con[k] >= 0) dup2 (g_con[k], 1 + k); }
static void report_fd (int fd) {
#if defined(VH_ASAN) || defined(VH_TSAN)
  __sanitizer_set_report_fd ((void *) (intptr_t) fd);
#endif
  (void) fd; }
void console_to (const char * out, const char * err)
{
  fflush (stdout); fflush (stderr);
  for (int k = 0; k < 2; k++) { if (g_con[k] < 0) g_con[k] = fcntl (1 + k, F_DUPFD_CLOEXEC, 100); int f = open (k ? err : out, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2 (f, 1 + k); close (f); }
  report_fd (g_con[1]);
}
void console_back () { fflush (stdout); fflush (stderr); rescue (); report_fd (2); }
static void death () { rescue (); char b[256]; int n = snprintf (b, sizeof b, "\nAT case=%s:%llu:%llu\n", g_mode, (unsigned long long) g_seed, (unsigned long long) g_index); (void) !write (2, b, n); 
  unsigned first = g_opn > 64 ? g_opn - 64 : 0;
  for (unsigned i = first; i < g_opn; i++) { char o[300]; n = snprintf (o, sizeof o, "  op %u: %s\n", i, g_ops[i % 64]); (void) !write (2, o, n); } }
static void on_abrt (int) { death (); signal (SIGABRT, SIG_DFL); raise (SIGABRT); }

void fail (const char * key, const char * fmt, ...)
{
  pthread_mutex_lock (&g_mx);
  char b[4096]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
  for (char * p = b; *p; p++) if (*p == '\n') *p = ' ';
  rescue (); printf ("VIOL key=%s case=%s:%llu:%llu msg=%s\n", key, g_mode, (unsigned long long) g_seed, (unsigned long long) g_index, b);
  dump_ops (stdout);
  fflush (stdout);
  _exit (3);
}
void count (const char * name, uint64_t n)
{
  int k = g_ncounters.load ();
  for (int i = 0; i < k; i++) if (g_counters[i].name == name || strcmp (g_counters[i].name, name) == 0) { g_counters[i].n += n; return; }
  pthread_mutex_lock (&g_mx);
  k = g_ncounters.load ();
  for (int i = 0; i < k; i++) if (strcmp (g_counters[i].name, name) == 0) { g_counters[i].n += n; pthread_mutex_unlock (&g_mx); return; }
  if (k < 512) { g_counters[k].name = name; g_counters[k].n = n; g_ncounters = k + 1; }
  pthread_mutex_unlock (&g_mx);
}
void evaluation (uint64_t n) { g_evals += n; g_progress++; }
void progress () { g_progress++; }
void distinct (uint64_t h)
{
  if (!h) h = 1;
  pthread_mutex_lock (&g_mx);
  if (g_used < g_cap / 2)
  {
    size_t i = Rng::mix (h) & (g_cap - 1);
    while (g_set[i] && g_set[i] != h) i = (i + 1) & (g_cap - 1);
    if (!g_set[i]) { g_set[i] = h; g_used++; }
  }
  pthread_mutex_unlock (&g_mx);
}
bool want_sample () { return g_nsamples < 6; }
void show (const char * fmt, ...)
{
  pthread_mutex_lock (&g_mx);
  if (g_nsamples < 6) { va_list ap; va_start (ap, fmt); vsnprintf (g_samples[g_nsamples++], 900, fmt, ap); va_end (ap); }
  pthread_mutex_unlock (&g_mx);
}
long live_allocs () { return g_live.load (); }
bool have_live_allocs ()
{
#ifdef VH_ASAN
  return true;
#else
  return false;
#endif
}
uint64_t current_case () { return g_index; }
uint64_t seed () { return g_seed; }
const char * arg (const char * name, const char * dflt)
{
  size_t n = strlen (name);
  for (int i = 1; i < g_argc; i++) if (strncmp (g_argv[i], name, n) == 0 && g_argv[i][n] == '=') return g_argv[i] + n + 1;
  return dflt;
}
long arg_int (const char * name, long dflt) { const char * v = arg (name); return v ? atol (v) : dflt; }
bool thorough () { const char * t = getenv ("VERIF_TIER"); return t && strcmp (t, "thorough") == 0; }
uint64_t hash_bytes (const void * p, size_t n, uint64_t h) { const unsigned char * c = (const unsigned char *) p; while (n--) { h ^= *c++; h *= 1099511628211ull; } return h; }
uint64_t now_ns () { struct timespec ts; clock_gettime (CLOCK_MONOTONIC, &ts); return (uint64_t) ts.tv_sec * 1000000000ull + ts.tv_nsec; }
std::string quote (const std::string & s)
{
  std::string o; char b[8];
  for (unsigned char c : s) { if (c < 32 || c >= 127 || c == '\\') { snprintf (b, sizeof b, "\\x%02x", c); o += b; } else o += (char) c; if (o.size () > 600) { o += "..."; break; } }
  return o;
}
static long g_leak_base;
void leak_scope_begin () { g_leak_base = g_live.load (); }
void leak_scope_end (const char * key)
{
  long now = g_live.load ();
  if (have_live_allocs () && now > g_leak_base) fail (key, "%ld heap blocks allocated in this case were never freed", now - g_leak_base);
}
#ifdef VH_ASAN
static thread_local int g_in_hook = 0;
static std::atomic<long> g_pages { 0 };
// Thread creation allocates blocks (thread vectors) that libc keeps with its cached stacks: not the library's, so not in the balance.
static thread_local int g_creating = 0;
static std::atomic_flag g_own_mx = ATOMIC_FLAG_INIT; static const volatile void * g_own[8192]; static long g_nown = 0;
static bool own_take (const volatile void * p)
{
  if (__builtin_expect (g_nown == 0, 1)) return false;
  bool found = false;
  while (g_own_mx.test_and_set (std::memory_order_acquire)) ;
  for (long i = 0; i < g_nown; i++) if (g_own[i] == p) { g_own[i] = g_own[--g_nown]; found = true; break; }
  g_own_mx.clear (std::memory_order_release);
  return found;
}
static bool own_put (const volatile void * p)
{
  bool ok = false;
  while (g_own_mx.test_and_set (std::memory_order_acquire)) ;
  if (g_nown < 8192) { g_own[g_nown++] = p; ok = true; }
  g_own_mx.clear (std::memory_order_release);
  return ok;
}
static void mh (const volatile void * p, size_t n) { if (p && !(g_creating && own_put (p))) { g_live.fetch_add (1, std::memory_order_relaxed); if (n == 4096) g_pages.fetch_add (1, std::memory_order_relaxed); } }
#ifdef NDEBUG
// Builds with the library's block cache: blocks are invisible to the heap hooks, so the cache itself is audited after each case.
// Every free block is drawn and put back; one drawn twice was released twice, one missing was never released.
extern "C" { void * iot_data_block_alloc (size_t) __attribute__ ((weak)); void iot_data_block_free (void *) __attribute__ ((weak)); }
static long g_free_blocks = -1, g_per_chunk = 0, g_pages_at = 0;
static void ** g_drawn; static long g_drawn_cap = 1 << 22;
static void audit_blocks (bool judge)
{
  if (!iot_data_block_alloc) return;
  if (!g_drawn) g_drawn = (void **) mmap (nullptr, g_drawn_cap * sizeof (void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  long n = 0, base = g_free_blocks, limit = base < 0 ? g_drawn_cap : base + g_per_chunk * (g_pages.load () - g_pages_at), before = -1;
  while (n < limit && n < g_drawn_cap)
  {
    long p = g_pages.load ();
    g_drawn[n++] = iot_data_block_alloc (16);
    if (g_pages.load () != p)   // drew from a new chunk: n - 1 were free before
    {
      if (before < 0) { before = n - 1; if (base >= 0) break; }
      else { g_per_chunk = n - 1 - before; break; }
    }
  }
  for (long i = 0; i < n; i++) ((long *) g_drawn[i])[1] = i;
  for (long i = 0; i < n; i++) if (((long *) g_drawn[i])[1] != i) fail ("block-released-twice", "a cache block is on the free list twice");
  for (long i = n; i-- > 0;) iot_data_block_free (g_drawn[i]);
  if (n == g_drawn_cap) judge = false; // more free blocks than can be drawn
  if (base >= 0 && judge)
  {
    long have = before >= 0 ? before : n;
    if (have < base || (have - base) % g_per_chunk) fail ("block-leak", "%ld cache blocks allocated in this case were never freed", (base + g_per_chunk * 4096 - have) % g_per_chunk);
    count ("block cache audits");
  }
  if (base < 0) g_free_blocks = n - 1 + g_per_chunk; else g_free_blocks = before >= 0 ? before + g_per_chunk : n;
  g_pages_at = g_pages.load ();
}
#else
static void audit_blocks (bool) {}
#endif
static void fh (const volatile void * p) { if (p && !own_take (p)) g_live.fetch_sub (1, std::memory_order_relaxed); }
#endif
std::atomic<int> fail_threads {0};
std::atomic<long> threads_alive {0};
std::atomic<uint64_t> threads_created {0};
#ifndef VH_ASAN
static void audit_blocks (bool) {}
#endif
static void jstr (FILE * f, const char * s)
{
  fputc ('"', f);
  for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf (f, "\\%c", c); else if (c < 32 || c >= 127) fprintf (f, "\\u%04x", c); else fputc (c, f); }
  fputc ('"', f);
}
// until run() is reached (a driver sets the library up in main) an alarm watches for a call which does not return
static void on_setup_alarm (int) { static const char m[] = "HANG the library's set-up does not return\n"; (void) !write (1, m, sizeof m - 1); _exit (4); }
__attribute__((constructor (101))) static void watch_setup ()
{
#ifndef __SANITIZE_THREAD__ // which holds signals back while a mutex is waited for: there the alarm simply ends the process
  signal (SIGALRM, on_setup_alarm);
#endif
  alarm (90);
}
static std::atomic<bool> g_watching { false };
static void * watchdog (void *)
{
  // A hang is no progress at all for `limit` seconds; the runner decides what that means.
  long limit = arg_int ("hang", 90);
  uint64_t last = ~0ull; long idle = 0;
  g_watching = true;
  for (;;)
  {
    usleep (1000000);
    uint64_t p = g_progress.load ();
    if (p != last) { last = p; idle = 0; }
    else if (++idle >= limit)
    {
      rescue (); printf ("HANG case=%s:%llu:%llu no progress for %ld s\n", g_mode, (unsigned long long) g_seed, (unsigned long long) g_index, limit);
      dump_ops (stdout);
      fflush (stdout);
      _exit (4);
    }
  }
  return nullptr;
}
int run (int argc, char ** argv, const Mode * modes, size_t nmodes)
{
  alarm (0);
  // usage: drv MODE SEED FIRST N [name=value ...]
  g_argc = argc; g_argv = argv;
  if (argc < 5) { fprintf (stderr, "usage: %s MODE SEED FIRST N\nmodes:", argv[0]); for (size_t i = 0; i < nmodes; i++) fprintf (stderr, " %s", modes[i].name); fprintf (stderr, "\n"); return 2; }
  const Mode * m = nullptr;
  for (size_t i = 0; i < nmodes; i++) if (strcmp (modes[i].name, argv[1]) == 0) m = &modes[i];
  if (!m) { fprintf (stderr, "no mode %s\n", argv[1]); return 2; }
  g_mode = m->name; g_seed = strtoull (argv[2], nullptr, 10);
  uint64_t first = strtoull (argv[3], nullptr, 10), n = strtoull (argv[4], nullptr, 10);
  g_set = (uint64_t *) mmap (nullptr, g_cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  setvbuf (stdout, nullptr, _IOLBF, 1 << 16);
#if defined(VH_ASAN) || defined(VH_TSAN)
  __sanitizer_set_death_callback (death);
#endif
  signal (SIGABRT, on_abrt);
#ifdef VH_ASAN
  __sanitizer_install_malloc_and_free_hooks (mh, fh);
#endif
  pthread_t wd; pthread_create (&wd, nullptr, watchdog, nullptr); pthread_detach (wd); threads_alive = 0;
  while (!g_watching) usleep (100);   // settled before any case runs (a case may fork)
  uint64_t h = hash_bytes (g_mode, strlen (g_mode));
  long warm = m->leak_check ? 1 : 0;   // the first case runs once untracked so that lazy libc/library allocations happen before
  for (uint64_t i = first; i < first + n; i++)
  {
    g_index = i; g_progress++;
    for (long w = (i == first) ? warm : 0; w >= 0; w--)
    {
      clear_ops ();
      Rng rng (g_seed * 0x9E3779B97F4A7C15ull ^ h ^ Rng::mix (i));
      if (m->leak_check) { audit_blocks (false); leak_scope_begin (); }
      m->fn (rng, i);
      if (m->leak_check && w == 0)
      {
        audit_blocks (true);
        long now = g_live.load ();
        if (have_live_allocs () && now > g_leak_base)
        {
          // lazily allocated library or libc state is allocated once; a leak repeats
          long grew = now - g_leak_base;
          Rng rng2 (g_seed * 0x9E3779B97F4A7C15ull ^ h ^ Rng::mix (i));
          leak_scope_begin ();
          m->fn (rng2, i);
          now = g_live.load ();
          if (now > g_leak_base) fail ("leak", "%ld heap blocks allocated in this case were never freed (%ld the first time)", now - g_leak_base, grew);
        }
      }
    }
  }
  if (at_end) at_end ();
  const char * hf = arg ("hashes");
  if (hf) { FILE * f = fopen (hf, "wb"); if (f) { for (size_t i = 0; i < g_cap; i++) if (g_set[i]) fwrite (&g_set[i], 8, 1, f); fclose (f); } }
  printf ("EVID {\"cases\": %llu, \"evaluations\": %llu, \"distinct\": %zu, \"counters\": {", (unsigned long long) n, (unsigned long long) g_evals.load (), g_used);
  for (int i = 0; i < g_ncounters; i++) { if (i) printf (", "); jstr (stdout, g_counters[i].name); printf (": %llu", (unsigned long long) g_counters[i].n.load ()); }
  printf ("}, \"samples\": [");
  for (int i = 0; i < g_nsamples; i++) { if (i) printf (", "); jstr (stdout, g_samples[i]); }
  printf ("]}\n");
  fflush (stdout);
  return 0;
}
}
// Every thread the library creates passes here (linked with --wrap=pthread_create), through a trampoline that keeps count of those alive.
namespace vh { std::atomic<unsigned> thread_start_delay_us {0};
thread_local Sched sched; bool own_sched; std::atomic<int> refuse_rt {0}; std::atomic<unsigned> creations_tried {0};
struct Tramp { std::atomic<int> used {0}; void * (*fn) (void *); void * arg; Sched s; };
static Tramp g_tramp[4096];
static void * tramp (void * p)
{
  Tramp * t = (Tramp *) p; void * (*fn) (void *) = t->fn; void * arg = t->arg; sched = t->s;
  unsigned d = thread_start_delay_us.load (); if (d) usleep (d);
  t->used.store (0);
  void * r = fn (arg);
  threads_alive.fetch_sub (1);
  return r;
}
void wait_threads (const char * key, long n)
{
  uint64_t t0 = now_ns ();
  while (threads_alive.load () > n) { if (now_ns () - t0 > 30000000000ull) fail (key, "%ld library threads still running after 30 s", threads_alive.load () - n); usleep (20); }
}
}
extern "C" int __real_pthread_create (pthread_t *, const pthread_attr_t *, void * (*) (void *), void *);
extern "C" int __wrap_pthread_create (pthread_t * t, const pthread_attr_t * a, void * (*f) (void *), void * arg)
{
  vh::creations_tried++; int left = vh::fail_threads.load ();
  while (left > 0) if (vh::fail_threads.compare_exchange_weak (left, left - 1)) return EAGAIN;
  vh::Sched s; pthread_attr_t plain; s.policy = vh::sched.policy; s.prio = vh::sched.prio;
  if (vh::own_sched)
  {
    pthread_attr_init (&plain);
    if (a)
    {
      int d, i, p; struct sched_param sp; cpu_set_t c; size_t n; pthread_attr_getdetachstate (a, &d); s.detached = d == PTHREAD_CREATE_DETACHED; pthread_attr_setdetachstate (&plain, d);
      if (pthread_attr_getstacksize (a, &n) == 0) pthread_attr_setstacksize (&plain, n);
      pthread_attr_getinheritsched (a, &i); s.was_explicit = i == PTHREAD_EXPLICIT_SCHED; pthread_attr_getschedpolicy (a, &p); pthread_attr_getschedparam (a, &sp);
      if (s.was_explicit) { s.policy = p; s.prio = sp.sched_priority; }
      CPU_ZERO (&c); if (pthread_attr_getaffinity_np (a, sizeof c, &c) == 0 && CPU_COUNT (&c) == 1) for (int k = 0; k < CPU_SETSIZE; k++) if (CPU_ISSET (k, &c)) s.cpu = k;
    }
    if (s.policy == SCHED_FIFO || s.policy == SCHED_RR)
    {
      int e = s.prio < 1 || s.prio > 99 ? EINVAL : 0; int n = vh::refuse_rt.load (); while (!e && n > 0) if (vh::refuse_rt.compare_exchange_weak (n, n - 1)) e = EPERM;
      if (e) { pthread_attr_destroy (&plain); return e; }
    }
    else if (s.prio != 0) { pthread_attr_destroy (&plain); return EINVAL; }
    a = &plain;
  }
  vh::Tramp * tr = nullptr; static std::atomic<unsigned> at {0};
  for (int k = 0; k < 100000 && !tr; k++) { vh::Tramp * c = &vh::g_tramp[at.fetch_add (1) % 4096]; int z = 0; if (c->used.compare_exchange_strong (z, 1)) tr = c; }
  if (!tr) return EAGAIN;
  tr->fn = f; tr->arg = arg; tr->s = s;
  vh::threads_alive.fetch_add (1);
#ifdef VH_ASAN
  vh::g_creating++;
#endif
  int r = __real_pthread_create (t, a, vh::tramp, tr);
#ifdef VH_ASAN
  vh::g_creating--;
#endif
  if (vh::own_sched) pthread_attr_destroy (&plain);
  if (r == 0) vh::threads_created.fetch_add (1); else { vh::threads_alive.fetch_sub (1); tr->used.store (0); }
  return r;
}
