// C24: unique timestamps, clock units, waits and UUIDs. The library reads a clock the driver sets (it stands still, steps forwards and backwards, is
// read late); every value any thread is given is judged against the order of the calls and the readings the calls themselves were given.
// LINK: -Wl,--wrap=clock_gettime -Wl,--wrap=gettimeofday -Wl,--wrap=time -Wl,--wrap=nanosleep -Wl,--wrap=clock_nanosleep -Wl,--wrap=usleep -Wl,--wrap=getrandom -Wl,--wrap=getpid
#include "vh.hpp"
#include "iot/iot.h"
#include "iot/uuid.h"
#include <algorithm>
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <sys/time.h>
#include <sys/wait.h>
using namespace vh;
static const uint64_t G = 1000000000ull;
static std::atomic<bool> g_on; static std::atomic<uint64_t> g_clock, g_steps, g_reads; static std::atomic<unsigned> g_lag; static std::atomic<uint64_t> g_slept; static unsigned g_eintr;
struct Reading { uint64_t min, max; unsigned n; }; static thread_local Reading t_read; static thread_local uint32_t t_rand = 77; static thread_local bool t_lib; // a thread that calls the library: its sleeps are virtual
static uint32_t rnd () { t_rand ^= t_rand << 13; t_rand ^= t_rand >> 17; t_rand ^= t_rand << 5; return t_rand; }
static uint64_t reading ()
{
  unsigned lag = g_lag; if (lag && rnd () % 64 == 0) for (unsigned k = rnd () % lag; k--;) sched_yield ();
  uint64_t v = g_clock; g_reads.fetch_add (1, std::memory_order_relaxed); if (!t_read.n++) t_read.min = t_read.max = v; else { if (v < t_read.min) t_read.min = v; if (v > t_read.max) t_read.max = v; }
  if (lag > 3 && rnd () % 64 == 0) for (unsigned k = rnd () % lag; k--;) sched_yield (); // the reading may be old when it is used
  return v;
}
extern "C" int __real_clock_gettime (clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime (clockid_t c, struct timespec * ts)
{
  if (!g_on || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime (c, ts);
  uint64_t v = reading (); ts->tv_sec = (time_t) (v / G); ts->tv_nsec = (long) (v % G); return 0;
}
extern "C" int __real_gettimeofday (struct timeval *, void *);
extern "C" int __wrap_gettimeofday (struct timeval * tv, void * z) { if (!g_on) return __real_gettimeofday (tv, z); uint64_t v = reading (); tv->tv_sec = (time_t) (v / G); tv->tv_usec = (long) (v % G / 1000); return 0; }
extern "C" time_t __real_time (time_t *);
extern "C" time_t __wrap_time (time_t * t) { if (!g_on) return __real_time (t); time_t s = (time_t) (reading () / G); if (t) *t = s; return s; }
extern "C" int __real_nanosleep (const struct timespec *, struct timespec *);
static bool sleep_part (const struct timespec * ts, struct timespec * rem)
{
  uint64_t want = (uint64_t) ts->tv_sec * G + (uint64_t) ts->tv_nsec; count ("sleeps");
  if (g_eintr) { g_eintr--; uint64_t part = want ? (((uint64_t) rnd () << 32) | rnd ()) % want : 0; if (rnd () % 4 == 0) part = 0; g_slept += part; want -= part; if (rem) { rem->tv_sec = (time_t) (want / G); rem->tv_nsec = (long) (want % G); } count ("interrupted_sleeps"); return false; }
  g_slept += want; return true;
}
extern "C" int __wrap_nanosleep (const struct timespec * ts, struct timespec * rem)
{
  if (!g_on || !t_lib) return __real_nanosleep (ts, rem);
  if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= (long) G) { errno = EINVAL; return -1; }
  if (sleep_part (ts, rem)) return 0; errno = EINTR; return -1;
}
extern "C" int __real_clock_nanosleep (clockid_t, int, const struct timespec *, struct timespec *);
extern "C" int __wrap_clock_nanosleep (clockid_t c, int f, const struct timespec * ts, struct timespec * rem) { if (!g_on || !t_lib || f) return __real_clock_nanosleep (c, f, ts, rem); if (ts->tv_nsec < 0 || ts->tv_nsec >= (long) G) return EINVAL; return sleep_part (ts, rem) ? 0 : EINTR; }
extern "C" int __real_usleep (useconds_t);
extern "C" int __wrap_usleep (useconds_t u) { if (!g_on || !t_lib) return __real_usleep (u); struct timespec ts = { (time_t) (u / 1000000), (long) (u % 1000000) * 1000 }; if (sleep_part (&ts, NULL)) return 0; errno = EINTR; return -1; }
static bool g_child; static int g_refuse, g_short;
extern "C" ssize_t __real_getrandom (void *, size_t, unsigned);
extern "C" ssize_t __wrap_getrandom (void * b, size_t n, unsigned f)
{
  if (!g_child) return __real_getrandom (b, n, f);
  if (g_refuse > 0) { g_refuse--; errno = g_refuse & 1 ? EINTR : EAGAIN; return -1; }
  if (g_short > 0 && n > 1) { g_short--; size_t m = g_short % 3; if (m >= n) m = n - 1; memset (b, 0, m); return (ssize_t) m; } // fewer, as early after start
  return __real_getrandom (b, n, f);
}
extern "C" pid_t __real_getpid (void);
extern "C" pid_t __wrap_getpid (void) { return g_child ? 1 : __real_getpid (); }

// ---- unique time
struct NT { pthread_t t; uint64_t seed; unsigned n; uint64_t * v; bool sync, monotone; };
static std::atomic<uint64_t> g_max; static std::atomic<int> g_go;
static void step (Rng & r, int policy)
{
  switch (policy)
  {
    case 0: break;                                                                       // stands still
    case 1: g_clock += r.below (3); break;                                               // slower than the calls
    case 2: g_clock += r.below (2000); break;
    case 3: { uint64_t c = g_clock; g_clock.store (r.chance (1, 2) ? c + r.below (100000) : c - r.below (100000)); g_steps++; break; }
    case 4: if (r.chance (1, 50)) { uint64_t c = g_clock; g_clock.store (r.chance (1, 2) ? c + r.below (3600 * G) : c - r.below (3600 * G)); g_steps++; } else g_clock += r.below (50); break;
    default: if (r.chance (1, 100)) { g_clock += 1000000; } break;                       // coarse tick
  }
}
static int g_policy;
static void * n_thread (void * p)
{
  NT * t = (NT *) p; Rng r (t->seed); t_rand = (uint32_t) t->seed | 1; while (!g_go) {} uint64_t last = 0;
  for (unsigned k = 0; k < t->n; k++)
  {
    if (r.chance (1, 4)) step (r, g_policy);
    uint64_t before = t->sync ? g_max.load () : 0, c0 = g_clock; t_read = Reading {};
    uint64_t v = iot_time_nsecs ();
    VH_CHECK (v > last, "time-order", "thread was given %lu after %lu", v, last);
    VH_CHECK (v > before, "time-order", "%lu given after %lu had been given to another thread", v, before);
    if (t->monotone) VH_CHECK (v >= c0, "time-behind", "%lu given when the clock was at %lu or later", v, c0);
    if (t_read.n) VH_CHECK (v >= t_read.min, "time-behind", "%lu given by a call that read %lu", v, t_read.min);
    if (t->sync) { uint64_t m = g_max; while (m < v && !g_max.compare_exchange_weak (m, v)) {} }
    t->v[k] = last = v;
  }
  evaluation (t->n); return NULL;
}
static void m_nsecs (Rng & r, uint64_t)
{
  static uint64_t * all; static const size_t MAX = 1 << 18; if (!all) all = (uint64_t *) mmap (NULL, MAX * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  static uint64_t top; int nt = r.chance (1, 8) ? 1 : 2 + (int) r.below (7); g_policy = (int) r.below (6); bool sync = r.chance (1, 2); unsigned n = (unsigned) (nt == 1 ? 2000 : r.chance (1, 4) ? 20000 : 3000);
  uint64_t base = 1700000000ull * G + r.below (10 * G); if (top > base && r.chance (3, 4)) base = top; if (r.chance (1, 6)) base -= 5 * G; // the clock may be behind what was given before
  g_clock = base; g_lag = r.chance (1, 2) ? 0 : (unsigned) r.below (12); g_max = 0; g_go = 0; g_steps = 0; NT t[8]; g_on = true; g_reads = 0;
  for (int k = 0; k < nt; k++) { t[k] = NT { {}, r.next (), n, all + (size_t) k * n, sync, g_policy < 3 || g_policy == 5 }; pthread_create (&t[k].t, NULL, n_thread, &t[k]); }
  g_go = 1; for (int k = 0; k < nt; k++) pthread_join (t[k].t, NULL);
  g_on = false; size_t total = (size_t) nt * n; unsigned cross = 0; // how often the threads alternated in the order of the values
  { static uint64_t * tag; if (!tag) tag = (uint64_t *) mmap (NULL, MAX * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); uint64_t b = *std::min_element (all, all + total); for (size_t k = 0; k < total; k++) { VH_CHECK (all[k] - b < 1ull << 60, "time-order", "values %lu and %lu", b, all[k]); tag[k] = ((all[k] - b) << 3) | (k / n); } std::sort (tag, tag + total); for (size_t k = 1; k < total; k++) if ((tag[k] & 7) != (tag[k - 1] & 7)) cross++; }
  std::sort (all, all + total); for (size_t k = 1; k < total; k++) VH_CHECK (all[k] != all[k - 1], "time-twice", "%lu was given twice", all[k]);
  VH_CHECK (all[0] > top, "time-order", "%lu given after %lu in an earlier run", all[0], top); top = all[total - 1];
  size_t close = 0; for (size_t k = 1; k < total; k++) if (all[k] == all[k - 1] + 1) close++;
  count ("values_judged", total); count ("values_one_apart", close); count ("thread_alternations", cross); count ("clock_steps", g_steps); count ("clock_readings", g_reads); distinct (top * 1000003 + cross); if (nt > 1 && cross) count ("runs_interleaved");
  if (want_sample ()) show ("%d threads, policy %d: %zu values, %zu one apart, %u alternations, %lu clock steps", nt, g_policy, total, close, cross, (unsigned long) g_steps);
}
// ---- units and waits
static void m_units (Rng & r, uint64_t)
{
  g_lag = 0; uint64_t mx = 0;
  for (int k = 0; k < 200; k++)
  {
    uint64_t s = r.chance (1, 3) ? r.below (5000000000ull) : r.chance (1, 2) ? 1700000000 + r.below (1000000) : r.below (18000000000ull), ns = r.chance (1, 3) ? r.below (G) : r.chance (1, 2) ? 999999999 - r.below (3) : r.below (1000) * (r.chance (1, 2) ? 1000000 : 1000) + r.below (2) * 999;
    uint64_t c = s * G + ns; g_clock = c; g_on = true; uint64_t a = iot_time_secs (), b = iot_time_msecs (), d = iot_time_usecs (); g_on = false;
    VH_CHECK (a == s, "time-unit", "%lu seconds at %lu.%09lu", a, s, ns); VH_CHECK (b == s * 1000 + ns / 1000000, "time-unit", "%lu milliseconds at %lu.%09lu", b, s, ns); VH_CHECK (d == s * 1000000 + ns / 1000, "time-unit", "%lu microseconds at %lu.%09lu", d, s, ns); distinct (c); evaluation (3); count ("readings_judged", 3);
    if (c > mx) mx = c;
  }
  for (int k = 0; k < 200; k++)
  {
    uint64_t iv = r.chance (1, 3) ? r.below (5000) : r.below (1ull << (1 + r.below (32))); int kind = (int) r.below (3); if (r.chance (1, 4)) iv = iv / 1000 * 1000; uint64_t want = iv * (kind == 0 ? G : kind == 1 ? 1000000 : 1000);
    g_slept = 0; g_eintr = r.chance (1, 2) ? (unsigned) r.below (6) : 0; t_rand = (uint32_t) r.next () | 1; uint64_t t0 = now_ns (); g_on = true; if (kind == 0) iot_wait_secs (iv); else if (kind == 1) iot_wait_msecs (iv); else iot_wait_usecs (iv); g_on = false; uint64_t real = now_ns () - t0;
    VH_CHECK (g_slept + real >= want, "wait-short", "a wait of %lu %s lasted %lu ns", iv, kind == 0 ? "s" : kind == 1 ? "ms" : "us", (unsigned long) g_slept); VH_CHECK (g_slept <= want + 1000000, "wait-long", "a wait of %lu %s lasted %lu ns", iv, kind == 0 ? "s" : kind == 1 ? "ms" : "us", (unsigned long) g_slept); evaluation (); count ("waits_judged"); distinct (want * 8 + (uint64_t) kind);
  }
}
// ---- real waits with signals
static void onsig (int) {}
struct ST { pthread_t target; std::atomic<bool> stop; };
static void * s_thread (void * p) { ST * s = (ST *) p; while (!s->stop) { pthread_kill (s->target, SIGUSR2); struct timespec q = { 0, 700000 }; __real_nanosleep (&q, NULL); } return NULL; }
static void m_wait (Rng & r, uint64_t)
{
  g_on = false; struct sigaction sa = {}; sa.sa_handler = onsig; sigaction (SIGUSR2, &sa, NULL); ST s; s.target = pthread_self (); s.stop = false; pthread_t t; bool sig = r.chance (2, 3); if (sig) pthread_create (&t, NULL, s_thread, &s);
  for (int k = 0; k < 6; k++) { uint64_t iv = r.chance (1, 2) ? r.below (20) : r.below (20000); bool ms = iv < 20; uint64_t t0 = now_ns (); if (ms) iot_wait_msecs (iv); else iot_wait_usecs (iv); uint64_t d = now_ns () - t0; VH_CHECK (d + 1000 >= iv * (ms ? 1000000 : 1000), "wait-short", "a wait of %lu %s lasted %lu ns", iv, ms ? "ms" : "us", d); evaluation (); count ("real_waits"); }
  if (sig) { s.stop = true; pthread_join (t, NULL); } distinct (r.next ());
}
// ---- UUIDs
struct U { unsigned char b[16]; bool operator< (const U & o) const { return memcmp (b, o.b, 16) < 0; } bool operator== (const U & o) const { return !memcmp (b, o.b, 16); } };
static void canon (const unsigned char * b, char * s) { char * q = s; for (int k = 0; k < 16; k++) { if (k == 4 || k == 6 || k == 8 || k == 10) *q++ = '-'; sprintf (q, "%02x", b[k]); q += 2; } }
static int hexv (char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static U from_text (const char * s)
{
  U u; VH_CHECK (strlen (s) == 36, "uuid-text", "text form '%.50s' has %zu characters", s, strlen (s)); const char * q = s;
  for (int k = 0; k < 16; k++) { if (k == 4 || k == 6 || k == 8 || k == 10) { VH_CHECK (*q == '-', "uuid-text", "text form '%s'", s); q++; } int h = hexv (q[0]), l = hexv (q[1]); VH_CHECK (h >= 0 && l >= 0, "uuid-text", "text form '%s'", s); u.b[k] = (unsigned char) (h * 16 + l); q += 2; }
  return u;
}
static void form (const U & u) { VH_CHECK (u.b[6] >> 4 == 4 && u.b[8] >> 6 == 2, "uuid-form", "version %d, variant bits %d", u.b[6] >> 4, u.b[8] >> 6); }
static U make (unsigned kind)
{
  U u;
  switch (kind)
  {
    case 0: { struct { unsigned char g1[16]; iot_uuid_t u; unsigned char g2[16]; } x; memset (&x, 0xA5, sizeof x); iot_uuid_generate (x.u); for (int k = 0; k < 16; k++) VH_CHECK (x.g1[k] == 0xA5 && x.g2[k] == 0xA5, "uuid-bounds", "written outside the 16 bytes"); memcpy (u.b, x.u, 16); break; }
    case 1: { iot_data_t * d = iot_data_alloc_uuid_string (); VH_CHECK (d && iot_data_type (d) == IOT_DATA_STRING, "uuid-text", "no string"); u = from_text (iot_data_string (d)); iot_data_free (d); break; }
    case 2: { iot_data_t * d = iot_data_alloc_uuid (); VH_CHECK (d && iot_data_type (d) == IOT_DATA_ARRAY && iot_data_array_type (d) == IOT_DATA_UINT8 && iot_data_array_length (d) == 16 && iot_data_array_size (d) == 16, "uuid-array", "not an array of 16 bytes"); memcpy (u.b, iot_data_address (d), 16); iot_data_free (d); break; }
    default: { iot_uuid_t b; iot_uuid_generate (b); char * s = (char *) malloc (UUID_STR_LEN); iot_uuid_unparse (b, s); u = from_text (s); VH_CHECK (!memcmp (u.b, b, 16), "uuid-text", "text %s is of another identifier", s); free (s); break; }
  }
  form (u); return u;
}
struct UT { pthread_t t; uint64_t seed; unsigned n; U * v; };
static void * u_thread (void * p) { t_lib = true; UT * t = (UT *) p; Rng r (t->seed); while (!g_go) {} for (unsigned k = 0; k < t->n; k++) t->v[k] = make ((unsigned) r.below (4)); evaluation (t->n); return NULL; }
static U * space (size_t n) { return (U *) mmap (NULL, n * sizeof (U), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void no_twins (U * v, size_t n, const char * where) { std::sort (v, v + n); for (size_t k = 1; k < n; k++) if (v[k] == v[k - 1]) { char s[40]; canon (v[k].b, s); fail ("uuid-twice", "%s was generated twice %s", s, where); } }
static void m_uuid (Rng & r, uint64_t)
{
  static const size_t MAX = 1 << 16, KEEP = 1 << 19; static U * v, * kept; static size_t nk; static uint64_t bits[128], seen; if (!v) { v = space (MAX); kept = space (KEEP); }
  for (int k = 0; k < 50; k++) { U u; for (auto & b : u.b) b = (unsigned char) r.next (); if (r.chance (1, 8)) memset (u.b, r.chance (1, 2) ? 0 : 255, 16); char w[40], g[UUID_STR_LEN + 16]; memset (g, 0x5A, sizeof g); canon (u.b, w); iot_uuid_unparse (u.b, g + 8); VH_CHECK (!strcmp (g + 8, w), "uuid-text", "%.40s rendered for %s", g + 8, w); for (int z = 0; z < 8; z++) VH_CHECK (g[z] == 0x5A && g[8 + UUID_STR_LEN + z] == 0x5A, "uuid-bounds", "text written outside its 37 bytes"); evaluation (); count ("renderings_judged"); }
  int nt = 1 + (int) r.below (8); unsigned n = r.chance (1, 3) ? 3000 : 300; UT t[8]; g_go = 0; for (int k = 0; k < nt; k++) { t[k] = UT { {}, r.next (), n, v + (size_t) k * n }; pthread_create (&t[k].t, NULL, u_thread, &t[k]); }
  g_go = 1; for (int k = 0; k < nt; k++) pthread_join (t[k].t, NULL);
  size_t total = (size_t) nt * n; no_twins (v, total, "in a process"); count ("uuids_judged", total); distinct (hash_bytes (v[0].b, 16));
  for (size_t k = 0; k < total; k++) for (int b = 0; b < 128; b++) bits[b] += (uint64_t) (v[k].b[b / 8] >> (b % 8)) & 1; seen += total;
  if (seen > 20000) { for (int b = 0; b < 128; b++) { if (b / 8 == 6 && b % 8 >= 4) continue; if (b / 8 == 8 && b % 8 >= 6) continue; double f = (double) bits[b] / (double) seen; VH_CHECK (f > 0.45 && f < 0.55, "uuid-random", "bit %d of byte %d is set in %.1f%% of %lu identifiers", b % 8, b / 8, f * 100, (unsigned long) seen); } count ("bit_balances_judged"); }
  for (size_t k = 0; k < total && nk < KEEP; k += 1 + total / 600) kept[nk++] = v[k]; if (r.chance (1, 16)) no_twins (kept, nk, "in a process");
  if (want_sample ()) { char s[40]; canon (v[0].b, s); show ("%d threads, %zu identifiers, e.g. %s", nt, total, s); }
}
// processes started together: the same clock, the same process identifier, little randomness at first. The driver itself makes no identifier here.
static void m_procs (Rng & r, uint64_t)
{
  static U * v; static std::atomic<int> * go; if (!v) { v = space (4096); go = (std::atomic<int> *) mmap (NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  int np = 2 + (int) r.below (30), n = 1 + (int) r.below (100), nt = r.chance (1, 2) ? 1 : 2 + (int) r.below (3), refuse = r.chance (1, 2) ? 0 : (int) r.below (6), sh = r.chance (1, 2) ? 0 : (int) r.below (6); *go = 0; pid_t pid[40]; uint64_t seed = r.next (); fflush (stdout);
  g_clock = 1700000000ull * G;
  for (int p = 0; p < np; p++)
  {
    pid[p] = fork (); if (pid[p] < 0) { perror ("harness: fork"); exit (2); } if (pid[p]) continue;
    g_child = true; g_refuse = refuse; g_short = sh; g_on = true; g_lag = 0; while (!*go) sched_yield ();
    if (nt == 1) { for (int k = 0; k < n; k++) v[p * n + k] = make ((unsigned) (seed + (uint64_t) k) & 3); }
    else { UT t[4]; g_go = 0; int done = 0; for (int k = 0; k < nt; k++) { int m = k == nt - 1 ? n - done : n / nt; t[k] = UT { {}, seed + (uint64_t) k, (unsigned) m, v + p * n + done }; done += m; pthread_create (&t[k].t, NULL, u_thread, &t[k]); } g_go = 1; for (int k = 0; k < nt; k++) pthread_join (t[k].t, NULL); }
    _exit (0);
  }
  *go = 1; for (int p = 0; p < np; p++) { int st; if (waitpid (pid[p], &st, 0) != pid[p]) { perror ("harness: waitpid"); exit (2); } VH_CHECK (WIFEXITED (st) && WEXITSTATUS (st) == 0, "uuid-process", "generating in a new process ended with status %d", st); }
  uint64_t fp = hash_bytes (v[0].b, 16); size_t total = (size_t) (np * n); no_twins (v, total, "by processes started together"); evaluation (total); count ("processes", (uint64_t) np); count ("uuids_across_processes", total); if (refuse || sh) count ("processes_short_of_randomness", (uint64_t) np); distinct (fp); progress ();
}
int main (int argc, char ** argv)
{
  t_lib = true;
  static const Mode modes[] = { { "nsecs", m_nsecs, true }, { "units", m_units, true }, { "wait", m_wait, true }, { "uuid", m_uuid, true }, { "procs", m_procs, false } };
  return run (argc, argv, modes, 5);
}
