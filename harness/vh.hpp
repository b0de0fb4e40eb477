// Common support for the verification drivers: seeded cases, monitors' verdicts, evidence counters, leak accounting.
// Nothing here allocates from the heap while a case runs, so the live-allocation balance of a case is the library's.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <atomic>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>

namespace vh {

struct Rng {
  uint64_t s[2];
  static uint64_t mix (uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  explicit Rng (uint64_t seed = 1) { s[0] = mix (seed); s[1] = mix (s[0] ^ 0x1234567); if (!s[0] && !s[1]) s[0] = 1; }
  uint64_t next () { uint64_t a = s[0], b = s[1]; uint64_t r = a + b; b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27); return r; }
  uint64_t below (uint64_t n) { return n ? next () % n : 0; }
  uint64_t range (uint64_t lo, uint64_t hi) { return lo + below (hi - lo + 1); }
  bool chance (unsigned num, unsigned den) { return below (den) < num; }
  template <class T> const T & pick (const std::vector<T> & v) { return v[below (v.size ())]; }
  template <class T, size_t N> const T & pick (const T (&v)[N]) { return v[below (N)]; }
};

[[noreturn]] void fail (const char * key, const char * fmt, ...) __attribute__ ((format (printf, 2, 3)));
void count (const char * name, uint64_t n = 1);      // evidence counter (name must be a literal)
void evaluation (uint64_t n = 1);                    // one more case/operation judged by an oracle
void distinct (uint64_t hash);                       // fingerprint of a distinct non-trivial case
void show (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));
bool want_sample ();
long live_allocs ();                                 // live heap blocks (ASan builds), else 0
bool have_live_allocs ();
uint64_t current_case ();
extern std::atomic<int> fail_threads;            // refuse this many of the next thread creations
extern std::atomic<uint64_t> threads_created;
extern std::atomic<long> threads_alive;           // threads created through pthread_create (library and driver) whose function has not returned
extern std::atomic<unsigned> thread_start_delay_us;
// Stand-in for real-time scheduling (drivers including prio.hpp): what a created thread was asked to be, kept per thread; the kernel is not asked.
struct Sched { int policy = 0, prio = 0; long cpu = -1; bool detached = false, was_explicit = false; int refused = INT32_MIN; bool touched = false; };
extern thread_local Sched sched;
extern bool own_sched; extern std::atomic<int> refuse_rt; extern std::atomic<unsigned> creations_tried;
void console_to (const char * out, const char * err); void console_back ();   // what is written to standard output and error meanwhile goes to files; reports do not
void wait_threads (const char * key, long n);     // until at most n are alive
const char * arg (const char * name, const char * dflt = nullptr);
long arg_int (const char * name, long dflt);
bool thorough ();
void progress ();                                    // feeds the hang watchdog
uint64_t hash_bytes (const void * p, size_t n, uint64_t h = 1469598103934665603ull);
uint64_t now_ns ();
uint64_t seed ();
void log_op (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));   // ring of the current case's operations, printed with a failure
void clear_ops ();
std::string quote (const std::string & s);
void leak_scope_begin ();
void leak_scope_end (const char * key);              // fails with key when live allocations grew

typedef void (*case_fn) (Rng & rng, uint64_t index);
struct Mode { const char * name; case_fn fn; bool leak_check; };
int run (int argc, char ** argv, const Mode * modes, size_t n);
// a finish hook for modes run once at the end
extern void (*at_end) ();
}
#define VH_CHECK(cond, key, ...) do { if (!(cond)) vh::fail (key, __VA_ARGS__); } while (0)
