// A stand-in for real-time priorities: each thread's policy and priority are kept in vh::sched, nothing is asked of the kernel. Include once per
// driver and link with: -Wl,--wrap=pthread_setschedparam,--wrap=pthread_setschedprio,--wrap=pthread_getschedparam,--wrap=geteuid
#pragma once
#include "vh.hpp"
#include <pthread.h>
#include <errno.h>
namespace vh {
static const bool own_sched_set = (own_sched = true);
static std::atomic<unsigned> g_refuse_prio, g_prio_seq, g_prio_sets; static std::atomic<int> g_euid { 0 };
static int (*g_set_other) (pthread_t, int, int); static int (*g_get_other) (pthread_t, int *, struct sched_param *);   // for a driver that sets or reads the priority of other threads
static inline bool chance_prio () { return g_refuse_prio && g_prio_seq++ % g_refuse_prio == 0; }
static inline int set_prio (int policy, int p)
{
  g_prio_sets++; sched.touched = true; if (policy == SCHED_FIFO || policy == SCHED_RR ? p < 1 || p > 99 : p != 0) { sched.refused = p; return EINVAL; }
  if (chance_prio ()) { sched.refused = p; return EPERM; }
  sched.policy = policy; sched.prio = p; return 0;
}
}
extern "C" int __wrap_pthread_setschedparam (pthread_t t, int pol, const struct sched_param * sp) { if (!pthread_equal (t, pthread_self ())) { if (vh::g_set_other) return vh::g_set_other (t, pol, sp->sched_priority); vh::fail ("priority-of-another", "the priority of another thread was changed"); } return vh::set_prio (pol, sp->sched_priority); }
extern "C" int __wrap_pthread_setschedprio (pthread_t t, int p) { if (!pthread_equal (t, pthread_self ())) vh::fail ("priority-of-another", "the priority of another thread was changed"); return vh::set_prio (vh::sched.policy, p); }
extern "C" int __wrap_pthread_getschedparam (pthread_t t, int * pol, struct sched_param * sp) { if (!pthread_equal (t, pthread_self ())) { if (vh::g_get_other) return vh::g_get_other (t, pol, sp); vh::fail ("priority-of-another", "the priority of another thread was read"); } *pol = vh::sched.policy; sp->sched_priority = vh::sched.prio; return 0; }
extern "C" uid_t __wrap_geteuid (void) { return (uid_t) vh::g_euid.load (); }
