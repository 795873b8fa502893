// Schedule fuzzing: seeded delays at synchronisation points of the code under test and at every proof step; long
// sleeps of the code under test are shortened. Needs -Wl,--wrap=__gmpz_powm_ui.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <sched.h>
#include <atomic>
#include "pbt.h"
namespace sched {
inline std::atomic<int> on{0}; inline std::atomic<uint64_t> seed{0}, n{0}, delays{0}; inline std::atomic<int> slowmod{0}, slowkeep{0}, stall_ms{0}, nthreads{0};
inline std::atomic<double> nap{1};                    // factor applied to sleeps of 40 ms and more
inline thread_local int tid = -1; inline thread_local bool stalled = false;
extern "C" int __real_nanosleep_(const struct timespec *, struct timespec *);
inline void really_sleep(long ns) { struct timespec t = {ns / 1000000000L, ns % 1000000000L}; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, nullptr); }
inline std::atomic<uint64_t> works{0};                // steps of provers so far
inline void point(unsigned kind) {
    if (kind == 1) works.fetch_add(1, std::memory_order_relaxed);
    if (!on.load(std::memory_order_relaxed)) return;
    if (tid < 0) tid = nthreads++;
    uint64_t st = seed.load(std::memory_order_relaxed) + 0x9e3779b97f4a7c15ULL * (n.fetch_add(1, std::memory_order_relaxed) + 1) + kind; uint64_t r = pbt::splitmix(st);
    int sm = slowmod.load(std::memory_order_relaxed);
    if (kind == 1 && sm && tid % sm == slowkeep.load(std::memory_order_relaxed)) { if (!stalled) { stalled = true; if (int ms = stall_ms.load(std::memory_order_relaxed)) really_sleep((long)ms * 1000000L); } if (r % 8 == 0) { delays++; really_sleep(60000); } return; }    // this thread is starved
    unsigned den = kind == 1 ? 4000 : 6;
    if (r % den) return;
    delays++; r >> 32 & 1 ? (void)sched_yield() : really_sleep((long)((r >> 33) % (kind == 1 ? 3000000 : 400000)));
}
struct Scope { Scope(uint64_t s, int sm, int sk, int stall = 0) { stall_ms = stall; stalled = false; seed = s; n = 0; delays = 0; slowmod = sm; slowkeep = sk; nthreads = 0; tid = -1; on = 1; } ~Scope() { on = 0; } };
}
extern "C" {
void __real___gmpz_powm_ui(mpz_ptr, mpz_srcptr, unsigned long, mpz_srcptr);
void __wrap___gmpz_powm_ui(mpz_ptr r, mpz_srcptr b, unsigned long e, mpz_srcptr m) { sched::point(1); __real___gmpz_powm_ui(r, b, e, m); }
int nanosleep(const struct timespec *a, struct timespec *b) {
    double ns = a->tv_sec * 1e9 + a->tv_nsec; if (ns >= 40e6) ns *= sched::nap; struct timespec t = {(time_t)(ns / 1e9), (long)(ns - 1e9 * (time_t)(ns / 1e9))};
    return clock_nanosleep(CLOCK_MONOTONIC, 0, &t, b);
}
#ifndef SCHED_NO_COND
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {   // delay between the test of the predicate and the wait
    typedef int (*F)(pthread_cond_t *, pthread_mutex_t *); static F real = (F)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    sched::point(2); return real(c, m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) { typedef int (*F)(pthread_mutex_t *); static F real = (F)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = real(m); sched::point(3); return r; }
#endif
}
