// Schedule perturbation and edge coverage, compiled WITHOUT instrumentation and linked into every harness.
//  * __sanitizer_cov_trace_pc is called by the instrumented library at every control flow edge.
//  * pthread/sched wrappers are resolved before libtsan/libc because they live in the executable.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

static volatile int g_on = 0;
static volatile unsigned g_lockProb = 0;   // of 1024
static volatile unsigned g_edgePeriod = 0; // mean edges between perturbations, 0=off
static volatile unsigned g_maxUs = 0;
static volatile uint64_t g_seed = 1;
static uint64_t g_perturb = 0;
static __thread uint64_t t_state = 0;
static __thread int t_count = 1;
static __thread int t_busy = 0;
static uint64_t g_tid = 0;

#define MAPSZ (1u << 18)
static unsigned char g_map[MAPSZ];

static inline uint64_t rnd(void)
{
    if (t_state == 0) t_state = (g_seed + __atomic_add_fetch(&g_tid, 1, __ATOMIC_RELAXED)) * 0x9E3779B97F4A7C15ull | 1;
    t_state ^= t_state << 13; t_state ^= t_state >> 7; t_state ^= t_state << 17;
    return t_state;
}

static int (*real_yield)(void);
static void perturb(void)
{
    if (t_busy) return;
    t_busy = 1;
    int saved = errno;
    __atomic_add_fetch(&g_perturb, 1, __ATOMIC_RELAXED);
    uint64_t r = rnd();
    unsigned m = g_maxUs;
    if (m == 0 || (r & 3) == 0)
    {
        if (!real_yield) real_yield = (int (*)(void))dlsym(RTLD_NEXT, "sched_yield");
        real_yield();
    }
    else
    {
        struct timespec ts = {0, (long)((r >> 8) % (m * 1000ull))};
        nanosleep(&ts, 0);
    }
    errno = saved;
    t_busy = 0;
}

void vf_shim_config(unsigned lockProb, unsigned edgePeriod, unsigned maxUs, uint64_t seed)
{
    g_lockProb = lockProb; g_edgePeriod = edgePeriod; g_maxUs = maxUs; g_seed = seed;
    g_on = (lockProb || edgePeriod);
}
uint64_t vf_shim_perturbations(void) { return __atomic_load_n(&g_perturb, __ATOMIC_RELAXED); }
unsigned vf_shim_edges(void)
{
    unsigned n = 0;
    for (unsigned i = 0; i < MAPSZ; i++) n += g_map[i] != 0;
    return n;
}
// snapshot support: clear map so that a case's own edge signature can be hashed
void vf_shim_edges_reset(void) { for (unsigned i = 0; i < MAPSZ; i++) g_map[i] = 0; }

void __sanitizer_cov_trace_pc(void)
{
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    unsigned char *p = &g_map[((pc >> 1) ^ (pc >> 19)) & (MAPSZ - 1)];
    if (!*p) *p = 1;
    if (g_edgePeriod)
    {
        if (--t_count <= 0)
        {
            t_count = (int)(rnd() % (2 * g_edgePeriod)) + 1;
            if (g_on) perturb();
        }
    }
}

static inline void maybe(void)
{
    if (g_on && !t_busy && g_lockProb && (rnd() & 1023) < g_lockProb) perturb();
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

int pthread_mutex_lock(pthread_mutex_t *m) { REAL(int, pthread_mutex_lock, pthread_mutex_t *); maybe(); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { REAL(int, pthread_mutex_unlock, pthread_mutex_t *); int r = real(m); maybe(); return r; }
int pthread_cond_signal(pthread_cond_t *c) { REAL(int, pthread_cond_signal, pthread_cond_t *); maybe(); return real(c); }
int pthread_cond_broadcast(pthread_cond_t *c) { REAL(int, pthread_cond_broadcast, pthread_cond_t *); maybe(); return real(c); }
int sched_yield(void) { if (!real_yield) real_yield = (int (*)(void))dlsym(RTLD_NEXT, "sched_yield"); maybe(); return real_yield(); }

#ifdef VF_TSAN
// ThreadSanitizer does not model stand-alone fences: emulate the pattern "release decrement, then acquire fence" by
// acquiring the location this thread last decremented.
void __tsan_acquire(void *);
static __thread void *t_lastRmw;
typedef unsigned a32; typedef unsigned long a64;
a32 __tsan_atomic32_fetch_sub(volatile a32 *a, a32 v, int mo)
{
    REAL(a32, __tsan_atomic32_fetch_sub, volatile a32 *, a32, int);
    a32 r = real(a, v, mo); t_lastRmw = (void *)a; return r;
}
void __tsan_atomic_thread_fence(int mo)
{
    REAL(void, __tsan_atomic_thread_fence, int);
    real(mo);
    if (t_lastRmw && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) __tsan_acquire(t_lastRmw);
}
#endif
