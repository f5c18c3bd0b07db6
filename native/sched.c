/* Our own runtime behind -Zsanitizer=thread instrumentation: every atomic operation and every
 * instrumented memory access of the observed program calls in here. Nothing is checked; the
 * schedule is perturbed at chosen points (seeded) and what happened is recorded.
 *
 * SCHED_SEED   seed of the perturbation
 * SCHED_MODE   off | yield | site | stall | mix
 * SCHED_FOCUS  comma-separated lo-hi address ranges (relative to the image): only operations whose
 *              innermost frames reach into one of them are perturbed in mode site/stall
 * SCHED_OUT    file that gets, at exit: atomic operations, distinct sites, delays, threads,
 *              context changes between atomic operations, hash of the interleaving
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t a8;
typedef uint16_t a16;
typedef uint32_t a32;
typedef uint64_t a64;
typedef unsigned __int128 a128;

static int mode;                /* 0 off, 1 yield, 2 site, 3 stall, 4 mix */
static uint64_t seed;
static const char *outp;
static uint64_t n_ops, n_delays, n_switch, ihash = 1469598103934665603ull;
static uint32_t n_threads;
static int last_thread = -1;
static uint32_t main_cap_us = 800000;

#define SITES 4096
static uintptr_t sites[SITES];
static uint32_t n_sites;

static __thread int tid = -1;
static __thread uint64_t rng;
static __thread uint64_t ops, fops;
static __thread uint32_t slept;
static __thread uint64_t stall_at[4];
static __thread uint8_t hits[SITES];
static __thread int inside;
#define DEPTH 256
static __thread uintptr_t frames[DEPTH];
static __thread int depth;
#define NFOCUS 512
static uintptr_t focus_lo[NFOCUS], focus_hi[NFOCUS];
static int n_focus;
static uint64_t n_focused;
extern char __executable_start;

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static uint64_t rnd(void) { return mix(rng++); }

static void finish(void) {
    if (!outp) return;
    char b[256];
    int n = snprintf(b, sizeof b, "%llu %u %llu %u %llu %llx %llu\n", (unsigned long long)n_ops, n_sites, (unsigned long long)n_delays, n_threads,
                     (unsigned long long)n_switch, (unsigned long long)ihash, (unsigned long long)n_focused);
    int fd = open(outp, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        if (write(fd, b, n)) {}
        close(fd);
    }
}

void __tsan_init(void) {
    static int done;
    if (done) return;
    done = 1;
    const char *m = getenv("SCHED_MODE"), *s = getenv("SCHED_SEED");
    outp = getenv("SCHED_OUT");
    seed = s ? strtoull(s, 0, 10) : 0;
    if (m) mode = !strcmp(m, "yield") ? 1 : !strcmp(m, "site") ? 2 : !strcmp(m, "stall") ? 3 : !strcmp(m, "mix") ? 4 : 0;
    const char *f = getenv("SCHED_FOCUS");
    while (f && *f && n_focus < NFOCUS) {
        char *e;
        focus_lo[n_focus] = strtoull(f, &e, 16);
        if (*e != '-') break;
        focus_hi[n_focus] = strtoull(e + 1, &e, 16);
        n_focus++;
        if (*e != ',') break;
        f = e + 1;
    }
    atexit(finish);
}

static void nap(uint32_t us) {
    if (slept + us > main_cap_us) return;
    slept += us;
    __atomic_fetch_add(&n_delays, 1, __ATOMIC_RELAXED);
    struct timespec t = {us / 1000000, (us % 1000000) * 1000L};
    syscall(SYS_nanosleep, &t, NULL);
}

static int site_id(uintptr_t pc) {
    uint32_t h = (uint32_t)(mix(pc) & (SITES - 1));
    for (int k = 0; k < 64; k++, h = (h + 1) & (SITES - 1)) {
        uintptr_t v = __atomic_load_n(&sites[h], __ATOMIC_RELAXED);
        if (v == pc) return h;
        if (!v) {
            uintptr_t z = 0;
            if (__atomic_compare_exchange_n(&sites[h], &z, pc, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&n_sites, 1, __ATOMIC_RELAXED);
                return h;
            }
            if (z == pc) return h;
        }
    }
    return -1;
}

/* The calling context of an operation down to the innermost frame in focus; 0: out of focus. */
static uintptr_t context(uintptr_t pc, int *near) {
    uintptr_t base = (uintptr_t)&__executable_start, h = pc - base;
    if (!n_focus) return pc;
    for (int k = 0; k < 14 && depth - 1 - k >= 0; k++) {
        if (depth - 1 - k >= DEPTH) continue;
        uintptr_t a = frames[depth - 1 - k] - base;
        h = mix(h * 1099511628211ull + a);
        for (int i = 0; i < n_focus; i++)
            if (a >= focus_lo[i] && a < focus_hi[i]) { *near = k <= 4; return h | 1; }
    }
    return 0;
}

static void point(uintptr_t pc) {
    if (inside) return;
    inside = 1;
    if (tid < 0) {
        tid = __atomic_fetch_add(&n_threads, 1, __ATOMIC_RELAXED);
        rng = mix(seed * 1000003 + tid);
        for (int i = 0; i < 4; i++) {
            /* a logarithmic choice: early operations are as likely as late ones */
            int bits = rnd() % 9;
            stall_at[i] = (rnd() & ((1ull << bits) - 1)) + (1ull << bits);
        }
    }
    ops++;
    __atomic_fetch_add(&n_ops, 1, __ATOMIC_RELAXED);
    int lt = __atomic_exchange_n(&last_thread, tid, __ATOMIC_RELAXED);
    int near = 0;
    uintptr_t cx = context(pc, &near);
    int id = cx ? site_id(cx) : -1;
    if (cx) __atomic_fetch_add(&n_focused, 1, __ATOMIC_RELAXED);
    if (lt != tid) {
        __atomic_fetch_add(&n_switch, 1, __ATOMIC_RELAXED);
        ihash = (ihash ^ (uint64_t)(tid + 1) ^ ((pc - (uintptr_t)&__executable_start) << 8)) * 1099511628211ull;
    }
    if (mode) {
        int m = mode == 4 ? 1 + (int)(mix(seed ^ 0x77) % 3) : mode;
        if (m == 1) {
            uint64_t r = rnd();
            if ((r & 15) == 0) sched_yield();
            else if ((r & 255) == 1) nap(50 + (r >> 8) % 500);
        } else if (m == 2) {
            /* one context in 4, 8 or 16 (one in 2 directly in the focus) is slow, for some of the threads that come by */
            if (id >= 0) {
                if (hits[id] < 255) hits[id]++;
                uint64_t r = mix(cx * 31 + seed * 7919);
                if (r % (near ? 2 : 4u << (seed % 3)) == 0) {
                    uint64_t q = rnd();
                    if (q % (hits[id] < 5 ? 2 : hits[id] < 64 ? hits[id] / 2 : 32) == 0) nap(2000 + (uint32_t)((q >> 20) % 30000));
                }
            }
        } else if (cx) {
            fops++;
            for (int i = 0; i < 4; i++)
                if (fops == stall_at[i]) nap(20000 + (uint32_t)(rnd() % 80000));
        }
    }
    inside = 0;
}

#define PC ((uintptr_t)__builtin_return_address(0))
#define NI __attribute__((noinline)) __attribute__((visibility("default")))

/* the point before an operation and, for writes, the one after it: both sides of a window */
#define ATOMIC(S, T)                                                                                         \
    NI T __tsan_atomic##S##_load(const volatile T *a, int mo) { point(PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    NI void __tsan_atomic##S##_store(volatile T *a, T v, int mo) { point(PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); point(PC + 1); } \
    NI T __tsan_atomic##S##_exchange(volatile T *a, T v, int mo) { point(PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI T __tsan_atomic##S##_fetch_add(volatile T *a, T v, int mo) { point(PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI T __tsan_atomic##S##_fetch_sub(volatile T *a, T v, int mo) { point(PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI T __tsan_atomic##S##_fetch_and(volatile T *a, T v, int mo) { point(PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI T __tsan_atomic##S##_fetch_or(volatile T *a, T v, int mo) { point(PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI T __tsan_atomic##S##_fetch_xor(volatile T *a, T v, int mo) { point(PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI T __tsan_atomic##S##_fetch_nand(volatile T *a, T v, int mo) { point(PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI int __tsan_atomic##S##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {          \
        point(PC); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI int __tsan_atomic##S##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {            \
        point(PC); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); point(PC + 1); return r; } \
    NI T __tsan_atomic##S##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                \
        point(PC); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); point(PC + 1); return c; }

ATOMIC(8, a8)
ATOMIC(16, a16)
ATOMIC(32, a32)
ATOMIC(64, a64)

NI void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
NI void __tsan_atomic_signal_fence(int mo) {}

#define ACC(N)                                            \
    NI void __tsan_read##N(void *p) {}                    \
    NI void __tsan_write##N(void *p) {}                   \
    NI void __tsan_read_write##N(void *p) {}              \
    NI void __tsan_unaligned_read##N(void *p) {}          \
    NI void __tsan_unaligned_write##N(void *p) {}         \
    NI void __tsan_unaligned_read_write##N(void *p) {}    \
    NI void __tsan_volatile_read##N(void *p) {}           \
    NI void __tsan_volatile_write##N(void *p) {}          \
    NI void __tsan_unaligned_volatile_read##N(void *p) {} \
    NI void __tsan_unaligned_volatile_write##N(void *p) {}
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)

NI void __tsan_read_range(void *p, unsigned long n) {}
NI void __tsan_write_range(void *p, unsigned long n) {}
NI void __tsan_vptr_read(void **p) {}
NI void __tsan_vptr_update(void **p, void *v) {}
NI void __tsan_func_entry(void *pc) { if (depth < DEPTH) frames[depth] = (uintptr_t)pc; depth++; }
NI void __tsan_func_exit(void) { depth--; }
NI void __tsan_ignore_thread_begin(void) {}
NI void __tsan_ignore_thread_end(void) {}
NI void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
NI void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
NI void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
