// Simulator kernel, linked into the instrumented build of the extension.
//  - owns every allocation the extension makes (link-time --wrap) and every PyMem
//    allocation (PyMem_SetAllocator): counts, fails, tracks;
//  - owns every release of the interpreter lock by the extension (--wrap);
//  - owns which client thread runs (baton), including at basic-block granularity inside
//    regions in which the extension has dropped the lock (trace-pc callback);
//  - owns the stdio calls of the extension (--wrap), see stdio section.
// Nothing in here reads a clock or a random source: every decision is an entry of the
// choice list of the plan.
#define PY_SSIZE_T_CLEAN
#include <utility>
#include <Python.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <new>
#include <exception>
#include <unordered_map>
#include <vector>

#define EXPORT __attribute__((visibility("default")))
#define NOCOV
static const int MAXT = 6;

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__real__ZnwmSt11align_val_t(size_t, size_t);
void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
void __real__ZdlPv(void *);
void __real__ZdaPv(void *);
void __real__ZdlPvm(void *, size_t);
void __real__ZdaPvm(void *, size_t);
void __real__ZdlPvmSt11align_val_t(void *, size_t, size_t);
void __real__ZdlPvSt11align_val_t(void *, size_t);
PyThreadState *__real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState *);
}

template <class T> struct RawAlloc {
    using value_type = T;
    RawAlloc() = default;
    template <class U> RawAlloc(const RawAlloc<U> &) {}
    T *allocate(size_t n) { return (T *) __real_malloc(n * sizeof(T)); }
    void deallocate(T *p, size_t) { __real_free(p); }
};
template <class T, class U> bool operator==(const RawAlloc<T> &, const RawAlloc<U> &) { return true; }
template <class T, class U> bool operator!=(const RawAlloc<T> &, const RawAlloc<U> &) { return false; }
template <class T> using RVec = std::vector<T, RawAlloc<T>>;

// ---------------------------------------------------------------- state
struct SimState {
    bool active = false;
    // schedule
    RVec<uint8_t> choices;
    size_t cpos = 0;
    int nthreads = 0;
    int current = -1;
    bool runnable[MAXT];
    sem_t sem[MAXT];
    sem_t mainsem, startsem;
    uint64_t loghash = 1469598103934665603ull;
    uint64_t nswitch = 0, nyield = 0, npreempt = 0, nwindow = 0;
    // fault
    uint64_t fired = 0, firedNative = 0, firedPy = 0, firedMem = 0, firedVp = 0, vpCalls = 0;
    // steps
    uint64_t steps = 0, stepLimit = 0, tail = 0;
};
static SimState S;
// the fault window of the call this thread is making
struct FaultWin { bool armed; void *frame; int64_t failAt, failLen, seen; size_t credit; int64_t vpAt, vpLen, vpSeen; };
static thread_local FaultWin F = {false, nullptr, -1, 0, 0, 0, -1, 0, 0};
static bool reuseMode = false;      // an object just freed by the call makes room for its next object of that size
static thread_local int tidx = -1;
static thread_local int nogil = 0;
static thread_local int64_t countdown = 0;
static thread_local int64_t freshleft = 0;      // preempt at the n-th block first reached in this window
static thread_local uint32_t windowId = 0;
static uint32_t nextWindow = 0;
static thread_local uint32_t coin = 0;          // preempt at any block first reached in this window, one in six
static bool inShim = false;
static int reportFd = 2;

static void sayAndExit(const char *msg, int code) {
    if (write(reportFd, msg, strlen(msg)) < 0) {}
    if (write(reportFd, "\n", 1) < 0) {}
    _exit(code);
}

static inline void mix(uint64_t v) {
    S.loghash ^= v;
    S.loghash *= 1099511628211ull;
}

static uint8_t nextChoice() {
    if (S.cpos < S.choices.size()) return S.choices[S.cpos++];
    S.cpos++;
    return 0;
}

// hand the baton to thread n and wait for it to come back. No GIL held here unless caller
// guarantees that no other thread needs it (never).
static void switchTo(int n) {
    int me = tidx;
    S.nswitch++;
    S.current = n;
    sem_post(&S.sem[n]);
    while (sem_wait(&S.sem[me]) != 0) {}
}

static int pickOther(uint8_t c) {
    int others[MAXT], k = 0;
    for (int i = 0; i < S.nthreads; i++) if (i != tidx && S.runnable[i]) others[k++] = i;
    if (!k) return -1;
    return others[(c - 1) % k];
}

// called without the GIL by a client thread holding the baton
static void pointNoGil(int site) {
    if (!S.active || tidx < 0) return;
    S.nyield++;
    uint8_t c = nextChoice();
    if (c == 0) { mix(site * 16 + tidx); return; }
    int n = pickOther(c);
    if (n < 0) return;
    mix((site + 100) * 16 + tidx);
    mix(n + 7);
    switchTo(n);
}

// ---------------------------------------------------------------- coverage callback
static const size_t COVN = 1 << 16;
static uint8_t covmap[COVN];
static uint32_t covwin[COVN];      // the last window that reached the block
static uintptr_t covbase = 0;

static void armPreempt(uint8_t mode, uint8_t arg) {
    countdown = freshleft = 0;
    coin = 0;
    if (!mode) return;
    if (!arg) arg = 1 + (uint8_t) (S.cpos * 7919 % 40);
    if (mode & 1) countdown = (int64_t) arg * arg / 8 + 1;
    else if (mode & 2) freshleft = arg;
    else coin = arg * 2654435761u | 1;
}

// a block was reached with the interpreter lock released
static void maybePreempt(size_t h) {
    bool hit = false;
    if (countdown > 0 && --countdown == 0) hit = true;
    if ((freshleft > 0 || coin) && covwin[h & (COVN - 1)] != windowId) {
        covwin[h & (COVN - 1)] = windowId;
        if (freshleft > 0) hit = --freshleft == 0;
        else {
            coin = coin * 1664525u + 1013904223u;
            hit = (coin >> 16) % 6 == 0;
        }
    }
    if (!hit) return;
    S.npreempt++;
    uint8_t c = nextChoice();
    int n = pickOther(c ? c : 1);
    if (n >= 0) {
        mix(5000 + tidx);
        mix(n + 7);
        switchTo(n);
    }
    // possibly preempt again in the same window
    if (coin) return;
    c = nextChoice();
    if (c) armPreempt(c, nextChoice());
}

extern "C" EXPORT void __sanitizer_cov_trace_pc(void) {
    uintptr_t pc = (uintptr_t) __builtin_return_address(0);
    size_t h = ((pc - covbase) >> 1) & (COVN - 1);
    covmap[h] = 1;
    if (!S.active) {
        // what releases the objects after the run has to end too
        if (S.tail && --S.tail == 0) sayAndExit("SIM-HANG step budget exceeded inside the extension", 97);
        return;
    }
    S.steps++;
    if (S.stepLimit && S.steps > S.stepLimit) {
        S.active = false;
        sayAndExit("SIM-HANG step budget exceeded inside the extension", 97);
    }
    if (nogil && tidx >= 0 && !inShim) maybePreempt(h);
}

// ---------------------------------------------------------------- copies can be cut short too
extern "C" {
void *__real_memmove(void *, const void *, size_t);
void *__real_memcpy(void *, const void *, size_t);
int __real_memcmp(const void *, const void *, size_t);

void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (!S.active || !nogil || tidx < 0 || n < 2) return __real_memmove(d, s, n);
    size_t h = (((uintptr_t) __builtin_return_address(0) - covbase) >> 1) & (COVN - 1);
    size_t half = n / 2 & ~(size_t) 7;
    if (d <= s || (char *) d >= (const char *) s + n) {
        __real_memmove(d, s, half);
        maybePreempt(h ^ 1);
        __real_memmove((char *) d + half, (const char *) s + half, n - half);
    } else {
        __real_memmove((char *) d + half, (const char *) s + half, n - half);
        maybePreempt(h ^ 1);
        __real_memmove(d, s, half);
    }
    maybePreempt(h ^ 2);
    return d;
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (!S.active || !nogil || tidx < 0 || n < 2) return __real_memcpy(d, s, n);
    size_t h = (((uintptr_t) __builtin_return_address(0) - covbase) >> 1) & (COVN - 1);
    size_t half = n / 2 & ~(size_t) 7;
    __real_memcpy(d, s, half);
    maybePreempt(h ^ 1);
    __real_memcpy((char *) d + half, (const char *) s + half, n - half);
    maybePreempt(h ^ 2);
    return d;
}
int __wrap_memcmp(const void *d, const void *s, size_t n) {
    if (!S.active || !nogil || tidx < 0 || n < 2) return __real_memcmp(d, s, n);
    size_t h = (((uintptr_t) __builtin_return_address(0) - covbase) >> 1) & (COVN - 1);
    size_t half = n / 2 & ~(size_t) 7;
    int r = __real_memcmp(d, s, half);
    maybePreempt(h ^ 1);
    if (r == 0) r = __real_memcmp((const char *) d + half, (const char *) s + half, n - half);
    maybePreempt(h ^ 2);
    return r;
}
}
// ---------------------------------------------------------------- mutexes of the extension
// A client that finds a mutex taken runs its owner; an owner that can only go on with the
// interpreter lock the client holds is a deadlock.
static int lockWaiter = -1;
static bool gilWaiting[MAXT];
struct Owner { void *m; int who; };
static RVec<Owner> owners;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!S.active || tidx < 0) return __real_pthread_mutex_lock(m);
    for (int tries = 0; pthread_mutex_trylock(m) != 0; tries++) {
        int who = -1;
        for (auto &o: owners) if (o.m == m) who = o.who;
        if (who < 0 || who == tidx || gilWaiting[who] || tries > 1000) {
            S.active = false;
            sayAndExit("SIM-HANG deadlock: a mutex of the extension is never released", 97);
        }
        if (!nogil) lockWaiter = tidx;
        switchTo(who);
        lockWaiter = -1;
    }
    owners.push_back({m, tidx});
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    for (size_t i = 0; i < owners.size(); i++) if (owners[i].m == m) { owners.erase(owners.begin() + i); break; }
    return __real_pthread_mutex_unlock(m);
}
}
// ---------------------------------------------------------------- GIL
extern "C" PyThreadState *__wrap_PyEval_SaveThread(void) {
    PyThreadState *t = __real_PyEval_SaveThread();
    nogil++;
    if (S.active && tidx >= 0) {
        S.nwindow++;
        armPreempt(0, 0);
        pointNoGil(1);
        windowId = ++nextWindow;
        uint8_t c = nextChoice();
        if (c) armPreempt(c, nextChoice());
    }
    return t;
}

extern "C" void __wrap_PyEval_RestoreThread(PyThreadState *t) {
    armPreempt(0, 0);
    if (S.active && tidx >= 0) {
        pointNoGil(2);
        // a thread that holds the interpreter lock is waiting for a mutex: it must get on first
        while (lockWaiter >= 0 && lockWaiter != tidx) {
            gilWaiting[tidx] = true;
            switchTo(lockWaiter);
            gilWaiting[tidx] = false;
        }
    }
    nogil--;
    __real_PyEval_RestoreThread(t);
}

// ---------------------------------------------------------------- allocator
struct Blk { size_t size; uint64_t seq; char kind; };
using Map = std::unordered_map<void *, Blk, std::hash<void *>, std::equal_to<void *>, RawAlloc<std::pair<void *const, Blk>>>;
static Map *nativeLive = nullptr;
static Map *pyLive = nullptr;     // blocks of the OBJ domain allocated while tracking
static bool trackPy = false;
static uint64_t allocSeq = 0;
static uint64_t liveBytes = 0;

static Map &nlive() {
    if (!nativeLive) { void *m = __real_malloc(sizeof(Map)); nativeLive = new (m) Map(); }
    return *nativeLive;
}
static Map &plive() {
    if (!pyLive) { void *m = __real_malloc(sizeof(Map)); pyLive = new (m) Map(); }
    return *pyLive;
}

static const size_t HUGE_REQ = (size_t) 1 << 32;   // the simulated machine has 4 GB

static void *pyFrame() {
    PyThreadState *t = _PyThreadState_UncheckedGet();
    return t && t->cframe ? (void *) t->cframe->current_frame : nullptr;
}

static bool shouldFail(bool native) {
    if (!F.armed || F.failAt < 0) return false;
    // the fault belongs to the call, not to user code it calls back
    if (!native && pyFrame() != F.frame) return false;
    int64_t i = F.seen++;
    if (i >= F.failAt && (F.failLen < 0 || i < F.failAt + F.failLen)) {
        S.fired++;
        if (native) S.firedNative++; else S.firedPy++;
        mix(9000 + i);
        return true;
    }
    return false;
}

static void note(void *p, size_t n, char kind) {
    if (p) { nlive()[p] = Blk{n, allocSeq++, kind}; liveBytes += n; }
}
static char unnote(void *p) {
    if (!p) return 0;
    auto it = nlive().find(p);
    if (it == nlive().end()) return '?';
    char k = it->second.kind;
    liveBytes -= it->second.size;
    nlive().erase(it);
    return k;
}

// ---- the simulated heap (on request): a fixed arena that hands out recently freed addresses
// again, page-sized blocks on pages of their own, and lets realloc stay or move as the plan says.
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
struct Arena {
    char *base = nullptr; size_t size = 0, top = 0;
    bool on = false;
    RVec<uint8_t> script; size_t pos = 0;
    struct Free { char *p; size_t cap; };
    RVec<Free> freed;
    struct Info { size_t cap; size_t pad; };
    std::unordered_map<void *, Info, std::hash<void *>, std::equal_to<void *>, RawAlloc<std::pair<void *const, Info>>> cap;
    uint64_t reused = 0, inplace = 0, moved = 0;
};
static Arena *arena = nullptr;
static bool inArena(void *p) { return arena && (char *) p >= arena->base && (char *) p < arena->base + arena->size; }
static uint8_t heapChoice() { return arena->pos < arena->script.size() ? arena->script[arena->pos++] : 0; }
static void *arenaAlloc(size_t n, size_t al) {
    size_t cap = (n + 15) & ~(size_t) 15;
    if (cap == 0) cap = 16;
    if (al < 16) al = 16;
    if (cap > arena->size) { errno = ENOMEM; return nullptr; }
    // most recently freed first, unless the plan says otherwise
    if (heapChoice() % 4 != 3) {
        for (size_t i = arena->freed.size(); i-- > 0;) {
            auto f = arena->freed[i];
            if (f.cap >= cap && f.cap <= 2 * cap + 32 && (uintptr_t) f.p % al == 0) {
                arena->freed.erase(arena->freed.begin() + i);
                arena->reused++;
                arena->cap[f.p] = {f.cap, 0};
                if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(f.p, n);
                memset(f.p, 0xbe, n);
                return f.p;
            }
        }
    }
    size_t at = (size_t) (((uintptr_t) arena->base + arena->top + 32 + al - 1) / al * al - (uintptr_t) arena->base);
    if (at + cap + 32 > arena->size) { errno = ENOMEM; return nullptr; }
    arena->top = at + cap;
    char *p = arena->base + at;
    arena->cap[p] = {cap, 0};
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n);
    memset(p, 0xbe, n);
    return p;
}
static void arenaFree(void *p) {
    auto it = arena->cap.find(p);
    if (it == arena->cap.end()) sayAndExit("SUMMARY: AddressSanitizer: bad-free of an address that is not a live block", 99);
    size_t cap = it->second.cap;
    arena->cap.erase(it);
    if (__asan_poison_memory_region) __asan_poison_memory_region(p, cap);
    arena->freed.push_back({(char *) p, cap});
}
#define ARENA (arena && arena->on && S.active)

extern "C" {
void *__wrap_malloc(size_t n) {
    if (n > HUGE_REQ || shouldFail(true)) { errno = ENOMEM; return nullptr; }
    void *p = ARENA ? arenaAlloc(n, 16) : __real_malloc(n); note(p, n, 'm'); return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || n > HUGE_REQ || shouldFail(true)) { errno = ENOMEM; return nullptr; }
    void *p = ARENA ? arenaAlloc(n, 16) : __real_calloc(a, b);
    if (p && inArena(p)) memset(p, 0, n);
    note(p, n, 'm'); return p;
}
void *__wrap_realloc(void *o, size_t n) {
    if (n > HUGE_REQ || shouldFail(true)) { errno = ENOMEM; return nullptr; }
    if (inArena(o) || (!o && ARENA)) {
        if (!o) { void *p = arenaAlloc(n, 16); note(p, n, 'm'); return p; }
        auto it = arena->cap.find(o);
        if (it == arena->cap.end()) sayAndExit("SUMMARY: AddressSanitizer: bad-realloc of an address that is not a live block", 99);
        if (n == 0) { unnote(o); arenaFree(o); return nullptr; }
        size_t old = nlive()[o].size, cap = it->second.cap;
        if (n <= cap && heapChoice() % 2 == 0) {
            arena->inplace++;
            unnote(o);
            if (__asan_poison_memory_region) { __asan_poison_memory_region(o, cap); __asan_unpoison_memory_region(o, n); }
            if (n > old) memset((char *) o + old, 0xbe, n - old);
            note(o, n, 'm');
            return o;
        }
        void *p = arenaAlloc(n, 16);
        if (!p) return nullptr;
        arena->moved++;
        __real_memcpy(p, o, old < n ? old : n);
        unnote(o);
        arenaFree(o);
        note(p, n, 'm');
        return p;
    }
    if (o) unnote(o);
    void *p = __real_realloc(o, n); note(p, n, 'm'); return p;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
    if (n > HUGE_REQ || shouldFail(true)) { errno = ENOMEM; return nullptr; }
    if (al == 0 || (al & (al - 1)) || al > ((size_t) 1 << 30)) { errno = EINVAL; return nullptr; }
    if (ARENA) { void *p = arenaAlloc(n, al); note(p, n, 'm'); return p; }
    // glibc accepts any size; the address checker's version insists on a multiple
    void *p = nullptr;
    if (__real_posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n) != 0) { errno = ENOMEM; return nullptr; }
    note(p, n, 'm'); return p;
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
    if (n > HUGE_REQ || shouldFail(true)) return ENOMEM;
    if (ARENA) { *out = arenaAlloc(n, al); if (!*out) return ENOMEM; note(*out, n, 'm'); return 0; }
    int r = __real_posix_memalign(out, al, n); if (r == 0) note(*out, n, 'm'); return r;
}
void __wrap_free(void *p) {
    unnote(p);
    if (p && inArena(p)) arenaFree(p); else __real_free(p);
}

static void *newImpl(size_t n, size_t al, bool arr) {
    if (n > HUGE_REQ || shouldFail(true)) throw std::bad_alloc();
    void *p = al ? __real__ZnwmSt11align_val_t(n, al) : arr ? __real__Znam(n) : __real__Znwm(n);
    note(p, n, 'n'); return p;
}
void *__wrap__Znwm(size_t n) { return newImpl(n, 0, false); }
void *__wrap__Znam(size_t n) { return newImpl(n, 0, true); }
void *__wrap__ZnwmSt11align_val_t(size_t n, size_t al) { return newImpl(n, al, false); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) {
    if (n > HUGE_REQ || shouldFail(true)) return nullptr;
    void *p = __real__ZnwmRKSt9nothrow_t(n, t); note(p, n, 'n'); return p;
}
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) {
    if (n > HUGE_REQ || shouldFail(true)) return nullptr;
    void *p = __real__ZnamRKSt9nothrow_t(n, t); note(p, n, 'n'); return p;
}
void __wrap__ZdlPv(void *p) { unnote(p); __real__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { unnote(p); __real__ZdaPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { unnote(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { unnote(p); __real__ZdaPvm(p, n); }
void __wrap__ZdlPvmSt11align_val_t(void *p, size_t n, size_t al) { unnote(p); __real__ZdlPvmSt11align_val_t(p, n, al); }
void __wrap__ZdlPvSt11align_val_t(void *p, size_t al) { unnote(p); __real__ZdlPvSt11align_val_t(p, al); }
}

// PyMem hooks
static PyMemAllocatorEx baseAlloc[3];
static bool hooksInstalled = false;

static bool spendCredit(intptr_t d, size_t n) {
    if (d != 2 || !F.armed || F.credit < n || F.credit == 0) return false;
    F.credit = 0;
    return true;
}
static void *pm_malloc(void *ctx, size_t n) {
    intptr_t d = (intptr_t) ctx;
    if (d != 0 && !spendCredit(d, n) && (n > HUGE_REQ || shouldFail(false))) { if (d == 1) S.firedMem++; return nullptr; }
    void *p = baseAlloc[d].malloc(baseAlloc[d].ctx, n);
    if (d == 2 && trackPy && p) plive()[p] = Blk{n, allocSeq++, 'o'};
    return p;
}
static void *pm_calloc(void *ctx, size_t a, size_t b) {
    intptr_t d = (intptr_t) ctx;
    if (d != 0 && shouldFail(false)) return nullptr;
    void *p = baseAlloc[d].calloc(baseAlloc[d].ctx, a, b);
    if (d == 2 && trackPy && p) plive()[p] = Blk{a * b, allocSeq++, 'o'};
    return p;
}
static void *pm_realloc(void *ctx, void *o, size_t n) {
    intptr_t d = (intptr_t) ctx;
    if (d != 0 && (n > HUGE_REQ || shouldFail(false))) return nullptr;
    void *p = baseAlloc[d].realloc(baseAlloc[d].ctx, o, n);
    if (d == 2 && p) {
        bool was = o && pyLive && plive().erase(o);
        if (was || trackPy) plive()[p] = Blk{n, allocSeq++, 'o'};
    }
    return p;
}
static void pm_free(void *ctx, void *p) {
    intptr_t d = (intptr_t) ctx;
    if (d == 2 && p && pyLive) {
        auto it = plive().find(p);
        if (it != plive().end()) {
            if (reuseMode && F.armed && pyFrame() == F.frame) F.credit = it->second.size;
            plive().erase(it);
        }
    }
    baseAlloc[d].free(baseAlloc[d].ctx, p);
}

static void installHooks() {
    if (hooksInstalled) return;
    hooksInstalled = true;
    PyMemAllocatorDomain doms[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    for (intptr_t i = 0; i < 3; i++) {
        PyMem_GetAllocator(doms[i], &baseAlloc[i]);
        if (i == 0) continue;
        PyMemAllocatorEx a;
        a.ctx = (void *) i; a.malloc = pm_malloc; a.calloc = pm_calloc; a.realloc = pm_realloc; a.free = pm_free;
        PyMem_SetAllocator(doms[i], &a);
    }
}

// ---------------------------------------------------------------- stdio seam: the
// extension's stdin/stdout are replaced by cookie streams over a scripted device.
struct Dev {
    RVec<char> in; size_t ipos = 0;
    RVec<char> out;
    RVec<int> wscript, rscript; size_t wpos = 0, rpos = 0;   // n>0: at most n bytes; -errno: fail; 0: unlimited
    uint64_t werr = 0, rerr = 0, wshort = 0, rshort = 0, nw = 0, nr = 0;
};
static Dev *dev = nullptr;
static thread_local uint64_t myWerr = 0, myRerr = 0;    // errors shown to the calls of this thread
static FILE *devIn = nullptr, *devOut = nullptr, *origIn = nullptr, *origOut = nullptr;

static ssize_t dev_write(void *, const char *b, size_t n) {
    // one entry of the script is one write(2) on the device; the stream layer goes on after a
    // short count and stops at an error, as glibc does for a descriptor
    size_t done = 0;
    while (done < n) {
        dev->nw++;
        int s = dev->wpos < dev->wscript.size() ? dev->wscript[dev->wpos++] : 0;
        if (s < 0) { dev->werr++; myWerr++; errno = -s; break; }
        size_t k = n - done;
        if (s > 0 && (size_t) s < k) { k = s; dev->wshort++; }
        dev->out.insert(dev->out.end(), b + done, b + done + k);
        done += k;
    }
    return (ssize_t) done;
}
static ssize_t dev_read(void *, char *b, size_t n) {
    dev->nr++;
    int s = dev->rpos < dev->rscript.size() ? dev->rscript[dev->rpos++] : 0;
    if (s < 0) { dev->rerr++; myRerr++; errno = -s; return -1; }
    size_t k = dev->in.size() - dev->ipos;
    if (k > n) k = n;
    if (s > 0 && (size_t) s < k) { k = s; dev->rshort++; }
    if (k) memcpy(b, dev->in.data() + dev->ipos, k);
    dev->ipos += k;
    return (ssize_t) k;
}

static PyObject *m_dev_open(PyObject *, PyObject *args) {
    const char *in; Py_ssize_t nin; PyObject *ws, *rs; int bufsz;
    if (!PyArg_ParseTuple(args, "y#OOi", &in, &nin, &ws, &rs, &bufsz)) return nullptr;
    if (!dev) dev = new (__real_malloc(sizeof(Dev))) Dev(); else { dev->~Dev(); new (dev) Dev(); }
    dev->in.assign(in, in + nin);
    for (Py_ssize_t i = 0; i < PyList_GET_SIZE(ws); i++) dev->wscript.push_back((int) PyLong_AsLong(PyList_GET_ITEM(ws, i)));
    for (Py_ssize_t i = 0; i < PyList_GET_SIZE(rs); i++) dev->rscript.push_back((int) PyLong_AsLong(PyList_GET_ITEM(rs, i)));
    if (!origIn) { origIn = stdin; origOut = stdout; }
    cookie_io_functions_t wf = {nullptr, dev_write, nullptr, nullptr};
    cookie_io_functions_t rf = {dev_read, nullptr, nullptr, nullptr};
    devOut = fopencookie(nullptr, "w", wf);
    devIn = fopencookie(nullptr, "r", rf);
    if (bufsz > 0) { setvbuf(devOut, nullptr, _IOFBF, bufsz); setvbuf(devIn, nullptr, _IOFBF, bufsz); }
    if (bufsz < -1) { setvbuf(devOut, nullptr, _IOLBF, -bufsz); setvbuf(devIn, nullptr, _IOFBF, -bufsz); }
    else if (bufsz < 0) { setvbuf(devOut, nullptr, _IONBF, 0); setvbuf(devIn, nullptr, _IONBF, 0); }
    stdin = devIn; stdout = devOut;
    Py_RETURN_NONE;
}
static PyObject *m_dev_out(PyObject *, PyObject *) {
    return PyBytes_FromStringAndSize(dev->out.data(), dev->out.size());
}
static PyObject *m_dev_stats(PyObject *, PyObject *) {
    return Py_BuildValue("{s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:n}", "mywerr", myWerr, "myrerr", myRerr, "werr", dev->werr, "rerr", dev->rerr, "wshort", dev->wshort, "rshort",
                         dev->rshort, "nw", dev->nw, "nr", dev->nr, "ipos", (Py_ssize_t) dev->ipos);
}
static PyObject *m_dev_heal(PyObject *, PyObject *) { dev->wscript.clear(); dev->rscript.clear(); Py_RETURN_NONE; }
static PyObject *m_dev_close(PyObject *, PyObject *) {
    // the device stops failing, then the streams are closed
    dev->wscript.clear(); dev->rscript.clear();
    fclose(devOut); fclose(devIn);
    stdin = origIn; stdout = origOut;
    Py_RETURN_NONE;
}

// ---------------------------------------------------------------- simulated Windows memory API
static const uintptr_t PG = 4096;
using PageMap = std::unordered_map<uintptr_t, unsigned, std::hash<uintptr_t>, std::equal_to<uintptr_t>, RawAlloc<std::pair<const uintptr_t, unsigned>>>;
static PageMap *pages = nullptr;
static PageMap &ptab() {
    if (!pages) { void *m = __real_malloc(sizeof(PageMap)); pages = new (m) PageMap(); }
    return *pages;
}
extern "C" EXPORT int VirtualProtect(void *addr, size_t n, unsigned prot, unsigned *old) {
    S.vpCalls++;
    if (S.active && F.armed && F.vpAt >= 0) {
        int64_t i = F.vpSeen++;
        if (i >= F.vpAt && (F.vpLen < 0 || i < F.vpAt + F.vpLen)) { S.firedVp++; mix(9500 + i); return 0; }
    }
    int mode;
    switch (prot) {
        case 0x01: mode = PROT_NONE; break;
        case 0x02: mode = PROT_READ; break;
        case 0x04: mode = PROT_READ | PROT_WRITE; break;
        case 0x10: case 0x20: mode = PROT_READ | PROT_EXEC; break;
        case 0x40: mode = PROT_READ | PROT_WRITE | PROT_EXEC; break;
        default: return 0;      // ERROR_INVALID_PARAMETER
    }
    if (!addr || !n || !old) return 0;
    uintptr_t a = (uintptr_t) addr & ~(PG - 1), e = ((uintptr_t) addr + n + PG - 1) & ~(PG - 1);
    auto it = ptab().find(a);
    unsigned was = it == ptab().end() ? 0x04 : it->second;
    if (mprotect((void *) a, e - a, mode) != 0) return 0;
    for (uintptr_t p = a; p < e; p += PG) ptab()[p] = prot;
    *old = was;
    return 1;
}
extern "C" EXPORT unsigned GetLastError(void) { return 0; }
extern "C" EXPORT void *GetCurrentProcess(void) { return (void *) -1; }
extern "C" EXPORT int FlushInstructionCache(void *, const void *, size_t) { return 1; }

static int64_t counters[64];
static char patternBuf[512];
static PyObject *nativeCb = nullptr;
static bool isExec(unsigned prot) { return prot >= 0x10; }
static void resetPages() {
    for (auto &kv: ptab()) if (kv.second != 0x04) mprotect((void *) kv.first, PG, PROT_READ | PROT_WRITE);
    ptab().clear();
}
// a native function that calls back into Python, as one made with ctypes would
extern "C" EXPORT void sim_native_callback(int id) {
    FaultWin saved = F;
    F.armed = false;
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    PyErr_Fetch(&t, &v, &b);
    if (nativeCb) {
        PyObject *r = PyObject_CallFunction(nativeCb, "i", id);
        if (!r) PyErr_Clear();
        Py_XDECREF(r);
    }
    PyErr_Restore(t, v, b);
    F = saved;
}
static PyObject *m_win_reset(PyObject *, PyObject *cb) {
    resetPages();
    memset(counters, 0, sizeof counters);
    for (size_t i = 0; i < sizeof patternBuf; i++) patternBuf[i] = (char) (i * 37 + 11);
    Py_XINCREF(cb); Py_XSETREF(nativeCb, cb);
    S.firedVp = S.vpCalls = 0;
    Py_RETURN_NONE;
}
static PyObject *m_win_addr(PyObject *, PyObject *args) {
    const char *w; int i = 0;
    if (!PyArg_ParseTuple(args, "s|i", &w, &i)) return nullptr;
    void *p = *w == 'c' ? (void *) &counters[i] : *w == 'p' ? (void *) patternBuf : (void *) sim_native_callback;
    return PyLong_FromVoidPtr(p);
}
static PyObject *m_win_counter(PyObject *, PyObject *v) { return PyLong_FromLongLong(counters[PyLong_AsLong(v)]); }
static PyObject *m_win_exec(PyObject *, PyObject *) {       // pages that are executable now
    PyObject *l = PyList_New(0);
    for (auto &kv: ptab()) if (isExec(kv.second)) { PyObject *o = PyLong_FromUnsignedLongLong(kv.first); PyList_Append(l, o); Py_DECREF(o); }
    PyList_Sort(l);
    return l;
}
static PyObject *m_win_stats(PyObject *, PyObject *) { return Py_BuildValue("{s:K,s:K}", "vpfired", S.firedVp, "vpcalls", S.vpCalls); }
static PyObject *m_vpfired(PyObject *, PyObject *) { return PyLong_FromUnsignedLongLong(S.firedVp); }
// live native blocks of the C allocator / of operator new
static PyObject *m_kinds(PyObject *, PyObject *) {
    Py_ssize_t m = 0, n = 0;
    for (auto &kv: nlive()) { if (kv.second.kind == 'm') m++; else n++; }
    return Py_BuildValue("(nn)", m, n);
}
// a bytes object whose data starts at off modulo 16 (off a multiple of 8); never deallocated
// by the interpreter, released by dropbytes
static RVec<void *> ownBytes;
static PyObject *m_mkbytes(PyObject *, PyObject *args) {
    const char *b; Py_ssize_t n; int off;
    if (!PyArg_ParseTuple(args, "y#i", &b, &n, &off)) return nullptr;
    char *m = (char *) __real_malloc(n + 128);
    ownBytes.push_back(m);
    char *o = (char *) (((uintptr_t) m + 15) & ~(uintptr_t) 15);
    while (((uintptr_t) o + offsetof(PyBytesObject, ob_sval)) % 16 != (uintptr_t) off) o += 8;
    auto *x = (PyBytesObject *) o;
    memset(o, 0, sizeof(PyBytesObject));
    ((PyObject *) x)->ob_refcnt = 1000;
    ((PyObject *) x)->ob_type = &PyBytes_Type;
    ((PyVarObject *) x)->ob_size = n;
    x->ob_shash = -1;
    memcpy(x->ob_sval, b, n);
    x->ob_sval[n] = 0;
    return (PyObject *) x;
}
static PyObject *m_dropbytes(PyObject *, PyObject *) {
    for (auto *p: ownBytes) __real_free(p);
    ownBytes.clear();
    Py_RETURN_NONE;
}

// ---------------------------------------------------------------- python interface
static PyObject *m_begin(PyObject *, PyObject *args) {
    const char *b; Py_ssize_t n; int nt; unsigned long long limit;
    if (!PyArg_ParseTuple(args, "y#iK", &b, &n, &nt, &limit)) return nullptr;
    installHooks();
    S.choices.assign((const uint8_t *) b, (const uint8_t *) b + n);
    S.cpos = 0; S.nthreads = nt; S.current = -1;
    S.loghash = 1469598103934665603ull;
    S.nswitch = S.nyield = S.npreempt = S.nwindow = 0;
    S.fired = S.firedNative = S.firedPy = 0;
    F.armed = false; F.failAt = -1;
    owners.clear(); lockWaiter = -1;
    memset(gilWaiting, 0, sizeof gilWaiting);
    S.steps = 0; S.stepLimit = limit;
    for (int i = 0; i < nt; i++) { S.runnable[i] = true; sem_init(&S.sem[i], 0, 0); }
    sem_init(&S.mainsem, 0, 0); sem_init(&S.startsem, 0, 0);
    S.active = true;
    Py_RETURN_NONE;
}
// a client thread announces itself and waits to be scheduled
static PyObject *m_enter(PyObject *, PyObject *args) {
    int i; if (!PyArg_ParseTuple(args, "i", &i)) return nullptr;
    tidx = i; nogil = 0; countdown = 0;
    PyThreadState *t = __real_PyEval_SaveThread();
    sem_post(&S.startsem);
    while (sem_wait(&S.sem[i]) != 0) {}
    __real_PyEval_RestoreThread(t);
    Py_RETURN_NONE;
}
static PyObject *m_started(PyObject *, PyObject *) {    // main: wait until one more client is parked
    PyThreadState *t = __real_PyEval_SaveThread();
    while (sem_wait(&S.startsem) != 0) {}
    __real_PyEval_RestoreThread(t);
    Py_RETURN_NONE;
}
static PyObject *m_solo(PyObject *, PyObject *args) {   // the calling thread is client 0, alone
    tidx = 0; nogil = 0; countdown = 0; S.current = 0;
    Py_RETURN_NONE;
}
static PyObject *m_go(PyObject *, PyObject *args) {     // main: start client i, wait until all have left
    int i; if (!PyArg_ParseTuple(args, "i", &i)) return nullptr;
    S.current = i;
    sem_post(&S.sem[i]);
    PyThreadState *t = __real_PyEval_SaveThread();
    while (sem_wait(&S.mainsem) != 0) {}
    __real_PyEval_RestoreThread(t);
    Py_RETURN_NONE;
}
static PyObject *m_leave(PyObject *, PyObject *) {
    S.runnable[tidx] = false;
    uint8_t c = nextChoice();
    int n = pickOther(c ? c : 1);
    mix(7000 + tidx);
    tidx = -1;
    if (n < 0) { sem_post(&S.mainsem); }
    else { S.current = n; sem_post(&S.sem[n]); }
    Py_RETURN_NONE;
}
static PyObject *m_yield(PyObject *, PyObject *args) {
    int site; if (!PyArg_ParseTuple(args, "i", &site)) return nullptr;
    if (!S.active || tidx < 0) Py_RETURN_FALSE;
    S.nyield++;
    uint8_t c = nextChoice();
    if (c == 0) Py_RETURN_FALSE;
    int n = pickOther(c);
    if (n < 0) Py_RETURN_FALSE;
    mix((site + 300) * 16 + tidx); mix(n + 7);
    // the fault window belongs to this thread's call; other threads run unarmed
    PyThreadState *t = __real_PyEval_SaveThread();
    switchTo(n);
    __real_PyEval_RestoreThread(t);
    Py_RETURN_TRUE;
}
static PyObject *m_end(PyObject *, PyObject *) {
    S.active = false; tidx = -1; S.tail = 1000000000;
    return Py_BuildValue("{s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:n}", "loghash", S.loghash, "switches", S.nswitch, "yields", S.nyield,
                         "preempts", S.npreempt, "windows", S.nwindow, "fired", S.fired, "fired_native", S.firedNative,
                         "fired_py", S.firedPy, "steps", S.steps, "cpos", (Py_ssize_t) S.cpos);
}
// call(func, args, fail_at, fail_len): run func(*args) with the fail_at-th allocation failing
static PyObject *m_call(PyObject *, PyObject *const *a, Py_ssize_t n) {
    PyObject *func = a[0], *args = a[1];
    long long at = PyLong_AsLongLong(a[2]), len = PyLong_AsLongLong(a[3]);
    FaultWin saved = F;
    int ng = nogil;
    F = FaultWin{true, (void *) pyFrame(), at, len, 0, 0, -1, 0, 0};
    if (n > 5) { F.vpAt = PyLong_AsLongLong(a[4]); F.vpLen = PyLong_AsLongLong(a[5]); }
    PyObject *r = PyObject_Call(func, args, nullptr);
    F = saved;
    if (nogil != ng || !PyGILState_Check()) { S.active = false; sayAndExit("SIM-GIL the operation returned without the interpreter lock", 98); }
    if (r == nullptr && !PyErr_Occurred()) { PyErr_SetString(PyExc_SystemError, "SIM: NULL without exception"); }
    return r;
}
static PyObject *m_disarm(PyObject *, PyObject *) {
    // used by callbacks: while user code runs, suspend the fault window; returns a token
    PyObject *r = PyBool_FromLong(F.armed);
    F.armed = false; return r;
}
static PyObject *m_rearm(PyObject *, PyObject *v) { F.armed = PyObject_IsTrue(v) == 1; Py_RETURN_NONE; }
// native functions for Unsafe.call*: each counts its runs, runs a Python callback if it has one, returns its value
struct Native { int64_t value = 0; uint64_t runs = 0; PyObject *cb = nullptr; };
static const int NNAT = 24;
static Native natives[NNAT];
template<int N> static int64_t nativeFn() {
    Native &n = natives[N];
    n.runs++;
    int64_t v = n.value;
    if (n.cb) {
        bool armed = F.armed;
        int ng = nogil;
        int64_t cd = countdown, fl = freshleft;
        uint32_t co = coin;
        F.armed = false; nogil = 0;
        PyGILState_STATE g = PyGILState_Ensure();
        PyObject *cb = n.cb;
        Py_INCREF(cb);
        PyObject *r = PyObject_CallNoArgs(cb);
        if (!r) PyErr_Clear();
        Py_XDECREF(r);
        Py_DECREF(cb);
        PyGILState_Release(g);
        nogil = ng; countdown = cd; freshleft = fl; coin = co;
        F.armed = armed;
    }
    return v;
}
using NativeFn = int64_t (*)();
template<size_t... I> static NativeFn nativeAt(size_t i, std::index_sequence<I...>) {
    static const NativeFn t[] = {&nativeFn<(int) I>...};
    return t[i];
}
// native(slot, value, callback or None) -> address; forgets the earlier runs
static PyObject *m_native(PyObject *, PyObject *args) {
    int i; long long v; PyObject *cb;
    if (!PyArg_ParseTuple(args, "iLO", &i, &v, &cb)) return nullptr;
    if (i < 0 || i >= NNAT) { PyErr_SetString(PyExc_ValueError, "slot"); return nullptr; }
    Native &n = natives[i];
    PyObject *old = n.cb;
    n.value = v; n.runs = 0;
    n.cb = cb == Py_None ? nullptr : Py_NewRef(cb);
    Py_XDECREF(old);
    return PyLong_FromSize_t((size_t) nativeAt(i, std::make_index_sequence<NNAT>()));
}
static PyObject *m_nativeruns(PyObject *, PyObject *v) { return PyLong_FromUnsignedLongLong(natives[PyLong_AsLong(v)].runs); }
static PyObject *m_fired(PyObject *, PyObject *) { return PyLong_FromUnsignedLongLong(S.fired); }
// CPython 3.12's list.extend keeps a reference to its argument when the item array cannot be
// allocated (list_preallocate_exact): the harness counts those failures and gives back that one
// reference, so that it is not charged to the extension.
static PyObject *m_firedmem(PyObject *, PyObject *) { return PyLong_FromUnsignedLongLong(S.firedMem); }
static PyObject *m_decref(PyObject *, PyObject *v) { Py_DECREF(v); Py_RETURN_NONE; }
static PyObject *m_live(PyObject *, PyObject *) { return Py_BuildValue("(nK)", (Py_ssize_t) nlive().size(), (unsigned long long) liveBytes); }
static PyObject *m_reuse(PyObject *, PyObject *v) { reuseMode = PyObject_IsTrue(v) == 1; Py_RETURN_NONE; }
// heap(script or None): switch the simulated heap on with this script, or off
static PyObject *m_heap(PyObject *, PyObject *v) {
    if (!arena) {
        arena = new (__real_malloc(sizeof(Arena))) Arena();
        arena->size = (size_t) 64 << 20;
        arena->base = (char *) mmap(nullptr, arena->size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena->base == (char *) MAP_FAILED) { PyErr_NoMemory(); return nullptr; }
        if (__asan_poison_memory_region) __asan_poison_memory_region(arena->base, arena->size);
    }
    arena->on = v != Py_None;
    if (v != Py_None) {
        // a new history starts on an empty heap
        if (arena->top && __asan_poison_memory_region) __asan_poison_memory_region(arena->base, arena->top);
        for (auto it = nlive().begin(); it != nlive().end();) if (inArena(it->first)) it = nlive().erase(it); else ++it;
        arena->top = 0; arena->freed.clear(); arena->cap.clear(); arena->pos = 0;
        arena->reused = arena->inplace = arena->moved = 0;
        arena->script.assign((uint8_t *) PyBytes_AS_STRING(v), (uint8_t *) PyBytes_AS_STRING(v) + PyBytes_GET_SIZE(v));
    }
    Py_RETURN_NONE;
}
static PyObject *m_heapstats(PyObject *, PyObject *) {
    if (!arena) return Py_BuildValue("{}");
    return Py_BuildValue("{s:K,s:K,s:K}", "heap_reused", arena->reused, "heap_inplace", arena->inplace, "heap_moved", arena->moved);
}
// the live native block that contains this address: (base, size), or None
static PyObject *m_blockof(PyObject *, PyObject *v) {
    char *p = (char *) PyLong_AsVoidPtr(v);
    if (PyErr_Occurred()) return nullptr;
    for (auto &kv: nlive()) {
        char *b = (char *) kv.first;
        if (p >= b && (p < b + kv.second.size || p == b)) return Py_BuildValue("(Kn)", (unsigned long long) (uintptr_t) b, (Py_ssize_t) kv.second.size);
    }
    Py_RETURN_NONE;
}
static PyObject *m_peek(PyObject *, PyObject *args) {
    unsigned long long a; Py_ssize_t n;
    if (!PyArg_ParseTuple(args, "Kn", &a, &n)) return nullptr;
    return PyBytes_FromStringAndSize((const char *) a, n);
}
static PyObject *m_isblock(PyObject *, PyObject *v) {   // size of the live native block at address, or -1
    void *p = PyLong_AsVoidPtr(v);
    auto it = nlive().find(p);
    return PyLong_FromSsize_t(it == nlive().end() ? -1 : (Py_ssize_t) it->second.size);
}
static PyObject *m_track(PyObject *, PyObject *v) {
    installHooks();
    trackPy = PyObject_IsTrue(v) == 1;
    if (trackPy) plive().clear();
    Py_RETURN_NONE;
}
// census of tracked object blocks still alive that are plain ints: list of values
static PyObject *m_longs(PyObject *, PyObject *) {
    bool o = trackPy; trackPy = false;
    RVec<PyObject *> v;
    for (auto &kv: plive()) {
        PyObject *ob = (PyObject *) kv.first;
        if (kv.second.size >= 28 && kv.second.size <= 64 && ob->ob_type == &PyLong_Type && ob->ob_refcnt > 0) v.push_back(ob);
    }
    PyObject *l = PyList_New(0);
    for (auto *p: v) PyList_Append(l, p);
    PyList_Sort(l);
    trackPy = o;
    return l;
}
static PyObject *m_gilok(PyObject *, PyObject *) { return PyBool_FromLong(PyGILState_Check() && nogil == 0); }
static PyObject *m_cov(PyObject *, PyObject *) { return PyBytes_FromStringAndSize((char *) covmap, COVN); }
static PyObject *m_covclear(PyObject *, PyObject *) { memset(covmap, 0, COVN); Py_RETURN_NONE; }
static PyObject *m_state(PyObject *, PyObject *) {
    return Py_BuildValue("(KKn)", S.loghash, S.steps, (Py_ssize_t) S.cpos);
}
static PyObject *m_note(PyObject *, PyObject *v) { mix(PyLong_AsUnsignedLongLongMask(v)); Py_RETURN_NONE; }
static PyObject *m_self(PyObject *, PyObject *) { return PyLong_FromLong(tidx); }
static PyObject *m_reportfd(PyObject *, PyObject *v) { reportFd = (int) PyLong_AsLong(v); Py_RETURN_NONE; }

static void onTerminate() {
    const char *what = "unknown";
    char buf[256];
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (const std::exception &x) { what = x.what(); } catch (...) {}
    }
    snprintf(buf, sizeof buf, "SIM-TERMINATE C++ exception left the extension: %s", what);
    sayAndExit(buf, 96);
}

// the processor the code finds itself on: 0 this one, 1 without AVX-512, 2 without AVX2 either, 3 without SSE4.1/SSSE3 either
namespace simd {
    extern const bool IS_AVX512_SUPPORTED __attribute__((weak));
    extern const bool IS_AVX2_SUPPORTED __attribute__((weak));
    extern const bool IS_SSE41_SUPPORTED __attribute__((weak));
    extern const bool IS_SSSE3_SUPPORTED __attribute__((weak));
}
static PyObject *m_cpu(PyObject *, PyObject *arg) {
    static int detected = -1;
    const bool *flag[4] = {&simd::IS_AVX512_SUPPORTED, &simd::IS_AVX2_SUPPORTED, &simd::IS_SSE41_SUPPORTED, &simd::IS_SSSE3_SUPPORTED};
    static const int upto[4] = {0, 1, 2, 2};       // the last level that has it
    if (detected < 0) {
        detected = 0;
        for (int i = 0; i < 4; i++) if (flag[i] && *(volatile const bool *) flag[i]) detected |= 1 << i;
    }
    long level = PyLong_AsLong(arg);
    if (level == -1 && PyErr_Occurred()) return nullptr;
    for (int i = 0; i < 4; i++) if (flag[i]) *(volatile bool *) const_cast<bool *>(flag[i]) = (detected >> i & 1) && level <= upto[i];
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
    {"cpu", m_cpu, METH_O, nullptr},
    {"begin", m_begin, METH_VARARGS, nullptr}, {"enter", m_enter, METH_VARARGS, nullptr}, {"started", m_started, METH_NOARGS, nullptr}, {"go", m_go, METH_VARARGS, nullptr},
    {"solo", m_solo, METH_NOARGS, nullptr}, {"leave", m_leave, METH_NOARGS, nullptr}, {"yield_", m_yield, METH_VARARGS, nullptr},
    {"end", m_end, METH_NOARGS, nullptr}, {"call", (PyCFunction) (void *) m_call, METH_FASTCALL, nullptr},
    {"disarm", m_disarm, METH_NOARGS, nullptr},
    {"native", m_native, METH_VARARGS, nullptr}, {"nativeruns", m_nativeruns, METH_O, nullptr},
    {"rearm", m_rearm, METH_O, nullptr}, {"fired", m_fired, METH_NOARGS, nullptr},
    {"firedmem", m_firedmem, METH_NOARGS, nullptr}, {"decref", m_decref, METH_O, nullptr}, {"live", m_live, METH_NOARGS, nullptr},
    {"isblock", m_isblock, METH_O, nullptr}, {"track", m_track, METH_O, nullptr}, {"longs", m_longs, METH_NOARGS, nullptr},
    {"gilok", m_gilok, METH_NOARGS, nullptr}, {"cov", m_cov, METH_NOARGS, nullptr}, {"covclear", m_covclear, METH_NOARGS, nullptr},
    {"state", m_state, METH_NOARGS, nullptr}, {"note", m_note, METH_O, nullptr}, {"self_", m_self, METH_NOARGS, nullptr},
    {"reuse", m_reuse, METH_O, nullptr}, {"heap", m_heap, METH_O, nullptr}, {"heapstats", m_heapstats, METH_NOARGS, nullptr},
    {"blockof", m_blockof, METH_O, nullptr}, {"peek", m_peek, METH_VARARGS, nullptr},
    {"reportfd", m_reportfd, METH_O, nullptr},
    {"win_reset", m_win_reset, METH_O, nullptr}, {"win_addr", m_win_addr, METH_VARARGS, nullptr}, {"win_counter", m_win_counter, METH_O, nullptr},
    {"win_exec", m_win_exec, METH_NOARGS, nullptr}, {"win_stats", m_win_stats, METH_NOARGS, nullptr}, {"vpfired", m_vpfired, METH_NOARGS, nullptr},
    {"kinds", m_kinds, METH_NOARGS, nullptr}, {"mkbytes", m_mkbytes, METH_VARARGS, nullptr}, {"dropbytes", m_dropbytes, METH_NOARGS, nullptr},
    {"dev_open", m_dev_open, METH_VARARGS, nullptr}, {"dev_out", m_dev_out, METH_NOARGS, nullptr},
    {"dev_stats", m_dev_stats, METH_NOARGS, nullptr}, {"dev_heal", m_dev_heal, METH_NOARGS, nullptr}, {"dev_close", m_dev_close, METH_NOARGS, nullptr},
    {nullptr, nullptr, 0, nullptr}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "simctl", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};

PyMODINIT_FUNC PyInit_simctl(void) {
    covbase = (uintptr_t) &PyInit_simctl;
    std::set_terminate(onTerminate);
    return PyModule_Create(&def);
}
