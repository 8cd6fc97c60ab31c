#include "simthread.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <new>

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_clock_gettime(clockid_t, struct timespec *);
}

Stats st;
enum { MAXT = 96 };
struct Thr {
    sem_t sem;
    bool used, done, detached, client, joined;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    // blocked while pred says no, or until woken / the deadline
    bool (*pred)(void *);
    void *parg;
    bool waiting, woken;
    void *on;               // condition variable or futex it waits on
    bool cond;
    int64_t deadline;
    const char *why;
    int failAt, failLen;
};
static Thr T[MAXT];
static int nthr = 0;
static bool active = false;
static thread_local int me = -1;
static std::vector<Event> events;
static size_t epos = 0;
static int64_t gapLeft = -1;
static std::vector<int> wakes;
static size_t wpos = 0;
static uint64_t limit_ = 0;
static int64_t now_ = 0;
static uint64_t streak = 0;
static int createAt = -1, createLen = 0, createSeen = 0;
static int fired_ = 0;

void simDie(int code, const char *fmt, ...) {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 40, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof b - 41) n = sizeof b - 41;
    n += snprintf(b + n, 32, " hash=%llx", (unsigned long long) st.hash);
    b[n++] = '\n';
    if (write(2, b, n) < 0) {}
    _exit(code);
}
static inline void mix(uint64_t v) { st.hash ^= v; st.hash *= 1099511628211ull; }

static bool runnable(int i) {
    Thr &t = T[i];
    if (!t.used || t.done) return false;
    if (t.waiting) {
        if (t.woken) return true;
        return t.deadline >= 0 && now_ >= t.deadline;
    }
    return !t.pred || t.pred(t.parg);
}
static int pickNext(int pick, bool othersOnly) {
    int c[MAXT], k = 0;
    for (int i = 0; i < nthr; i++) if (runnable(i) && !(othersOnly && i == me)) c[k++] = i;
    if (!k) return -1;
    return c[(unsigned) pick % k];
}
static void loadEvent() { gapLeft = epos < events.size() ? events[epos].gap : -1; }
static int eventPick() {        // a choice when a thread cannot go on: the pick of the next switch event, unspent
    return epos < events.size() ? events[epos].pick : 0;
}
static void switchTo(int n) {
    if (n == me) return;
    st.switches++;
    mix(n + 11);
    streak = 0;
    Thr &mine = T[me];
    __sync_synchronize();
    sem_post(&T[n].sem);
    while (sem_wait(&mine.sem) != 0) {}
}
// the calling thread cannot go on until its condition holds
static void blockHere() {
    for (;;) {
        if (runnable(me)) return;
        int n = pickNext(eventPick(), true);
        if (n < 0) {
            int64_t d = -1;
            for (int i = 0; i < nthr; i++)
                if (T[i].used && !T[i].done && T[i].waiting && T[i].deadline >= 0 && (d < 0 || T[i].deadline < d)) d = T[i].deadline;
            if (d >= 0) { now_ = d > now_ ? d : now_ + 1; continue; }
            char b[400] = "";
            for (int i = 0; i < nthr; i++)
                if (T[i].used && !T[i].done && strlen(b) < 300)
                    snprintf(b + strlen(b), 100, " %s%d:%s", T[i].client ? "client" : "worker", i, T[i].why ? T[i].why : "?");
            simDie(97, "SIM-HANG deadlock: every thread waits:%s", b);
        }
        switchTo(n);
    }
}
void simPoint() {
    if (!active || me < 0) return;
    st.steps++;
    if (st.steps > limit_) simDie(97, "SIM-HANG no end after %llu steps", (unsigned long long) limit_);
    if (++streak > 3000) {      // fairness
        for (int k = 1; k < nthr; k++) {
            int i = (me + k) % nthr;
            if (runnable(i)) { switchTo(i); break; }
        }
        streak = 0;
        now_ += 1000;
    }
    if (gapLeft < 0) return;
    if (gapLeft-- > 0) return;
    Event e = events[epos++];
    loadEvent();
    if (e.kind == 0) {
        int n = pickNext(e.pick, true);
        if (n >= 0) { st.preempts++; switchTo(n); }
    } else {
        int c[MAXT], k = 0;
        for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].done && T[i].waiting && !T[i].woken && i != me && (e.kind == 1) == T[i].cond) c[k++] = i;
        if (k) { T[c[(unsigned) e.pick % k]].woken = true; st.spurious++; mix(77); }
    }
}
void simBlock(bool (*pred)(void *), void *arg, const char *why) {
    simPoint();
    Thr &t = T[me];
    t.pred = pred; t.parg = arg; t.why = why;
    blockHere();
    t.pred = nullptr; t.why = nullptr;
}
static bool waitOn(void *on, bool cond, int64_t deadline, const char *why) {    // -> woken (false: timed out)
    Thr &t = T[me];
    t.waiting = true; t.woken = false; t.on = on; t.cond = cond; t.deadline = deadline; t.why = why;
    blockHere();
    bool w = t.woken;
    t.waiting = false; t.woken = false; t.on = nullptr; t.deadline = -1; t.why = nullptr;
    return w;
}
static int wakeSome(void *on, bool cond, int n) {
    int done = 0;
    while (n-- > 0) {
        int c[MAXT], k = 0;
        for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].done && T[i].waiting && !T[i].woken && T[i].on == on && T[i].cond == cond) c[k++] = i;
        if (!k) break;
        int p = wpos < wakes.size() ? wakes[wpos++] : 0;
        T[c[(unsigned) p % k]].woken = true;
        done++;
    }
    return done;
}

// ---------------------------------------------------------------- threads
static bool isDone(void *p) { return ((Thr *) p)->done; }
static void *trampoline(void *p) {
    Thr *t = (Thr *) p;
    me = (int) (t - T);
    while (sem_wait(&t->sem) != 0) {}
    t->ret = t->fn(t->arg);
    t->done = true;
    mix(me + 500);
    int n = pickNext(eventPick(), true);
    if (n < 0) simDie(97, "SIM-HANG deadlock: the last thread that could run has ended");
    st.switches++;
    streak = 0;
    me = -1;
    sem_post(&T[n].sem);
    return nullptr;
}
static int newThread(void *(*fn)(void *), void *arg, bool client) {
    int i = nthr;
    if (i >= MAXT) simDie(94, "harness: too many threads");
    nthr++;
    Thr &t = T[i];
    memset(&t, 0, sizeof t);
    sem_init(&t.sem, 0, 0);
    t.used = true; t.client = client; t.fn = fn; t.arg = arg; t.deadline = -1; t.failAt = -1;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 512 << 10);
    if (__real_pthread_create(&t.real, &a, trampoline, &t) != 0) simDie(94, "harness: no thread");
    st.threads++;
    return i;
}
struct Start { void (*fn)(int); int arg; };
static Start starts[MAXT];
static void *startClient(void *p) { Start *s = (Start *) p; s->fn(s->arg); return nullptr; }
int simSpawn(void (*fn)(int), int arg) {
    starts[nthr] = {fn, arg};
    return newThread(startClient, &starts[nthr], true);
}
void simJoin(int i) {
    simBlock(isDone, &T[i], "join");
    __real_pthread_join(T[i].real, nullptr);
    T[i].joined = true;
}
int simLive() { int k = 0; for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].done) k++; return k; }
void simFailCreate(int at, int len) { createAt = at; createLen = len; createSeen = 0; }
int simFired() { return fired_; }

void simStart(const std::vector<Event> &e, const std::vector<int> &w, uint64_t limit) {
    events = e; wakes = w; epos = wpos = 0; limit_ = limit; now_ = 1000000000; streak = 0;
    memset(&st, 0, sizeof st);
    st.hash = 1469598103934665603ull;
    createAt = -1; fired_ = 0;
    nthr = 1;
    memset(&T[0], 0, sizeof T[0]);
    sem_init(&T[0].sem, 0, 0);
    T[0].used = T[0].client = true; T[0].deadline = -1; T[0].failAt = -1;
    me = 0;
    loadEvent();
    active = true;
}
void simStop() {
    active = false;
    for (int i = 1; i < nthr; i++) if (T[i].detached && !T[i].joined) __real_pthread_join(T[i].real, nullptr);
    me = -1;
    events.clear(); events.shrink_to_fit(); wakes.clear(); wakes.shrink_to_fit();
}

// ---------------------------------------------------------------- mutexes
struct Mx { void *m; int owner; };
static Mx mx[256];
static int nmx = 0;
static Mx *find(void *m) { for (int i = 0; i < nmx; i++) if (mx[i].m == m) return &mx[i]; return nullptr; }
static bool freeMx(void *m) { return find(m) == nullptr; }
static void take(void *m) { if (nmx >= 256) simDie(94, "harness: mutexes"); mx[nmx++] = {m, me}; }
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_lock(m);
    simPoint();
    Mx *x = find(m);
    if (x) {
        if (x->owner == me) simDie(97, "SIM-HANG a thread locks a mutex it holds");
        simBlock(freeMx, m, "mutex");
    }
    take(m);
    mix(31 + me);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_trylock(m);
    simPoint();
    if (find(m)) return EBUSY;
    take(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_unlock(m);
    Mx *x = find(m);
    if (!x || x->owner != me) simDie(97, "SIM-HANG a thread unlocks a mutex it does not hold");
    *x = mx[--nmx];
    simPoint();
    return 0;
}
// readers and writers: a thread may hold a lock for reading several times
struct Rw { void *m; int owner; bool write; };
static Rw rw[256];
static int nrw = 0;
static bool canRead(void *m) { for (int i = 0; i < nrw; i++) if (rw[i].m == m && rw[i].write) return false; return true; }
static bool canWrite(void *m) { for (int i = 0; i < nrw; i++) if (rw[i].m == m) return false; return true; }
static int rwTake(void *m, bool write, bool tries) {
    simPoint();
    if (!(write ? canWrite : canRead)(m)) {
        if (tries) return EBUSY;
        for (int i = 0; i < nrw; i++) if (rw[i].m == m && rw[i].owner == me && rw[i].write) simDie(97, "SIM-HANG a thread locks a lock it holds");
        simBlock(write ? canWrite : canRead, m, "rwlock");
    }
    if (nrw >= 256) simDie(94, "harness: rwlocks");
    rw[nrw++] = {m, me, write};
    return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return active && me >= 0 ? rwTake(m, false, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return active && me >= 0 ? rwTake(m, true, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return active && me >= 0 ? rwTake(m, false, true) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return active && me >= 0 ? rwTake(m, true, true) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!active || me < 0) return __real_pthread_rwlock_unlock(m);
    int i = 0;
    while (i < nrw && !(rw[i].m == m && rw[i].owner == me)) i++;
    if (i == nrw) simDie(97, "SIM-HANG a thread unlocks a lock it does not hold");
    rw[i] = rw[--nrw];
    simPoint();
    return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
    simPoint();
    Mx *x = find(m);
    if (!x || x->owner != me) simDie(97, "SIM-HANG a thread waits without holding the mutex");
    *x = mx[--nmx];
    bool w = waitOn(c, true, deadline, "condition variable");
    simPoint();
    if (find(m)) simBlock(freeMx, m, "mutex");
    take(m);
    mix(41 + me);
    return w ? 0 : ETIMEDOUT;
}
static int64_t ns(const struct timespec *t) { return (int64_t) t->tv_sec * 1000000000 + t->tv_nsec; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return condWait(c, m, ns(t)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return condWait(c, m, ns(t)); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!active || me < 0) return __real_pthread_cond_signal(c);
    simPoint(); wakeSome(c, true, 1); simPoint(); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active || me < 0) return __real_pthread_cond_broadcast(c);
    simPoint(); wakeSome(c, true, MAXT); simPoint(); return 0;
}
int __real_pthread_once(pthread_once_t *, void (*)(void));
static bool onceIdle(void *p) { return *(volatile int *) p != 1; }
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!active || me < 0) return __real_pthread_once(o, fn);
    volatile int *s = (volatile int *) o;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) {
            *s = 1;
            try { fn(); } catch (...) { *s = 0; throw; }
            *s = 2;
            return 0;
        }
        simBlock(onceIdle, (void *) o, "once");
    }
}
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active || me < 0) return __real_pthread_create(out, a, fn, arg);
    simPoint();
    int i = createSeen++;
    if (createAt >= 0 && i >= createAt && (createLen < 0 || i < createAt + createLen)) { st.createfail++; fired_++; mix(61); return EAGAIN; }
    int n = newThread(fn, arg, false);
    *out = T[n].real;
    simPoint();
    return 0;
}
static int byReal(pthread_t p) { for (int i = nthr - 1; i > 0; i--) if (T[i].used && !T[i].joined && pthread_equal(T[i].real, p)) return i; return -1; }
int __wrap_pthread_join(pthread_t p, void **ret) {
    if (!active || me < 0) return __real_pthread_join(p, ret);
    int i = byReal(p);
    if (i < 0) simDie(97, "SIM-HANG joins a thread that does not exist");
    if (i == me) return EDEADLK;
    simBlock(isDone, &T[i], "join");
    T[i].joined = true;
    if (ret) *ret = T[i].ret;
    return __real_pthread_join(p, nullptr);
}
int __wrap_pthread_detach(pthread_t p) {
    if (!active || me < 0) return __real_pthread_detach(p);
    int i = byReal(p);
    if (i >= 0) T[i].detached = true;
    return 0;
}
int __wrap_sched_yield(void) {
    if (active && me >= 0) { simPoint(); int n = pickNext(eventPick(), true); if (n >= 0) switchTo(n); }
    return 0;
}
static int sleepFor(int64_t d) {
    simPoint();
    waitOn(nullptr, false, now_ + d, "sleep");
    return 0;
}
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { return active && me >= 0 ? sleepFor(ns(t)) : __real_nanosleep(t, r); }
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    return active && me >= 0 ? sleepFor(fl ? ns(t) - now_ : ns(t)) : __real_clock_nanosleep(c, fl, t, r);
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    if (!active || me < 0) return __real_clock_gettime(c, t);
    t->tv_sec = now_ / 1000000000; t->tv_nsec = now_ % 1000000000;
    now_ += 50;
    return 0;
}
int __wrap_get_nprocs(void) { return 3; }
long __real_syscall(long, ...);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (n != SYS_futex || !active || me < 0) return __real_syscall(n, a, b, c, d, e, f);
    int op = (int) b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { simPoint(); return wakeSome((void *) a, false, (int) c > MAXT ? MAXT : (int) c); }
    if (op != FUTEX_WAIT && op != FUTEX_WAIT_BITSET) simDie(94, "harness: futex operation %d", op);
    simPoint();
    if (*(volatile unsigned *) a != (unsigned) c) { errno = EAGAIN; return -1; }
    int64_t dl = -1;
    if (d) dl = op == FUTEX_WAIT ? now_ + ns((const struct timespec *) d) : ns((const struct timespec *) d);
    if (!waitOn((void *) a, false, dl, "future")) { errno = ETIMEDOUT; return -1; }
    return 0;
}
static unsigned char cover[1 << 20];
void __sanitizer_cov_trace_pc(void) {
    cover[((uintptr_t) __builtin_return_address(0) - (uintptr_t) &simStart) & (sizeof cover - 1)] = 1;
    simPoint();
}
}

void simCover() {
    printf("C");
    for (unsigned i = 0; i < sizeof cover; i++) if (cover[i]) printf(" %u", i);
    printf("\n");
}

// ---------------------------------------------------------------- memory
static int64_t blocks = 0;
int64_t simBlocks() { return blocks; }
void simFailAlloc(int at, int len) { if (me >= 0) { T[me].failAt = at; T[me].failLen = len; } }
static void *allocate(size_t n) {
    if (active && me >= 0 && T[me].failAt >= 0) {
        if (T[me].failAt-- == 0) {
            if (T[me].failLen > 0) T[me].failLen--;
            if (T[me].failLen != 0) T[me].failAt = 0;
            st.allocfail++; fired_++; mix(71);
            throw std::bad_alloc();
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    __sync_fetch_and_add(&blocks, 1);
    return p;
}
static void release(void *p) { if (p) { __sync_fetch_and_sub(&blocks, 1); free(p); } }
void *operator new(size_t n) { return allocate(n); }
void *operator new[](size_t n) { return allocate(n); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
