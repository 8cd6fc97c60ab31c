// Reads plans (one line of integers each), runs them on the real thread pool, prints one line each.
#include "simthread.h"
#include "use.h"
#include <stdarg.h>
#include <algorithm>
#include <atomic>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <chrono>
#include <exception>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

enum { MAXS = 200, MAXP = 6 };
enum Kind { VALUE, THROW, YIELD, NEST, GATE, AWAIT, POOL, THROWINT };
enum Type { INT, STR, VOID, VOIDT, PTR, REF };
static int64_t tokens;
struct Token {
    Token() { tokens++; }
    Token(const Token &) { tokens++; }
    Token(Token &&) noexcept { tokens++; }
    ~Token() { tokens--; }
};
struct Slot {
    int pool, kind, type, arg, sub;      // the task; sub: slot of the task it submits
    int state;                           // 0 not submitted, 1 accepted, 2 refused
    int exec, done, gone;
    std::future<int> fi; std::future<std::string> fs; std::future<void> fv; std::future<std::unique_ptr<int>> fp; std::future<int &> fr;
    bool have, got;
    int refval;
};
struct PoolSpec { int n, cat, clen, aat, alen; Pool *p; bool failed, dead; int gates, arrived; };
struct Op { int kind, a, b, c; };
static Slot S[MAXS];
static PoolSpec P[MAXP];
static int nslots, npools;
static std::vector<Op> clients[8][2];
static int nclients;
static int barrier;
static const char *failCls;
static char failMsg[400];
static uint64_t counters[8];        // accepted, refused, thrown, nested, gates, pools failed, gets, inner pools

static void fail(const char *cls, const char *fmt, ...) {
    if (failCls) return;
    failCls = cls;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(failMsg, sizeof failMsg, fmt, ap);
    va_end(ap);
}
struct TaskError : std::runtime_error { int v; explicit TaskError(int x) : std::runtime_error("task"), v(x) {} };
static void submit(int s, int aat, int alen);
static bool gateOpen(void *p) { auto *x = (PoolSpec *) p; return x->arrived >= x->gates; }
static bool settled(void *p) { auto *x = (Slot *) p; return x->done || x->state == 2; }

// what every task does; returns the value it delivers
static int body(int s) {
    Slot &x = S[s];
    if (x.pool >= 0 && P[x.pool].dead) fail("contract", "task %d runs after the pool was destroyed", s);
    x.exec++;
    if (x.exec > 1) fail("contract", "task %d is executed %d times", s, x.exec);
    struct Done { Slot &x; ~Done() { x.done = 1; } } d{x};
    switch (x.kind) {
        case THROW: counters[2]++; throw TaskError(s * 7 + x.arg);
        case THROWINT: counters[2]++; throw (int) (s * 7 + x.arg);
        case YIELD: for (int i = 0; i < x.arg; i++) simPoint(); break;
        case NEST: counters[3]++; if (S[x.sub].state == 0) submit(x.sub, -1, 0); break;
        case GATE: counters[4]++; P[x.pool].arrived++; simBlock(gateOpen, &P[x.pool], "gate"); break;
        case AWAIT: if (S[x.sub].state) simBlock(settled, &S[x.sub], "other task"); break;
        case POOL: {
            counters[7]++;
            Pool *q = nullptr;
            try { q = poolOf((unsigned) (1 + x.arg % 2)); } catch (const std::exception &) { break; }
            try {
                auto f = submitInt(q, [s]() { simPoint(); return s * 3; });
                auto g = submitVoid(q, []() { simPoint(); });
                if (x.arg % 3) { if (f.get() != s * 3) fail("contract", "inner task delivers another value"); }
                poolDestroy(q);
                g.get();
                if (x.arg % 3 == 0 && f.get() != s * 3) fail("contract", "inner task delivers another value");
            } catch (const std::exception &e) { fail("contract", "inner pool raised %s", e.what()); }
            break;
        }
        default: break;
    }
    return s * 1000 + x.arg;
}
static void submit(int s, int aat, int alen) {
    Slot &x = S[s];
    PoolSpec &p = P[x.pool];
    if (!p.p || p.dead || x.state) return;
    x.state = 1;        // it may run, and others may look at it, before submit returns
    int f0 = simFired();
    Token t;
    try {
        switch (x.type) {
            case INT: { std::function<int()> f = [s, t]() { return body(s); }; simFailAlloc(aat, alen); x.fi = submitInt(p.p, f); break; }
            case STR: { std::function<std::string()> f = [s, t]() { return "value " + std::to_string(body(s)) + " of a task of its own"; }; simFailAlloc(aat, alen); x.fs = submitStr(p.p, f); break; }
            case VOID: { std::function<void()> f = [s, t]() { body(s); }; simFailAlloc(aat, alen); x.fv = submitVoid(p.p, f); break; }
            case VOIDT: { std::function<void()> f = [s, t]() { body(s); }; simFailAlloc(aat, alen); x.fv = submitVoidT(p.p, f); break; }
            case PTR: { std::function<std::unique_ptr<int>()> f = [s, t]() { return std::make_unique<int>(body(s)); }; simFailAlloc(aat, alen); x.fp = submitPtr(p.p, f); break; }
            default: { std::function<int &()> f = [s, t]() -> int & { S[s].refval = body(s); return S[s].refval; }; simFailAlloc(aat, alen); x.fr = submitRef(p.p, f); break; }
        }
        simFailAlloc(-1, 0);
        x.have = true;
        counters[0]++;
    } catch (const std::bad_alloc &) {
        simFailAlloc(-1, 0);
        if (simFired() == f0) fail("contract", "submit of task %d ran out of memory although no request failed", s);
        x.state = 2;
        counters[1]++;
        if (x.kind == GATE) p.gates--;
        if (x.exec) fail("contract", "submit of task %d raised but the task was executed", s);
    } catch (const std::exception &e) {
        simFailAlloc(-1, 0);
        fail("contract", "submit of task %d raised %s", s, e.what());
        x.state = 2;
    }
}
static void get(int s) {
    Slot &x = S[s];
    if (!x.have || x.got) return;
    x.got = true;
    counters[6]++;
    int v = s * 1000 + x.arg, e = s * 7 + x.arg;
    bool th = x.kind == THROW || x.kind == THROWINT;
    try {
        bool ok = true;
        switch (x.type) {
            case INT: ok = x.fi.get() == v; break;
            case STR: ok = x.fs.get() == "value " + std::to_string(v) + " of a task of its own"; break;
            case PTR: { auto q = x.fp.get(); ok = q && *q == v; break; }
            case REF: { int &r = x.fr.get(); ok = &r == &x.refval && r == v; break; }
            default: x.fv.get();
        }
        if (th) fail("contract", "the future of task %d delivers a value, the task threw", s);
        else if (!ok) fail("contract", "the future of task %d delivers another value", s);
    } catch (const TaskError &t) {
        if (x.kind != THROW || t.v != e) fail("contract", "the future of task %d delivers another task's exception", s);
    } catch (int t) {
        if (x.kind != THROWINT || t != e) fail("contract", "the future of task %d delivers another task's exception", s);
    } catch (const std::exception &t) {
        fail("contract", "the future of task %d raised %s", s, t.what());
    }
    if (x.exec != 1) fail("contract", "the future of task %d is ready after %d executions", s, x.exec);
}
static void waitOnly(int s) {
    Slot &x = S[s];
    if (!x.have || x.got) return;
    switch (x.type) { case INT: x.fi.wait(); break; case STR: x.fs.wait(); break; case PTR: x.fp.wait(); break; case REF: x.fr.wait(); break; default: x.fv.wait(); }
    if (x.exec != 1) fail("contract", "the future of task %d is ready after %d executions", s, x.exec);
}
static bool poll(int s) {
    Slot &x = S[s];
    if (!x.have || x.got) return true;
    auto z = std::chrono::seconds(0);
    switch (x.type) {
        case INT: return x.fi.wait_for(z) == std::future_status::ready; case STR: return x.fs.wait_for(z) == std::future_status::ready;
        case PTR: return x.fp.wait_for(z) == std::future_status::ready; case REF: return x.fr.wait_for(z) == std::future_status::ready;
        default: return x.fv.wait_for(z) == std::future_status::ready;
    }
}
static void drop(int s) {
    Slot &x = S[s];
    if (!x.have || x.got) return;
    x.got = true;
    x.fi = {}; x.fs = {}; x.fv = {}; x.fp = {}; x.fr = {};
}
static bool allThere(void *) { return barrier >= nclients; }
static void run(const Op &o) {
    if (failCls) return;
    switch (o.kind) {
        case 0: submit(o.a, o.b, o.c); break;
        case 1: get(o.a); break;
        case 2: waitOnly(o.a); break;
        case 3: drop(o.a); break;
        case 4: for (int i = 0; i < o.a; i++) simPoint(); break;
        case 5: poll(o.a); break;
    }
}
static void client(int i) {
    for (auto &o: clients[i][0]) run(o);
    barrier++;
    for (auto &o: clients[i][1]) run(o);
}
static void checkPool(int i) {
    for (int s = 0; s < nslots; s++) if (S[s].pool == i && S[s].state == 1) {
        if (S[s].exec != 1) fail("contract", "task %d of the destroyed pool was executed %d times", s, S[s].exec);
        else if (!S[s].done) fail("contract", "task %d still runs after the pool was destroyed", s);
        else if (!poll(s)) fail("contract", "the future of task %d is not ready after the pool was destroyed", s);
    }
}

static int rd() { int v; if (scanf("%d", &v) != 1) { simCover(); fflush(stdout); _exit(0); } return v; }

int main() {
    std::set_terminate([]() {
        const char *w = "?";
        if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception &x) { w = x.what(); } catch (...) {} }
        simDie(96, "SIM-TERMINATE the process is ended: %s", w);
    });
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    for (;;) {
        int id = rd();
        int limit = rd();
        npools = rd();
        for (int i = 0; i < npools; i++) { P[i] = PoolSpec{}; P[i].n = rd(); P[i].cat = rd(); P[i].clen = rd(); P[i].aat = rd(); P[i].alen = rd(); }
        nslots = rd();
        for (int i = 0; i < nslots; i++) {
            S[i] = Slot{};
            S[i].pool = rd(); S[i].kind = rd(); S[i].type = rd(); S[i].arg = rd(); S[i].sub = rd();
        }
        nclients = rd();
        for (int i = 0; i < nclients; i++) for (int ph = 0; ph < 2; ph++) {
            clients[i][ph].clear();
            int n = rd();
            for (int k = 0; k < n; k++) { Op o; o.kind = rd(); o.a = rd(); o.b = rd(); o.c = rd(); clients[i][ph].push_back(o); }
        }
        std::vector<Event> ev(rd());
        for (auto &e: ev) { e.gap = rd(); e.kind = rd(); e.pick = rd(); }
        std::vector<int> wk(rd());
        for (auto &w: wk) w = rd();
        int order = rd();
        int late = rd();       // the pools are destroyed after everything was delivered

        printf("B %d\n", id);
        fflush(stdout);
        alarm(60);
        failCls = nullptr; failMsg[0] = 0; tokens = 0; barrier = 0;
        memset(counters, 0, sizeof counters);
        int64_t b0 = simBlocks();
        simStart(ev, wk, (uint64_t) limit);
        for (int i = 0; i < npools && !failCls; i++) {
            int f0 = simFired(), l0 = simLive();
            int64_t m0 = simBlocks();
            simFailCreate(P[i].cat, P[i].clen);
            simFailAlloc(P[i].aat, P[i].alen);
            try {
                P[i].p = P[i].n < 0 ? poolDefault() : poolOf((unsigned) P[i].n);
                simFailAlloc(-1, 0);
            } catch (const std::exception &e) {
                simFailAlloc(-1, 0);
                counters[5]++;
                P[i].failed = true;
                if (simFired() == f0) fail("contract", "making pool %d raised %s although nothing failed", i, e.what());
                if (simLive() != l0) fail("contract", "making pool %d raised but %d thread(s) stay behind", i, simLive() - l0);
            }
            if (P[i].failed && simBlocks() != m0) fail("leak", "making pool %d raised but keeps %d block(s)", i, (int) (simBlocks() - m0));
            simFailCreate(-1, 0);
            int g = 0;
            for (int s = 0; s < nslots; s++) if (S[s].pool == i && S[s].kind == GATE) g++;
            P[i].gates = g;
        }
        int ids[8];
        for (int i = 0; i < nclients; i++) ids[i] = simSpawn(client, i);
        simBlock(allThere, nullptr, "clients");
        if (late) for (int i = 0; i < nclients; i++) simJoin(ids[i]);
        for (int k = 0; k < npools; k++) {
            int i = order ? npools - 1 - k : k;
            if (!P[i].p || failCls) continue;
            Pool *q = P[i].p;
            poolDestroy(q);
            P[i].dead = true;
            checkPool(i);
        }
        if (!late) for (int i = 0; i < nclients; i++) simJoin(ids[i]);
        if (!failCls) {
            for (int s = 0; s < nslots; s++) get(s);
            for (int s = 0; s < nslots; s++) if (S[s].state == 2 && S[s].exec) fail("contract", "task %d was refused but executed", s);
            if (simLive() != 1) fail("contract", "%d thread(s) outlive their pool", simLive() - 1);
        }
        if (failCls) {
            // threads may be left: this process is of no more use
            printf("R %d 0 %llx %s %s\n", id, (unsigned long long) st.hash, failCls, failMsg);
            fflush(stdout);
            _exit(93);
        }
        Stats s = st;
        simStop();
        for (int i = 0; i < nslots; i++) S[i] = Slot{};
        if (tokens != 0) fail("leak", "%d copies of what the tasks hold are never released", (int) tokens);
        else if (simBlocks() != b0) fail("leak", "%d block(s) are never released", (int) (simBlocks() - b0));
        if (failCls) { printf("R %d 0 %llx %s %s\n", id, (unsigned long long) st.hash, failCls, failMsg); fflush(stdout); _exit(93); }
        printf("R %d 1 %llx steps=%llu switches=%llu preempts=%llu spurious=%llu createfail=%llu allocfail=%llu threads=%llu accepted=%llu refused=%llu thrown=%llu nested=%llu gates=%llu poolsfailed=%llu gets=%llu innerpools=%llu\n",
               id, (unsigned long long) s.hash, (unsigned long long) s.steps, (unsigned long long) s.switches, (unsigned long long) s.preempts, (unsigned long long) s.spurious,
               (unsigned long long) s.createfail, (unsigned long long) s.allocfail, (unsigned long long) s.threads,
               (unsigned long long) counters[0], (unsigned long long) counters[1], (unsigned long long) counters[2], (unsigned long long) counters[3],
               (unsigned long long) counters[4], (unsigned long long) counters[5], (unsigned long long) counters[6], (unsigned long long) counters[7]);
        fflush(stdout);
    }
}
