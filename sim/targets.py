"""What each property's check runs: the simulated target, the plan generator, budgets, the
violation classes that count against the property, and the wording of the evidence."""
import os
import sys

import build
import gen
import gena
import geni
import genp
import genu
import shrink

HERE = os.path.dirname(os.path.abspath(__file__))
CRASH = {"crash", "hang", "gil", "systemerror"}
FUNC = CRASH | {"history", "swallowed", "stray"}

LIST_RULE = ("one seed = one plan: initial lists, 1-3 clients with generated calls, callback scripts (raise / nested calls at step k), "
             "failing-allocation positions, and a schedule of choices; a run is counted once per distinct signature "
             "(sequence of operation kinds, nesting, thread and outcome)")
LIST_REAL = ["every list, iterator and view type of the extension (real C++ compiled from /repo with AddressSanitizer)",
             "CPython interpreter", "real Python threads (parked and released one at a time)"]
LIST_STUB = ["thread choice (baton scheduler)", "native and interpreter allocators' failure decision", "user callbacks (scripted)",
             "release/re-acquire of the interpreter lock (wrapped: the simulator decides who runs)"]


class ListTarget:
    batch = 40
    real, stub, rule = LIST_REAL, LIST_STUB, LIST_RULE
    faultkeys = ("fired", "fired_native", "fired_py", "raise", "reenter", "preempts", "switches", "windows")
    assumptions = ["histories of at most a few dozen calls, lists up to 260 elements (7000 in C05, 900 in C08, a few runs up to 70000 elsewhere), nesting depth at most 2, at most 3 clients",
                   "while the interpreter lock is dropped, threads interleave at basic-block granularity under sequential consistency"]

    def __init__(self, prop, classes, quick, thorough=None):
        self.prop = prop
        self.classes = classes
        self.budget = {"quick": quick, "thorough": thorough or (quick[0] * 40, 1500)}

    def build(self):
        self.so = build.build_list()

    def cmd(self):
        return [build.PY, os.path.join(HERE, "worker.py"), "list", self.so]

    def env(self):
        return build.asan_env()

    def gen(self, prop, seed):
        return gen.make(prop, seed)

    def relevant(self, cls, detail):
        return cls in self.classes

    def shrink(self, plan):
        return shrink.shrink(plan)


T = {}
for p in ("C01", "C02", "C03", "C04"):
    T[p] = ListTarget(p, FUNC, (24000, 150), (480000, 1500))
T["C05"] = ListTarget("C05", FUNC | {"refs"}, (16000, 150), (480000, 1500))
T["C06"] = ListTarget("C06", FUNC, (24000, 150), (480000, 1500))
T["C07"] = ListTarget("C07", FUNC, (24000, 150), (480000, 1500))
T["C08"] = ListTarget("C08", FUNC | {"refs", "leak"}, (24000, 150), (480000, 1500))
T["C09"] = ListTarget("C09", FUNC, (24000, 150), (480000, 1500))
T["C10"] = ListTarget("C10", FUNC, (24000, 150), (480000, 1500))
T["C11"] = ListTarget("C11", FUNC, (24000, 150), (480000, 1500))
T["C12"] = ListTarget("C12", CRASH | {"refs", "leak"}, (24000, 150), (480000, 1500))


class UnsafeTarget(ListTarget):
    real = ["the Unsafe type of the extension (real C++ compiled from /repo with AddressSanitizer)", "CPython interpreter", "C standard streams (glibc)",
            "real Python threads (parked and released one at a time)"]
    rule = ("one seed = one plan: 1-3 clients with generated Unsafe calls, __index__ callbacks (raise / nested calls), failing-allocation positions, "
            "a script of heap decisions or of device reads and writes, and a schedule; a run is counted once per distinct signature "
            "(sequence of call kinds, nesting and outcome)")
    faultkeys = ("fired", "fired_native", "fired_py", "raise", "reenter", "switches", "heap_reused", "heap_inplace", "heap_moved",
                 "werr", "rerr", "wshort", "rshort")

    def __init__(self, prop, classes, quick, stub, assumptions, thorough=None):
        super().__init__(prop, classes, quick, thorough)
        self.stub, self.assumptions = stub, assumptions

    def cmd(self):
        return [build.PY, os.path.join(HERE, "worker.py"), "unsafe", self.so]

    def gen(self, prop, seed):
        return genu.make(prop, seed)

    def shrink(self, plan):
        return shrink.shrink_clients(plan)


T["C13"] = UnsafeTarget("C13", CRASH | {"contract", "refs", "leak"}, (16000, 120),
                        ["native heap (arena that recycles addresses, address checker, failure decision)", "interpreter allocator's failure decision",
                         "thread choice (baton scheduler)", "user callbacks (scripted)"],
                        ["histories of at most about 45 calls on at most 24 live blocks of at most 5000 bytes; a machine with 4 GB of memory",
                         "an int object just released by a call makes room for the next int of the same size"])
T["C16"] = UnsafeTarget("C16", CRASH | {"contract", "refs", "leak"}, (16000, 120),
                        ["input and output devices (scripted short transfers and errors)", "allocators' failure decision", "thread choice (baton scheduler)"],
                        ["at most about 35 calls, strings of at most 3000 characters, input of ASCII text without NUL",
                         "a non-blocking input device (EAGAIN) is not simulated"])
T["C20"] = UnsafeTarget("C20", CRASH | {"contract", "refs", "leak"}, (16000, 120),
                        ["the native functions called (they count their runs and call back into Python)", "allocators' failure decision",
                         "native heap (arena that recycles addresses)", "thread choice (baton scheduler)"],
                        ["at most about 40 calls at the outer level, functions that call back nested at most 3 deep; x86-64 System V",
                         "structures of 9 to 16 bytes are outside (documented as not supported)"])


class AsmTarget(UnsafeTarget):
    real = ["ASM.cpp compiled as for 64-bit Windows, and the Unsafe type (real C++ with AddressSanitizer); the machine code it makes is executed",
            "CPython interpreter", "real Python threads (parked and released one at a time)"]
    rule = ("one seed = one plan: 1-3 clients that make, run, call and free native functions, code that calls back into Python and does the same there, "
            "failing memory requests and protection changes, and a schedule; a run is counted once per distinct signature "
            "(sequence of call kinds, nesting and outcome)")
    faultkeys = ("fired", "fired_native", "fired_py", "vpfired", "vpcalls", "reenter", "switches", "recycled", "heap_reused")

    def build(self):
        self.so = build.build_asm()

    def cmd(self):
        return [build.PY, os.path.join(HERE, "worker.py"), "asm", self.so]

    def gen(self, prop, seed):
        return gena.make(prop, seed)


T["C14"] = AsmTarget("C14", CRASH | {"contract", "refs", "leak"}, (16000, 120),
                     ["windows.h: VirtualProtect over a page table backed by real page protection", "native heap (arena that recycles addresses) and allocators' failure decision",
                      "thread choice (baton scheduler)"],
                     ["at most about 60 calls, 21 functions of at most four pages; x86-64",
                      "other memory-API calls of Windows are not simulated; the allocator is the C one, not _aligned_malloc",
                      "a running function is not freed by the code it calls back"])


class ImportTarget(ListTarget):
    batch = 1       # a process can import only once
    real = ["module initialisation of the whole extension (real C++ compiled from /repo with AddressSanitizer)", "CPython's import of extension modules"]
    stub = ["native and interpreter allocators' failure decision"]
    rule = ("one seed = one plan: 1-5 imports, each with the memory request that fails (and how many after it), the order in which the types are "
            "used afterwards, and a generated list history; a run is counted once per distinct (failure positions, first types used)")
    faultkeys = ("fired", "fired_native", "fired_py", "failed_imports", "imports")
    assumptions = ["at most five failing imports before the one that has memory", "memory requests of the interpreter's own start-up are not failed"]

    def cmd(self):
        return [build.PY, os.path.join(HERE, "worker.py"), "import", self.so]

    def gen(self, prop, seed):
        return geni.make(prop, seed)

    def shrink(self, plan):
        return shrink.shrink_import(plan)


T["C17"] = ImportTarget("C17", FUNC | {"contract", "refs", "leak"}, (5000, 120))


class PoolTarget(ListTarget):
    batch = 200
    real = ["utils/thread/ScheduledThreadPool (real C++ with AddressSanitizer)", "libstdc++'s thread, mutex, condition variable and future templates (linked statically)"]
    stub = ["thread choice, preemption, wake-up order and spurious wake-ups (scheduler of one running thread at a time)", "pthread mutexes, condition variables, once, futexes",
            "clock and sleeping", "thread creation failure", "memory request failure", "number of processors (3)", "tasks (scripted)"]
    rule = ("one seed = one plan: 1-3 pools, 1-3 clients that submit tasks of six result types (returning, throwing, submitting further tasks, waiting for each other, "
            "using a pool of their own), take, drop or poll the futures while the pools are destroyed, failing thread creations and memory requests, and a schedule of "
            "preemptions, wake-up choices and spurious wake-ups; a run is counted once per distinct plan shape (pools, tasks, calls, destruction order)")
    faultkeys = ("preempts", "spurious", "createfail", "allocfail", "poolsfailed", "refused")
    assumptions = ["at most 3 pools of 6 workers and about 60 tasks; no more tasks block than there are workers (the pool does not promise more)",
                   "threads interleave at basic-block granularity of the pool's code under sequential consistency"]

    def build(self):
        self.so = build.build_pool()

    def cmd(self):
        return [build.PY, os.path.join(HERE, "poolworker.py"), self.so]

    def env(self):
        return dict(os.environ, PYTHONDONTWRITEBYTECODE="1")

    def gen(self, prop, seed):
        return genp.make(prop, seed)

    def shrink(self, plan):
        return shrink.shrink_pool(plan)


T["C15"] = PoolTarget("C15", CRASH | {"contract", "leak"}, (60000, 120))


def get(prop):
    return T[prop]
