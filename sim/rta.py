"""Executes one plan of native functions (C14): ASM.cpp compiled as on Windows, on the simulated
memory-protection API."""
import _thread
import gc
import hashlib
import json
import struct
import sys

import rt
import rtu
from rt import Violation

ctl = None
A = None
U = None
PAGE = 4096


def init():
    global ctl, A, U
    ctl = rt.ctl
    rtu.init()
    A = rt.ext.ASM.ASM
    U = rt.ext.Unsafe.Unsafe


class Fn:
    __slots__ = ("addr", "code", "c", "kind", "fast", "busy")

    def __init__(self, addr, code, c, fast):
        self.addr, self.code, self.c, self.fast, self.busy = addr, code, c, fast, 0


class Run(rtu.Run):
    def __init__(self, plan):
        super().__init__(dict(plan, mode="asm"))
        self.fns = [None] * 24
        self.stale = []             # addresses of functions freed and not made again
        self.count = [0] * 64       # times each counter's code must have run
        self.fuzzy = 0              # executions in progress (nested)
        self.taint = False          # pages may stay executable (and later changes restore to that)
        self.a = A()
        self.bytes = {}
        self.err = None
        self.final = False
        self.multi = len(plan["clients"]) > 1
        self.running = []           # code run in place: its pages are executable meanwhile

    # ---------------------------------------------------------- machine code
    def assemble(self, c):
        """c = [kind, counter, value, padding, tail]"""
        kind, k, v, pad, tail = c
        b = b"\x90" * pad
        b += b"\x48\xb8" + struct.pack("<Q", ctl.win_addr("c", k)) + b"\x48\xff\x00"
        if kind == "i":
            b += b"\xb8" + struct.pack("<I", v & 0xffffffff)
        elif kind == "q":
            b += b"\x48\xb8" + struct.pack("<Q", v & (1 << 64) - 1)
        elif kind == "p":
            b += b"\x48\xb8" + struct.pack("<Q", ctl.win_addr("p"))
        elif kind == "cb":
            b += (b"\x48\x83\xec\x08\xbf" + struct.pack("<I", v) + b"\x48\xb8" + struct.pack("<Q", ctl.win_addr("f")) + b"\xff\xd0"
                  b"\x48\x83\xc4\x08\xb8" + struct.pack("<I", 77))
        return b + b"\xc3" + bytes((0xcc + i * 7) & 255 for i in range(tail))

    def result(self, c):
        """the 64 bits the function returns (its low half for code that sets eax)"""
        kind, k, v = c[:3]
        return {"i": v & 0xffffffff, "q": v & (1 << 64) - 1, "cb": 77, "p": None, "r": None}[kind]

    def own(self, c):
        """each client has counters of its own"""
        return [c[0], c[1] % 20 + 20 * self.who(), *c[2:]]

    def who(self):
        return max(0, ctl.self_()) if self.multi and not self.final else 0

    def slot(self, s):
        return s if self.final else s % 8 + 8 * self.who()

    def native_cb(self, i):
        """called from running machine code"""
        try:
            if not self.final and self.err is None and i < len(self.plan["cbs"]) and self.fuzzy <= 3:
                self.bump("reenter")
                for op in self.plan["cbs"][i]:
                    self.do(op, self.depth + 1)
                if self.plan.get("cbyield"):
                    ctl.yield_(3)
        except BaseException as e:
            if self.err is None:
                self.err = e

    def call(self, func, args, ex):
        tid = _thread.get_ident()
        ctx = [0, 0]                # faults of calls nested in this one
        self.ctxs.setdefault(tid, []).append(ctx)
        f = ex.get("fail") or (-1, 0)
        v = ex.get("vp") or (-1, 0)
        f0, v0 = ctl.fired(), ctl.vpfired()
        self.fuzzy += 1
        try:
            try:
                r = ctl.call(func, args, f[0], f[1], v[0], v[1])
            except Exception as e:
                r = e
                e.__traceback__ = None
        finally:
            self.fuzzy -= 1
            self.ctxs[tid].pop()
        mine = [ctl.fired() - f0 - ctx[0], ctl.vpfired() - v0 - ctx[1]]
        if self.multi and not self.final and (f[0] < 0 or v[0] < 0):    # another client's faults are not ours
            mine = [mine[0] if f[0] >= 0 else 0, mine[1] if v[0] >= 0 else 0]
        if self.ctxs[tid]:
            up = self.ctxs[tid][-1]
            up[0] += mine[0] + ctx[0]
            up[1] += mine[1] + ctx[1]
        if self.err is not None:
            e, self.err = self.err, None
            raise e
        return r, mine[0], mine[1]

    def ran(self, op, k, lo, hi, n0):
        """counter k moved by at least lo and at most hi since n0 (nested runs counted)"""
        got = ctl.win_counter(k)
        want = self.count[k]
        if not want + lo <= got <= want + hi:
            self.bad(op, "the code ran %d time(s) instead of %s" % (got - want, lo if lo == hi else "%d to %d" % (lo, hi)))
        self.count[k] = got

    def check_code(self, op):
        """every function alive is unchanged and executable, nothing else is executable"""
        pages = set(ctl.win_exec())
        mine = set()
        for f in self.fns:
            if f is None:
                continue
            ps = range(f.addr & -PAGE, f.addr + len(f.code), PAGE)
            mine.update(ps)
            if any(p not in pages for p in ps):
                self.bad(op, "a live function is not executable any more")
            if ctl.peek(f.addr, len(f.code)) != f.code:
                self.bad(op, "the code of a live function changed")
        if self.fuzzy == 0 and not self.running and not self.taint and not mine >= pages:
            self.bad(op, "memory is left executable that holds no function")

    def tainted(self, vp):
        if vp:
            self.taint = True

    def outcome(self, op, r, fired, vp, ex, ok):
        """the call raised: it must have had a reason"""
        if isinstance(r, MemoryError) and fired:
            self.bump("nomem")
        elif isinstance(r, OSError) and vp:
            self.bump("oserror")
        else:
            self.bad(op, "raised %r%s%s" % (r, " after a failed memory request" if fired else "", " after a failed protection change" if vp else ""))

    # ---------------------------------------------------------- operations
    def op_make(self, op, ex, rec):
        s, c, fast = self.slot(op[1]), self.own(op[2]), op[3]
        if self.fns[s] is not None:
            return "skip"
        code = self.assemble(c)
        m0 = ctl.kinds()[0]
        b = bytes(code) if op[4] == 0 else ctl.mkbytes(code, op[4])
        r, fired, vp = self.call(self.a.makeFunctionFast if fast else self.a.makeFunction, (b,), ex)
        self.tainted(vp)
        if self.fns[s] is not None:
            self.bad(op, "harness: slot reused")
        if isinstance(r, BaseException):
            self.outcome(op, r, fired, vp, ex, False)
            if ctl.kinds()[0] != m0 and not self.shared():
                self.bad(op, "raised %r but kept memory" % (r,))
            res = "exc"
        elif vp:
            self.bad(op, "returned although a protection change failed")
        else:
            if not isinstance(r, int) or r <= 0:
                self.bad(op, "returned %r, not an address" % (r,))
            for f in self.fns:
                if f is not None and r < f.addr + len(f.code) and f.addr < r + len(code):
                    self.bad(op, "the new function overlaps a live one")
            self.fns[s] = Fn(r, code, c, fast)
            if r in self.stale:
                self.stale.remove(r)
                self.bump("recycled")
            res = "fn"
        if ctl.win_counter(c[1]) != self.count[c[1]]:
            self.bad(op, "making the function executed it")
        self.check_code(op)
        return res

    def shared(self):
        """other calls may be in progress"""
        return self.open > 1 or self.multi

    def op_free(self, op, ex, rec):
        s = self.slot(op[1])
        f = self.fns[s]
        if f is None or f.busy:
            return "skip"
        m0 = ctl.kinds()[0]
        r, fired, vp = self.call(self.a.freeFunctionFast if f.fast else self.a.freeFunction, (f.addr,), ex)
        if isinstance(r, BaseException):
            self.outcome(op, r, fired, vp, ex, False)
            if ctl.kinds()[0] != m0 and not self.shared():
                self.bad(op, "raised %r but freed memory" % (r,))
            self.tainted(vp)
            self.check_code(op)
            return "exc"
        if vp:
            self.bad(op, "returned although a protection change failed")
        if r is not None:
            self.bad(op, "returned %r" % (r,))
        self.fns[s] = None
        self.stale.append(f.addr)
        self.check_code(op)
        return "freed"

    def op_call(self, op, ex, rec):
        """["call", slot, how, size]"""
        s, how, size = self.slot(op[1]), op[2], op[3]
        f = self.fns[s]
        if f is None:
            return "skip"
        k = f.c[1]
        want = self.result(f.c)
        n0 = ctl.win_counter(k)
        f.busy += 1
        self.count[k] += 1          # nested calls look at the counters, too
        try:
            if how == "void":
                r, fired, vp = self.call(U().callVoid, (f.addr,), ex)
            elif how == "int":
                r, fired, vp = self.call(U().callInt, (f.addr,), ex)
                want = None if want is None else (want & 0xffffffff) - ((want & 0x80000000) << 1)
            elif how == "q":
                r, fired, vp = self.call(U().callLongLong, (f.addr,), ex)
                want = None if want is None else want - ((want & (1 << 63)) << 1)
            else:
                u = U()
                buf = u.malloc(size + 16)
                u.set(buf, b"\xa5" * (size + 16))
                if size > 8 and f.c[0] != "p":
                    size = 8
                r, fired, vp = self.call(u.call, (f.addr, buf, size), ex)
                data = u.get(buf, size + 16)
                u.free(buf)
        finally:
            f.busy -= 1
        self.count[k] -= 1
        self.ran(op, k, 1, 1, n0)
        if isinstance(r, BaseException):
            self.outcome(op, r, fired, vp, ex, False)
            return "exc"
        if how in ("void", "mem"):
            if r is not None:
                self.bad(op, "returned %r" % (r,))
        elif want is not None and r != want:
            self.bad(op, "returned %r instead of %r" % (r, want))
        if how == "mem":
            if data[size:] != b"\xa5" * 16:
                self.bad(op, "wrote past the result")
            if size > 8:
                if data[:size] != bytes((i * 37 + 11) & 255 for i in range(size)):
                    self.bad(op, "the result pointed to was not copied")
            elif want is not None and data[:size] != struct.pack("<Q", want)[:size]:
                self.bad(op, "the result %r was not written" % want)
        self.check_code(op)
        return "ok"

    def op_run(self, op, ex, rec):
        """["run", code, fast, offset]"""
        c, fast, off = self.own(op[1]), op[2], op[3]
        if self.running:
            return "skip"       # code run in place inside code run in place: see DESIGN.md
        code = self.assemble(c)
        key = json.dumps([c, off])
        b = self.bytes.get(key)
        if b is None:
            b = self.bytes[key] = ctl.mkbytes(code, off)
        rc = sys.getrefcount(b)
        m0 = ctl.kinds()[0]
        k = c[1]
        n0 = ctl.win_counter(k)
        f0 = ex.get("vp")
        self.running.append(key)
        self.count[k] += 1
        try:
            r, fired, vp = self.call(self.a.runFast if fast else self.a.run, (b,), ex)
        finally:
            self.running.remove(key)
            self.count[k] -= 1
        self.tainted(vp)
        if isinstance(r, BaseException):
            self.outcome(op, r, fired, vp, ex, False)
            first = fired or f0 and f0[0] == 0
            self.ran(op, k, 0, 0 if first and not (f0 and f0[0] > 0) else 1, n0)
            res = "exc"
        elif vp:
            self.bad(op, "returned although a protection change failed")
        elif r is not None:
            self.bad(op, "returned %r" % (r,))
        else:
            self.ran(op, k, 1, 1, n0)
            res = "ok"
        if bytes(b) != code:
            self.bad(op, "the code object changed")
        if sys.getrefcount(b) != rc and not self.shared():
            self.bad(op, "the reference count of the code changed by %d" % (sys.getrefcount(b) - rc))
        if ctl.kinds()[0] != m0 and not self.shared() and c[0] != "cb":
            self.bad(op, "memory is kept after the run")
        self.check_code(op)
        return res

    BAD = {
        "run0": (lambda s: (s.a.run, ()), TypeError), "run2": (lambda s: (s.a.run, (b"\xc3", b"\xc3")), TypeError),
        "runstr": (lambda s: (s.a.run, ("\xc3",)), TypeError), "runempty": (lambda s: (s.a.run, (b"",)), ValueError),
        "runarr": (lambda s: (s.a.run, (bytearray(b"\xc3"),)), TypeError), "runint": (lambda s: (s.a.run, (5,)), TypeError),
        "make0": (lambda s: (s.a.makeFunction, ()), TypeError), "make2": (lambda s: (s.a.makeFunction, (b"\xc3", 1)), TypeError),
        "makestr": (lambda s: (s.a.makeFunction, ("x",)), TypeError), "makeempty": (lambda s: (s.a.makeFunction, (b"",)), ValueError),
        "makenone": (lambda s: (s.a.makeFunction, (None,)), TypeError),
        "free0": (lambda s: (s.a.freeFunction, ()), TypeError), "free2": (lambda s: (s.a.freeFunction, (1, 2)), TypeError),
        "freestr": (lambda s: (s.a.freeFunction, ("x",)), TypeError), "freenone": (lambda s: (s.a.freeFunction, (None,)), TypeError),
        "freebig": (lambda s: (s.a.freeFunction, (1 << 64,)), (OverflowError, ValueError)),
        "freenull": (lambda s: (s.a.freeFunction, (0,)), ValueError), "freeneg": (lambda s: (s.a.freeFunction, (-1,)), (ValueError, OverflowError)),
        "freeone": (lambda s: (s.a.freeFunction, (1,)), ValueError),
    }

    def op_badcall(self, op, ex, rec):
        fn, want = self.BAD[op[1]]
        func, args = fn(self)
        m0 = ctl.kinds()[0]
        r, fired, vp = self.call(func, args, ex)
        if not isinstance(r, want) and not (fired and isinstance(r, MemoryError)):
            self.bad(op, "gave %r, expected %r" % (r, want))
        if ctl.kinds()[0] != m0 and not self.shared():
            self.bad(op, "memory is kept")
        self.check_code(op)
        return type(r).__name__

    def op_stale(self, op, ex, rec):
        """freeFunction on an address that is no live function: one freed before, one inside a
        live function, one of an ordinary block; twice"""
        what, i = op[1], op[2]
        blk = 0
        if what == "freed":
            if not self.stale:
                return "skip"
            addr = self.stale[i % len(self.stale)]
        elif what == "inside":
            live = [f for f in self.fns if f is not None]
            if not live:
                return "skip"
            f = live[i % len(live)]
            addr = f.addr + 1 + i % len(f.code)
            if any(g is not None and g.addr == addr for g in self.fns):
                return "skip"
        else:
            blk = addr = U().aligned_malloc(8192, PAGE)
            if addr in self.stale:
                self.bump("recycled")
        m0 = ctl.kinds()[0]
        for _ in range(2):
            r, fired, vp = self.call(self.a.freeFunction, (addr,), ex)
            if not isinstance(r, ValueError) and not (fired and isinstance(r, MemoryError)):
                self.bad(op, "gave %r, expected ValueError" % (r,))
        if ctl.kinds()[0] != m0 and not self.shared():
            self.bad(op, "memory was released or kept")
        if blk:
            U().aligned_free(blk)
        self.check_code(op)
        return "refused"

    def op_with(self, op, ex, rec):
        with self.a as x:
            if x is not self.a:
                self.bad(op, "__enter__ gave another object")
        return None

    def census(self, body):
        pass

    # ---------------------------------------------------------- run
    def execute(self):
        plan = self.plan
        cl = plan["clients"]
        ctl.begin(bytes(plan.get("sched", [])), max(1, len(cl)), plan.get("limit", 5_000_000))
        ctl.solo()
        ctl.heap(bytes(plan["heap"]) if plan.get("heap") is not None else None)
        ctl.win_reset(self.native_cb)
        k0 = ctl.kinds()
        try:
            if len(cl) == 1:
                for op in cl[0]:
                    self.do(op)
            else:
                for i, ops in enumerate(cl):
                    _thread.start_new_thread(self.client, (i, ops))
                    ctl.started()
                ctl.go(plan.get("first", 0) % len(cl))
                if self.violation is not None:
                    raise self.violation
                ctl.solo()
            self.final = True
            # faults have stopped: everything works, then everything is given back
            for s, f in enumerate(self.fns):
                if f is None:
                    self.do(["make", s, ["q", s, -s * 1000003, 0, 0], 0, 0])
                    if s > 2:
                        break
            for s, f in enumerate(self.fns):
                if f is not None:
                    self.do(["call", s, "q", 0])
                    self.do(["free", s])
                    if self.fns[s] is not None:
                        raise Violation("contract", "a function cannot be freed")
            for i in range(min(4, len(self.stale))):
                self.do(["stale", "freed", i])
            self.do(["run", ["i", 60, 1, 0, 0], 0, 0])
            k1 = ctl.kinds()
            if k1[0] != k0[0]:
                raise Violation("leak", "%d block(s) are not given back after every function was freed" % (k1[0] - k0[0]))
            if k1[1] > k0[1] + 4:
                raise Violation("leak", "%d record(s) of freed functions are kept" % (k1[1] - k0[1]))
        finally:
            self.stats.update(ctl.win_stats())
            ctl.win_reset(None)
            ctl.heap(None)
            self.bytes.clear()
            ctl.dropbytes()


def run_plan(plan, progress=None):
    gc.disable()
    ctl.cpu(plan.get("cpu", 0))
    out = {"ok": True}
    run = Run(plan)
    run.progress = progress
    try:
        none0 = sys.getrefcount(None)
        run.execute()
        end = ctl.end()
        if sys.getrefcount(None) != none0:
            raise Violation("refs", "the reference count of None changed")
    except Violation as e:
        out = {"ok": False, "cls": e.cls, "detail": e.detail}
        end = ctl.end()
    log = [[r["id"], r["op"], r["inv"], r["ret"], r["res"]] for r in run.hist]
    run.stats.update(ctl.heapstats())
    out["hash"] = hashlib.sha256(json.dumps([log, end.get("loghash"), end.get("cpos")], default=str).encode()).hexdigest()[:24]
    out["inter"] = "%x" % end.get("loghash", 0)
    out["ops"] = len(run.hist)
    out["end"] = end
    out["stats"] = run.stats
    out["sig"] = hashlib.sha256(json.dumps([[r["op"][0], r["depth"], str(r["res"])[:12]] for r in run.hist]).encode()).hexdigest()[:16]
    if plan.get("keeplog"):
        out["log"] = log
    return out
