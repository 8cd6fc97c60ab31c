"""Executes one plan against the real Unsafe type: heap histories (mode "heap") and standard
streams on a scripted device (mode "stdio")."""
import _thread
import gc
import hashlib
import json
import operator
import sys

import rt
from rt import Violation

ctl = None
U = None
HUGE = 1 << 32          # the simulated machine has 4 GB


def init():
    global ctl, U
    ctl = rt.ctl
    U = rt.ext.Unsafe.Unsafe


class Block:
    __slots__ = ("addr", "data", "kind")

    def __init__(self, addr, data, kind):
        self.addr, self.data, self.kind = addr, data, kind


class Tok:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Idx:
    def __init__(self, run, v):
        self.run, self.v = run, v

    def __index__(self):
        self.run.callback()
        return self.v


class UErr(Exception):
    pass


def pattern(seed, n):
    return bytes((seed * 31 + i * 7 + (i >> 3) * 13) & 255 for i in range(n))


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.mode = plan["mode"]
        self.hist = []
        self.seq = 0
        self.nid = 0
        self.open = 0
        self.violation = None
        self.ctxs = {}
        self.stats = {}
        self.progress = None
        self.slots = [None] * 24
        self.toks = [Tok(i) for i in range(3)]
        self.extra = [0] * 3
        self.u = U()
        self.base = None

    def ev(self):
        self.seq += 1
        return self.seq

    def bump(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # ------------------------------------------------ user code
    def callback(self):
        s = self.ctxs.get(_thread.get_ident())
        if not s:
            return
        ctx = s[-1]
        armed = ctl.disarm()
        try:
            step = ctx["step"]
            ctx["step"] += 1
            act = (ctx["cb"] or {}).get(str(step))
            if act is not None and act[0] == "do" and ctx["depth"] < 3:
                self.bump("reenter")
                for op in act[1]:
                    self.do(op, ctx["depth"] + 1)
            ctl.yield_(3)
            if act is not None and act[0] == "raise":
                self.bump("raise")
                ctx["raised"] = True
                raise UErr(step)
        finally:
            ctl.rearm(armed)

    def V(self, x):
        return Idx(self, x[1]) if isinstance(x, list) else x

    # ------------------------------------------------ one call
    def call(self, func, args, ex):
        """-> (result or exception, fired, raised)"""
        tid = _thread.get_ident()
        ctx = {"step": 0, "cb": ex.get("cb"), "depth": self.depth, "raised": False}
        self.ctxs.setdefault(tid, []).append(ctx)
        f = ex.get("fail") or (-1, 0)
        f0 = ctl.fired()
        try:
            try:
                r = ctl.call(func, args, f[0], f[1])
            except Exception as e:
                r = e
                e.__traceback__ = None
        finally:
            self.ctxs[tid].pop()
        return r, ctl.fired() - f0, ctx["raised"]

    depth = 0

    def do(self, op, depth=0):
        if self.progress:
            self.progress(len(self.hist))
        ex = op[-1] if isinstance(op[-1], dict) else {}
        body = op[:-1] if ex else op
        self.nid += 1
        rec = {"id": self.nid, "op": body, "inv": self.ev(), "ret": None, "res": None, "depth": depth}
        self.hist.append(rec)
        od, self.depth = self.depth, depth
        self.open += 1
        try:
            rec["res"] = getattr(self, "op_" + body[0])(body, ex, rec)
        finally:
            self.open -= 1
            self.depth = od
        rec["ret"] = self.ev()
        if not ctl.gilok():
            raise Violation("gil", "interpreter lock state wrong after %s" % json.dumps(body))
        if self.mode == "heap":
            self.census(body)

    def bad(self, op, msg):
        raise Violation("contract", "%s: %s" % (json.dumps(op)[:200], msg))

    def expect_exc(self, op, r, fired, raised, types, why):
        """the call must raise one of types"""
        if raised:
            if not isinstance(r, UErr):
                self.bad(op, "the exception raised by user code did not come out, got %r" % (r,))
            return "user"
        if isinstance(r, types):
            return type(r).__name__
        if fired and isinstance(r, MemoryError):
            return "MemoryError"
        self.bad(op, "expected %s (%s), got %r" % ("/".join(t.__name__ for t in types), why, r))

    def plain(self, op, r, fired, raised):
        """-> True when the call returned normally; checks the only exceptions it may raise"""
        if raised:
            self.expect_exc(op, r, fired, raised, (UErr,), "raised by user code")
            return False
        if isinstance(r, BaseException):
            if isinstance(r, MemoryError) and fired:
                self.bump("nomem")
                return False
            self.bad(op, "raised %r%s" % (r, " after a failed memory request" if fired else ""))
        return True

    # ------------------------------------------------ heap
    def newblock(self, op, s, r, n, al, kind, zero=False):
        if not isinstance(r, int) or r <= 0:
            self.bad(op, "returned %r, not an address" % (r,))
        if al and r % al:
            self.bad(op, "address is not aligned to %d" % al)
        b = ctl.blockof(r)
        if b is None:
            self.bad(op, "the returned address is not inside any live block")
        if r + n > b[0] + b[1]:
            self.bad(op, "the block holds %d byte(s), %d were requested" % (b[0] + b[1] - r, n))
        for o in self.slots:
            if o is not None and r < o.addr + max(1, len(o.data)) and o.addr < r + max(1, n):
                self.bad(op, "the block overlaps another live block")
        data = bytearray(ctl.peek(r, n))
        if zero and data.count(0) != n:
            self.bad(op, "the block is not zeroed")
        self.slots[s] = Block(r, data, kind)
        return "block"

    def sizes(self, vals):
        """-> total or None when the arguments themselves are invalid"""
        for v in vals:
            if v < 0 or v >= 1 << 64:
                return None
        return vals

    def op_malloc(self, op, ex, rec):
        _, s, n = op
        if self.slots[s] is not None:
            return "skip"
        r, fired, raised = self.call(self.u.malloc, (n,), ex)
        if n < 0 or n >= 1 << 64:
            return self.expect_exc(op, r, fired, raised, (OverflowError, ValueError), "invalid size")
        if n > HUGE:
            return self.expect_exc(op, r, fired, raised, (MemoryError,), "too large")
        if self.plain(op, r, fired, raised):
            return self.newblock(op, s, r, n, 16, "m")
        return "exc"

    def op_calloc(self, op, ex, rec):
        s, a, b = op[1], op[2], op[3]
        if self.slots[s] is not None:
            return "skip"
        args = (self.V(a), self.V(b))
        r, fired, raised = self.call(self.u.calloc, args, ex)
        a, b = (x[1] if isinstance(x, list) else x for x in (a, b))
        if a < 0 or b < 0 or a >= 1 << 64 or b >= 1 << 64:
            return self.expect_exc(op, r, fired, raised, (OverflowError, ValueError), "invalid size")
        if a * b > HUGE:
            return self.expect_exc(op, r, fired, raised, (MemoryError,), "too large")
        if self.plain(op, r, fired, raised):
            return self.newblock(op, s, r, a * b, 16, "m", True)
        return "exc"

    def op_amalloc(self, op, ex, rec):
        s, n, al = op[1], op[2], op[3]
        if self.slots[s] is not None:
            return "skip"
        r, fired, raised = self.call(self.u.aligned_malloc, (self.V(n), self.V(al)), ex)
        n, al = (x[1] if isinstance(x, list) else x for x in (n, al))
        if min(n, al) < 0 or max(n, al) >= 1 << 64:
            return self.expect_exc(op, r, fired, raised, (OverflowError, ValueError), "invalid size")
        if n > HUGE or al > 1 << 30:
            return self.expect_exc(op, r, fired, raised, (MemoryError, ValueError), "too large")
        if al == 0 or al & (al - 1):
            return self.expect_exc(op, r, fired, raised, (MemoryError, ValueError), "alignment is not a power of two")
        if self.plain(op, r, fired, raised):
            return self.newblock(op, s, r, n, al, "a")
        return "exc"

    def op_realloc(self, op, ex, rec):
        s, n = op[1], op[2]
        o = self.slots[s]
        if o is not None and o.kind != "m":
            return "skip"
        old = bytes(o.data) if o else b""
        r, fired, raised = self.call(self.u.realloc, (o.addr if o else 0, self.V(n)), ex)
        n = n[1] if isinstance(n, list) else n

        def same():
            if self.slots[s] is not o:
                self.bad(op, "harness: the slot changed")
            if o is not None:
                b = ctl.blockof(o.addr)
                if b is None or b[0] != o.addr:
                    self.bad(op, "the old block is gone although the call raised %r" % (r,))
                if ctl.peek(o.addr, len(old)) != old:
                    self.bad(op, "the old block's contents changed although the call raised %r" % (r,))
            return "exc"
        if n < 0 or n >= 1 << 64:
            self.expect_exc(op, r, fired, raised, (OverflowError, ValueError), "invalid size")
            return same()
        if n > HUGE:
            self.expect_exc(op, r, fired, raised, (MemoryError,), "too large")
            return same()
        if not self.plain(op, r, fired, raised):
            return same()
        self.slots[s] = None
        self.newblock(op, s, r, n, 16, "m")
        nb = self.slots[s]
        k = min(len(old), n)
        if bytes(nb.data[:k]) != old[:k]:
            self.bad(op, "the contents were not preserved")
        if o is not None and r != o.addr and any(b is not nb and b is not None and b.addr == o.addr for b in self.slots) is False:
            b = ctl.blockof(o.addr)
            if b is not None and b[0] == o.addr and b[0] != ctl.blockof(r)[0] and self.open == 1:
                self.bad(op, "the block moved but the old one was not freed")
        return "block"

    def release(self, op, ex, f, kind):
        s = op[1]
        o = self.slots[s]
        if o is not None and o.kind != kind:
            return "skip"
        self.slots[s] = None
        r, fired, raised = self.call(f, (o.addr if o else 0,), ex)
        if isinstance(r, BaseException):
            self.bad(op, "raised %r" % (r,))
        if r is not None:
            self.bad(op, "returned %r" % (r,))
        return None

    def op_free(self, op, ex, rec):
        return self.release(op, ex, self.u.free, "m")

    def op_afree(self, op, ex, rec):
        return self.release(op, ex, self.u.aligned_free, "a")

    def clip(self, s, off, n):
        b = self.slots[s]
        if b is None:
            return None
        off = min(off, len(b.data))
        return b, off, min(n, len(b.data) - off)

    def op_set(self, op, ex, rec):
        c = self.clip(op[1], op[2], op[3])
        if c is None:
            return "skip"
        b, off, n = c
        d = pattern(op[4], n)
        r, fired, raised = self.call(self.u.set, (b.addr + off, d), ex)
        if self.plain(op, r, fired, raised):
            if r is not None:
                self.bad(op, "returned %r" % (r,))
            b.data[off:off + n] = d
        return None

    def op_get(self, op, ex, rec):
        c = self.clip(op[1], op[2], op[3])
        if c is None:
            return "skip"
        b, off, n = c
        want = bytes(b.data[off:off + n])
        r, fired, raised = self.call(self.u.get, (b.addr + off, n), ex)
        if self.plain(op, r, fired, raised):
            if type(r) is not bytes or r != want:
                self.bad(op, "returned %r, the block holds %r" % (r, want))
            return "bytes"
        return "exc"

    def op_memcpy(self, op, ex, rec):
        c, d = self.clip(op[1], op[2], op[5]), self.clip(op[3], op[4], op[5])
        if c is None or d is None:
            return "skip"
        n = min(c[2], d[2])
        if c[0] is d[0]:
            n = min(n, abs(c[1] - d[1]))
        r, fired, raised = self.call(self.u.memcpy, (c[0].addr + c[1], d[0].addr + d[1], n), ex)
        if self.plain(op, r, fired, raised):
            if r is not None:
                self.bad(op, "returned %r" % (r,))
            d[0].data[d[1]:d[1] + n] = c[0].data[c[1]:c[1] + n]
        return None

    def op_memset(self, op, ex, rec):
        c = self.clip(op[1], op[2], op[4])
        if c is None:
            return "skip"
        b, off, n = c
        r, fired, raised = self.call(self.u.memset, (b.addr + off, op[3], n), ex)
        if self.plain(op, r, fired, raised):
            if r is not None:
                self.bad(op, "returned %r" % (r,))
            b.data[off:off + n] = bytes([op[3] & 255]) * n
        return None

    # ------------------------------------------------ native functions
    def op_ncall(self, op, ex, rec):
        """[ncall, slot, variant, value, offset, size, source slot, source offset]"""
        s, how, value = op[1], op[2], op[3]
        func = [None]
        cb = self.native_cb if ex.get("cb") else None
        c = d = None
        want = None
        if how == "call":
            n = op[5]
            if n:
                c = self.clip(s, op[4], n)
                if c is None:
                    return "skip"
                n = c[2]
                if 8 < n <= 16:
                    n = 8
                if n > 16:
                    # the function gives the address of the structure it returns
                    d = self.clip(op[6], op[7], n)
                    if d is None or d[0] is c[0]:
                        return "skip"
                    n = d[2]
                    if n <= 16:
                        return "skip"
                    value = d[0].addr + d[1]
                    if value >= 1 << 63:
                        value -= 1 << 64
            res = c[0].addr + c[1] if c else op[4]
            func[0] = ctl.native(s, value, cb)
            args = (func[0], res, n)
            f = self.u.call
        else:
            func[0] = ctl.native(s, value, cb)
            args = (func[0],)
            f = {"void": self.u.callVoid, "int": self.u.callInt, "ll": self.u.callLongLong}[how]
            if how == "int":
                want = (value + (1 << 31)) % (1 << 32) - (1 << 31)
            elif how == "ll":
                want = value
        bad = op[8] if len(op) > 8 else None
        types = None
        if bad:
            args, types = {"type": (("x",) + args[1:], (TypeError,)), "none": ((None,) + args[1:], (TypeError,)),
                           "big": ((1 << 70,) + args[1:], (OverflowError,)), "few": (args[:-1], (TypeError,)),
                           "many": (args + (1,), (TypeError,)),
                           "res": ((args[0], "x", 8), (TypeError,)), "bigres": ((args[0], 1 << 80, 8), (OverflowError,)),
                           "neg": ((args[0], 4096, -1), (OverflowError, ValueError)),
                           "huge": ((args[0], 4096, 1 << 64), (OverflowError, ValueError)), "size": ((args[0], 4096, "8"), (TypeError,))}[bad]
        r, fired, raised = self.call(f, args, ex)
        runs = ctl.nativeruns(s)
        ctl.native(s, 0, None)
        if bad:
            res = self.expect_exc(op, r, fired, False, types, "invalid call")
            if runs:
                self.bad(op, "the function was run although the call raised")
            return res
        if isinstance(r, MemoryError) and fired:
            self.bump("nomem")
            if runs > 1:
                self.bad(op, "the function was run %d times" % runs)
            if how == "call" and runs == 0:
                return "exc"
        elif isinstance(r, BaseException):
            self.bad(op, "raised %r" % (r,))
        elif runs != 1:
            self.bad(op, "the function was run %d times" % runs)
        elif r != want or type(r) is not type(want):
            self.bad(op, "returned %r, the function returned %r" % (r, want))
        self.bump("native")
        if c:
            b, off, _ = c
            b.data[off:off + n] = d[0].data[d[1]:d[1] + n] if d else (value & (1 << 64) - 1).to_bytes(8, "little")[:n]
        return "called"

    def native_cb(self):
        try:
            self.callback()
        except UErr:
            pass

    # ------------------------------------------------ objects
    def op_asobj(self, op, ex, rec):
        t = self.toks[op[1]]
        rc = sys.getrefcount(t)
        e0 = self.extra[op[1]]
        r, fired, raised = self.call(self.u.as_object, (id(t),), ex)
        if self.plain(op, r, fired, raised):
            if r is not t:
                self.bad(op, "returned another object: %r" % (r,))
            r = None
        if sys.getrefcount(t) != rc and e0 == self.extra[op[1]] and self.open == 1:
            self.bad(op, "the reference count went from %d to %d" % (rc, sys.getrefcount(t)))
        return "obj"

    def op_addr(self, op, ex, rec):
        t = self.toks[op[1]]
        rc = sys.getrefcount(t)
        e0 = self.extra[op[1]]
        r, fired, raised = self.call(self.u.get_address, (t,), ex)
        if self.plain(op, r, fired, raised) and r != id(t):
            self.bad(op, "returned %r" % (r,))
        if sys.getrefcount(t) != rc and e0 == self.extra[op[1]] and self.open == 1:
            self.bad(op, "the reference count changed")
        return "addr"

    def op_incref(self, op, ex, rec):
        t = self.toks[op[1]]
        rc = sys.getrefcount(t)
        self.extra[op[1]] += 1
        r, fired, raised = self.call(self.u.incref, (t,), ex)
        if isinstance(r, BaseException) or r is not None:
            self.bad(op, "gave %r" % (r,))
        if sys.getrefcount(t) != rc + 1 and self.open == 1:
            self.bad(op, "the reference count went from %d to %d" % (rc, sys.getrefcount(t)))

    def op_decref(self, op, ex, rec):
        if self.extra[op[1]] == 0:
            return "skip"
        t = self.toks[op[1]]
        rc = sys.getrefcount(t)
        self.extra[op[1]] -= 1
        r, fired, raised = self.call(self.u.decref, (t,), ex)
        if isinstance(r, BaseException) or r is not None:
            self.bad(op, "gave %r" % (r,))
        if sys.getrefcount(t) != rc - 1 and self.open == 1:
            self.bad(op, "the reference count went from %d to %d" % (rc, sys.getrefcount(t)))

    def op_refcnt(self, op, ex, rec):
        t = self.toks[op[1]]
        args = (t,)
        r, fired, raised = self.call(sys.getrefcount, args, {})
        want = r
        r, fired, raised = self.call(self.u.refcnt, args, ex)
        if self.plain(op, r, fired, raised) and r != want and self.open == 1:
            self.bad(op, "returned %r, the count is %d" % (r, want))
        return "int"

    def op_with(self, op, ex, rec):
        r, fired, raised = self.call(U, (), ex)
        if self.plain(op, r, fired, raised):
            if not isinstance(r, U):
                self.bad(op, "Unsafe() gave %r" % (r,))
            rc = sys.getrefcount(r)
            x = r.__enter__()
            if x is not r:
                self.bad(op, "__enter__ gave another object")
            x = None
            if r.__exit__(None, None, None) is not None:
                self.bad(op, "__exit__ gave a value")
            if sys.getrefcount(r) != rc:
                self.bad(op, "the with block changed the reference count of the Unsafe object")
        return "with"

    BADCALLS = {
        "get-neg": lambda u, a: (u.get, (a, -1), (ValueError, OverflowError)),
        "get-type": lambda u, a: (u.get, ("x", 1), (TypeError,)),
        "set-type": lambda u, a: (u.set, (a, "x"), (TypeError,)),
        "set-n": lambda u, a: (u.set, (a,), (TypeError,)),
        "malloc-type": lambda u, a: (u.malloc, ("x",), (TypeError,)),
        "free-type": lambda u, a: (u.free, ("x",), (TypeError,)),
        "free-neg": lambda u, a: (u.free, (-5,), (OverflowError, ValueError)),
        "afree-type": lambda u, a: (u.aligned_free, (None,), (TypeError,)),
        "calloc-n": lambda u, a: (u.calloc, (1,), (TypeError,)),
        "realloc-type": lambda u, a: (u.realloc, (a, "x"), (TypeError,)),
        "realloc-n": lambda u, a: (u.realloc, (a,), (TypeError,)),
        "memcpy-n": lambda u, a: (u.memcpy, (a, a), (TypeError,)),
        "memcpy-type": lambda u, a: (u.memcpy, (a, "x", 1), (TypeError,)),
        "memcpy-neg": lambda u, a: (u.memcpy, (a, a, -1), (OverflowError, ValueError)),
        "memset-n": lambda u, a: (u.memset, (a, 1), (TypeError,)),
        "memset-type": lambda u, a: (u.memset, (a, "x", 1), (TypeError,)),
        "memset-neg": lambda u, a: (u.memset, (a, 0, -1), (OverflowError, ValueError)),
        "asobj-null": lambda u, a: (u.as_object, (0,), (ValueError,)),
        "asobj-type": lambda u, a: (u.as_object, ("x",), (TypeError,)),
        "call-n": lambda u, a: (u.call, (a,), (TypeError,)),
        "callInt-n": lambda u, a: (u.callInt, (), (TypeError,)),
        "fputs-type": lambda u, a: (u.fputs, (b"x",), (TypeError,)),
        "fgets-type": lambda u, a: (u.fgets, ("x",), (TypeError,)),
        "fgets-0": lambda u, a: (u.fgets, (0,), (ValueError,)),
        "fgets-neg": lambda u, a: (u.fgets, (-3,), (ValueError,)),
        "fgets-big": lambda u, a: (u.fgets, (1 << 70,), (OverflowError, ValueError)),
    }

    def op_bad(self, op, ex, rec):
        o = self.slots[op[2]]
        f, args, types = self.BADCALLS[op[1]](self.u, o.addr if o else 4096)
        r, fired, raised = self.call(f, args, ex)
        return self.expect_exc(op, r, fired, raised, types, "invalid call")

    def census(self, op, final=False):
        """every live block is known and holds exactly what was put there"""
        for o in self.slots:
            if o is None:
                continue
            b = ctl.blockof(o.addr)
            if b is None or b[0] + b[1] < o.addr + len(o.data):
                self.bad(op, "a live block of %d byte(s) is gone" % len(o.data))
            d = ctl.peek(o.addr, len(o.data))
            if d != bytes(o.data) and (self.open == 0):
                i = next(i for i in range(len(d)) if d[i] != o.data[i])
                self.bad(op, "byte %d of a live block is %d, should be %d" % (i, d[i], o.data[i]))
        if self.open == 0:
            n = ctl.live()[0] - self.base
            want = sum(o is not None for o in self.slots)
            if n != want:
                self.bad(op, "%d block(s) are allocated, %d are owned by the caller" % (n, want))

    # ------------------------------------------------ stdio
    def op_fputs(self, op, ex, rec):
        s = self.plan["texts"][op[1]]
        if op[1] in self.plan.get("surr", ()):
            s = s + "\ud800"
        d0 = ctl.dev_stats()
        rec["armed"] = True
        # a fresh string each time: its UTF-8 form is not cached yet
        s = "".join([s])
        args = (s,)
        r, fired, raised = self.call(self.u.fputs, args, ex)
        d1 = ctl.dev_stats()
        rec["werr"] = d1["mywerr"] - d0["mywerr"]
        if op[1] in self.plan.get("surr", ()):
            rec["kind"] = "none"
            return self.expect_exc(op, r, fired, raised, (UnicodeEncodeError,), "not encodable")
        if rec["werr"]:
            if not isinstance(r, OSError) and not (fired and isinstance(r, MemoryError)):
                self.bad(op, "the device reported an error during the call, but it gave %r" % (r,))
            rec["kind"] = "risk"
            self.bump("oserror")
            return "OSError"
        if not self.plain(op, r, fired, raised):
            rec["kind"] = "none"
            return "MemoryError"
        if r is not None:
            self.bad(op, "returned %r" % (r,))
        rec["kind"] = "must"
        return None

    def op_fflush(self, op, ex, rec):
        d0 = ctl.dev_stats()
        r, fired, raised = self.call(self.u.fflush, (), ex)
        d1 = ctl.dev_stats()
        rec["werr"] = d1["mywerr"] - d0["mywerr"]
        if rec["werr"]:
            if not isinstance(r, OSError) and not (fired and isinstance(r, MemoryError)):
                self.bad(op, "the device reported an error during the call, but it gave %r" % (r,))
            rec["kind"] = "err"
            self.bump("oserror")
            return "OSError"
        if not self.plain(op, r, fired, raised):
            rec["kind"] = "nop"
            return "exc"
        rec["kind"] = "sync"
        rec["outlen"] = len(ctl.dev_out())
        return None

    def op_fgets(self, op, ex, rec):
        n = op[1]
        d0 = ctl.dev_stats()
        r, fired, raised = self.call(self.u.fgets, (n,), ex)
        d1 = ctl.dev_stats()
        rec["ipos"] = d1["ipos"]
        rec["fired"] = fired
        err = d1["myrerr"] - d0["myrerr"]
        if isinstance(r, BaseException):
            if err and (isinstance(r, (OSError, RuntimeError)) or fired and isinstance(r, MemoryError)) and not isinstance(r, RecursionError):
                self.bump("readerror")
                rec["kind"] = "rerr"
            elif fired and isinstance(r, MemoryError):
                rec["kind"] = "rmem"
                self.bump("nomem")
            else:
                self.bad(op, "raised %r" % (r,))
            return type(r).__name__
        if err:
            self.bad(op, "the device reported an error during the call, but it gave %r" % (r,))
        if type(r) is not str:
            self.bad(op, "gave %r" % (r,))
        rec["kind"] = "read"
        return r

    def check_stdio(self):
        recs = [r for r in self.hist if r.get("kind") not in (None, "none", "nop")]
        data = bytes(self.plan["input"], "ascii")
        out = ctl.dev_out()
        sys.setrecursionlimit(10000)

        def step_read(pos, r):
            n = r["op"][1] - 1
            res = set()
            for p in pos:
                if n <= 0:
                    full = b""
                else:
                    e = data.find(b"\n", p)
                    e = len(data) if e < 0 else e + 1
                    full = data[p:min(e, p + n)]
                if r["kind"] == "read":
                    if r["res"].encode() == full:
                        res.add(p + len(full))
                elif r["kind"] == "rmem":
                    res.add(p)
                    res.add(p + len(full))
                else:
                    res.update(range(p, min(p + len(full), max(r["ipos"], p)) + 1))
            return frozenset(res)

        budget = [4000]
        best = [0, None]

        def walk(left, pos, order):
            if not left:
                m = self.match_out(order, out)
                if m is not None:
                    best[1] = m
                    best[0] = len(recs)
                    return False
                return True
            budget[0] -= 1
            if budget[0] <= 0:
                return True
            minret = min(r["ret"] for r in left)
            for i, r in enumerate(left):
                if r["inv"] > minret:
                    break
                if r["kind"] in ("read", "rerr", "rmem"):
                    np = step_read(pos, r)
                    if not np:
                        if len(recs) - len(left) >= best[0]:
                            best[0] = len(recs) - len(left)
                            best[1] = "%s gave %r, which is not the next line or prefix of the input" % (json.dumps(r["op"]), r["res"])
                        continue
                    if walk(left[:i] + left[i + 1:], np, order):
                        return True
                elif walk(left[:i] + left[i + 1:], pos, order + [r]):
                    return True
            return False
        if not walk(recs, frozenset([0]), []):
            raise Violation("contract", "no order of the calls explains what happened: %s" % best[1])

    def match_out(self, order, out):
        """the device's bytes against the order of the writes: None, or what is wrong"""
        pieces = []     # [bytes, must]
        syncs = []      # (number of pieces, output length)
        since = 0       # first piece not confirmed by a flush
        for r in order:
            if r["kind"] in ("must", "risk"):
                pieces.append([self.plan["texts"][r["op"][1]].encode(), True])
            if r.get("werr"):
                for p in pieces[since:]:
                    p[1] = False
            if r["kind"] == "sync":
                since = len(pieces)
                syncs.append((len(pieces), r["outlen"]))
        text = b"".join(p[0] for p in pieces)
        masks = {}
        for i, c in enumerate(text):
            masks.setdefault(c, []).append(i)
        for c, l in masks.items():
            m = bytearray(len(text) // 8 + 1)
            for i in l:
                m[i >> 3] |= 1 << (i & 7)
            masks[c] = int.from_bytes(m, "little")
        O = 0
        ends = []
        n = 0
        for p in pieces:
            k = len(p[0])
            if not p[1]:
                O |= ((1 << k) - 1) << n
            n += k
            ends.append(n)

        def closure(st):    # a byte that may be lost can be skipped
            return (((st & O) + O) ^ O) | st
        st = closure(1)
        si = 0

        def sync(k, st):
            nonlocal si
            while si < len(syncs) and syncs[si][1] == k:
                e = ends[syncs[si][0] - 1] if syncs[si][0] else 0
                st = st >> e << e
                si += 1
            return st
        st = sync(0, st)
        for k, c in enumerate(out):
            st = closure((st & masks.get(c, 0)) << 1)
            if not st:
                return "byte %d of the output, %r, was never written there (...%r)" % (k, chr(c), out[max(0, k - 20):k + 5])
            st = sync(k + 1, st)
            if not st:
                return "after a successful fflush the output (%d bytes) lacks something written before" % (k + 1)
        if not st:
            return "after a successful fflush the output lacks something written before"
        if not st >> len(text) & 1 and order and order[-1]["kind"] == "sync":
            return "output incomplete after the last fflush"
        return None

    # ------------------------------------------------ run
    def client(self, i, ops):
        try:
            ctl.enter(i)
            try:
                for op in ops:
                    ctl.yield_(4)
                    self.do(op)
            except BaseException as e:
                if self.violation is None:
                    self.violation = e
        finally:
            self.ctxs.pop(_thread.get_ident(), None)
            ctl.leave()

    def counts(self):
        return [sys.getrefcount(t) for t in self.toks]

    def execute(self):
        plan = self.plan
        cl = plan["clients"]
        ctl.begin(bytes(plan.get("sched", [])), max(1, len(cl)), plan.get("limit", 2_000_000))
        ctl.solo()
        ctl.track(1)
        ctl.reuse(1)
        ctl.heap(bytes(plan["heap"]) if plan.get("heap") is not None else None)
        self.base = ctl.live()[0]
        rc0 = self.counts()
        if self.mode == "stdio":
            ctl.dev_open(bytes(plan["input"], "ascii"), plan["wscript"], plan["rscript"], plan["bufsz"])
        try:
            if len(cl) == 1:
                for op in cl[0]:
                    self.do(op)
            else:
                for i, ops in enumerate(cl):
                    _thread.start_new_thread(self.client, (i, ops))
                    ctl.started()
                ctl.go(plan.get("first", 0) % len(cl))
                if self.violation is not None:
                    raise self.violation
                ctl.solo()
            if self.mode == "heap":
                for s, o in enumerate(self.slots):
                    if o is not None:
                        self.do(["get", s, 0, len(o.data)])
                        self.do(["free" if o.kind == "m" else "afree", s])
                for k in range(3):
                    self.do(["refcnt", k])
                    while self.extra[k]:
                        self.do(["decref", k])
                rc = self.counts()
                if rc != rc0:
                    raise Violation("refs", "reference counts at the end: %r, at the start: %r" % (rc, rc0))
            else:
                # the device has healed: everything works again within one call each
                n = len(plan["wscript"])
                ctl.dev_heal()
                self.do(["fputs", 0])
                self.do(["fflush"])
                for _ in range(len(plan["input"]) + 40):
                    self.do(["fgets", 64])
                    if self.hist[-1]["res"] == "":
                        break
                self.do(["fputs", 0])
                self.do(["fflush"])
                for r in self.hist[-2:]:
                    if r["res"] is not None:
                        raise Violation("contract", "output still fails after the device healed: %r" % (r["res"],))
                self.check_stdio()
                n = ctl.live()[0] - self.base
                if n:
                    raise Violation("leak", "%d native block(s) are never released" % n)
        finally:
            if self.mode == "stdio":
                for k, v in ctl.dev_stats().items():
                    if k in ("werr", "rerr", "wshort", "rshort", "nw", "nr"):
                        self.stats[k] = v
                ctl.dev_close()
            ctl.heap(None)
            ctl.reuse(0)
            ctl.track(0)


def run_plan(plan, progress=None):
    gc.disable()
    ctl.cpu(plan.get("cpu", 0))
    out = {"ok": True}
    run = Run(plan)
    run.progress = progress
    try:
        none0 = sys.getrefcount(None)
        run.execute()
        end = ctl.end()
        if abs(sys.getrefcount(None) - none0) > 0:
            raise Violation("refs", "the reference count of None changed")
    except Violation as e:
        out = {"ok": False, "cls": e.cls, "detail": e.detail}
        end = ctl.end()
    log = [[r["id"], r["op"], r["inv"], r["ret"], r["res"]] for r in run.hist]
    run.stats.update(ctl.heapstats())
    out["hash"] = hashlib.sha256(json.dumps([log, end.get("loghash"), end.get("cpos")], default=str).encode()).hexdigest()[:24]
    out["inter"] = "%x" % end.get("loghash", 0)
    out["ops"] = len(run.hist)
    out["end"] = end
    out["stats"] = run.stats
    out["sig"] = hashlib.sha256(json.dumps([[r["op"][0], r["depth"], str(r["res"])[:12]] for r in run.hist]).encode()).hexdigest()[:16]
    if plan.get("keeplog"):
        out["log"] = log
    return out
