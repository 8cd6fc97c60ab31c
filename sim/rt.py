"""Executes one plan against the real extension, under the simulator kernel (simctl)."""
import collections
import gc
import hashlib
import importlib.machinery
import importlib.util
import json
import operator
import struct
import sys
import _thread
import weakref

import badcalls as BC
import spec as SP

KINDS = {"IntArrayList": "int", "BigIntArrayList": "int", "IntLinkedList": "int", "ObjectArrayList": "obj", "ObjectLinkedList": "obj"}
ctl = None
ext = None
TYPES = {}
SUBS = {}


class Leaf:
    __slots__ = ("__weakref__",)


def nest(types, n, every, how):
    """a structure n containers deep with leaves in it, dropped at once: how many leaves were released"""
    refs = []
    for i in range(n):
        k = types[(n - 1 - i) % len(types)]
        x = [x] if i else []
        if i % every == 0:
            leaf = Leaf()
            refs.append(weakref.ref(leaf))
            x.append(leaf)
            del leaf
        x = iter(k(x)) if how == "iter" and i % 7 == 3 else k(x)
    if how == "clear":
        x.clear()
    elif how == "del":
        del x[0]
    elif how == "slice":
        x[0:1] = [1]
    elif how == "resize":
        x *= 0
    elif how == "sort":
        try:
            x.sort(key=lambda e: x.clear() or 0)
        except ValueError:
            pass
    x = None
    return sum(r() is None for r in refs)


def load(so):
    global ctl, ext

    def ld(name):
        l = importlib.machinery.ExtensionFileLoader(name, so)
        s = importlib.util.spec_from_file_location(name, so, loader=l)
        m = importlib.util.module_from_spec(s)
        l.exec_module(m)
        return m
    ctl = ld("simctl")
    ext = ld("__pyfastutil")
    use(ext)
    return ctl, ext


def use(ext):
    for k in KINDS:
        TYPES[k] = getattr(getattr(ext, k), k)
        SUBS[k] = type("Sub" + k, (TYPES[k],), {})      # with a __dict__, weak references


class UserErr(Exception):
    pass


class UBase(BaseException):
    pass


class UType(TypeError):
    pass


class UValue(ValueError):
    pass


class UIndex(IndexError):
    pass


class UOver(OverflowError):
    pass


class UMem(MemoryError):
    pass


class UStop(StopIteration):
    pass


class URuntime(RuntimeError):
    pass


UEXC = {"E": UserErr, "B": UBase, "T": UType, "V": UValue, "I": UIndex, "O": UOver, "M": UMem, "S": UStop, "R": URuntime}
for _c, _b in (("K", KeyError), ("A", AttributeError), ("N", NotImplementedError), ("L", LookupError), ("Q", OSError), ("X", BufferError),
               ("Y", SystemError), ("Z", KeyboardInterrupt), ("D", ZeroDivisionError), ("G", GeneratorExit), ("C", AssertionError),
               ("F", EOFError), ("P", RecursionError), ("H", UnicodeError), ("J", SystemExit), ("W", StopAsyncIteration), ("Aa", ArithmeticError)):
    UEXC[_c] = type("U" + _b.__name__, (_b,), {})
UTYPES = tuple(UEXC.values())


class Ctx:
    """one call in progress"""
    __slots__ = ("rec", "step", "cb", "depth", "tid", "raised", "quiet")

    def __init__(self, rec, cb, depth, tid):
        self.rec = rec
        self.step = 0
        self.cb = cb
        self.depth = depth
        self.tid = tid
        self.raised = None
        self.quiet = False


class SimStop(BaseException):
    pass


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(cls + ": " + detail)
        self.cls = cls
        self.detail = detail


class Tok:
    __slots__ = ("n", "k", "__weakref__")
    run = None

    def __init__(self, n, k):
        self.n = n
        self.k = k

    def __eq__(self, o):
        r = Tok.run
        if r is not None:
            r.callback("eq")
        if not isinstance(o, Tok):
            return NotImplemented
        return self.k == o.k

    def __lt__(self, o):
        r = Tok.run
        if r is not None:
            r.callback("lt")
        if not isinstance(o, Tok):
            return NotImplemented
        return self.k < o.k

    def __gt__(self, o):
        r = Tok.run
        if r is not None:
            r.callback("lt")
        if not isinstance(o, Tok):
            return NotImplemented
        return self.k > o.k

    def __le__(self, o):
        r = Tok.run
        if r is not None:
            r.callback("lt")
        if not isinstance(o, Tok):
            return NotImplemented
        return self.k <= o.k

    def __ge__(self, o):
        r = Tok.run
        if r is not None:
            r.callback("lt")
        if not isinstance(o, Tok):
            return NotImplemented
        return self.k >= o.k

    def __hash__(self):
        return self.n

    def __repr__(self):
        r = Tok.run
        if r is not None:
            r.callback("repr")
        return "T%d" % self.n


class DTok(Tok):
    """a token whose destruction runs user code"""
    __slots__ = ()

    def __del__(self):
        r = Tok.run
        if r is not None:
            r.callback("del")


class Idx:
    def __init__(self, run, v):
        self.run = run
        self.v = v

    def __index__(self):
        self.run.callback("index")
        return self.v


class It:
    """a lazy iterator under simulator control"""

    def __init__(self, run, items, hint, src):
        self.run = run
        self.items = items
        self.i = 0
        if hint is not None:
            self.hint = hint

    def __iter__(self):
        return self

    def __next__(self):
        run = self.run
        ctx = run.callback("next")
        if self.i >= len(self.items):
            raise StopIteration
        v = self.items[self.i]
        self.i += 1
        if ctx is not None:
            run.produced(ctx)
        return v


class HIt(It):
    def __length_hint__(self):
        self.run.callback("hint")
        return self.hint


class Seq:
    """old-style sequence: __len__ and __getitem__"""

    def __init__(self, run, items):
        self.run = run
        self.items = items

    def __len__(self):
        self.run.callback("len")
        return len(self.items)

    def __getitem__(self, i):
        ctx = self.run.callback("getitem")
        if i >= len(self.items):
            raise IndexError(i)
        v = self.items[i]
        if ctx is not None:
            self.run.produced(ctx)
        return v


class LSub(list):
    """a list whose iteration gives other items than the ones it stores"""

    def __iter__(self):
        return self.it()


class TSub(tuple):
    def __iter__(self):
        return self.it()


class NotIter:
    pass


LAZY = ("gen", "iter", "seq", "lsub", "tsub")


class Run:
    NITER = 3
    NVIEW = 3

    def __init__(self, plan):
        self.plan = plan
        self.tname = plan["type"]
        self.kind = KINDS[self.tname]
        self.T = self.TC = TYPES[self.tname]
        if plan.get("sub"):
            self.TC = SUBS[self.tname]
        self.nslots = plan.get("slots", 2)
        self.hist = []
        self.seq = 0
        self.ctxs = {}
        self.nid = 0
        self.violation = None
        self.tok = []
        self.stats = {}
        self.progress = None
        self.maxops = 400
        self.solo = True
        self.check_gil = True

    # ---------------------------------------------------------------- set-up
    def setup(self):
        self.nkeys = self.plan.get("nkeys", 4)
        ntok = self.plan.get("ntok", 8)
        dt = set(self.plan.get("dtok", ()))
        if self.kind == "obj":
            self.tok = [(DTok if i in dt else Tok)(i, SP.tokkey(i, self.nkeys)) for i in range(ntok)]
        self.slots = [self.TC() for _ in range(self.nslots)]
        self.uids = list(range(self.nslots))
        self.nuid = self.nslots
        self.iters = [None] * self.NITER
        self.views = [None] * self.NVIEW

    def E(self, c):
        """element code -> object"""
        if isinstance(c, list) and c and c[0] == "idx":
            return Idx(self, c[1])
        if self.kind == "int":
            return "x" if c == "BAD" else c
        if c is None:
            return None
        return self.tok[c]

    def I(self, i):
        if isinstance(i, list):
            return Idx(self, i[1])
        return i

    def N(self, e):
        if isinstance(e, Tok):
            return ["t", e.n]
        if e is not None and not isinstance(e, (int, str, float)):
            return ["obj", type(e).__name__]
        return e

    def NR(self, r):
        """normalise a result"""
        if r is None or isinstance(r, (bool, int, str)):
            return r
        if isinstance(r, Tok):
            return ["t", r.n]
        t = type(r).__name__
        if isinstance(r, list):
            return ["list", [self.N(x) for x in r]]
        if t in KINDS:
            Tok.run, o = None, Tok.run
            out = [t, [self.N(x) for x in r.to_list()]]
            Tok.run = o
            return out
        if isinstance(r, float):
            return ["float", r]
        return ["obj", t]

    # ---------------------------------------------------------------- callbacks
    def cur(self):
        s = self.ctxs.get(_thread.get_ident())
        return s[-1] if s else None

    def callback(self, what):
        """user code reached from inside the extension"""
        ctx = self.cur()
        if ctx is None or ctx.quiet or ctx.raised is not None and ctx.raised[1] == "once":
            return None
        armed = ctl.disarm()
        try:
            step = ctx.step
            ctx.step += 1
            self.stats["cb_" + what] = self.stats.get("cb_" + what, 0) + 1
            self.ev()
            act = ctx.cb.get(str(step)) if ctx.cb else None
            if act is not None and act[0] == "do" and ctx.depth < 2:
                self.stats["reenter"] = self.stats.get("reenter", 0) + 1
                for op in act[1]:
                    self.do(op, ctx.depth + 1, ctx.rec["id"])
            ctl.yield_(3)
            if act is not None and act[0] == "raise":
                if what in ("next", "getitem") and act[1] in ("S", "I") or what in ("hint", "len") and act[1] in ("T",) or what == "del":
                    return ctx
                tag = "%s%d" % (act[1], step)
                ctx.rec["rwhat"] = what
                ctx.raised = (tag, "many")
                self.stats["raise"] = self.stats.get("raise", 0) + 1
                raise UEXC[act[1]](tag)
        finally:
            ctl.rearm(armed)
        return ctx

    def produced(self, ctx):
        p = ctx.rec.setdefault("prod", [])
        p.append(self.ev())

    def ev(self):
        self.seq += 1
        return self.seq

    # ---------------------------------------------------------------- operations
    def src(self, s):
        k = s[0]
        if k == "lst":
            return self.slots[s[1]]
        if k == "bad":
            return NotIter()
        if k == "range":
            return range(*s[1])
        if k == "itr":
            return iter(self.slots[s[1]])
        if k == "ritr":
            return reversed(self.slots[s[1]])
        items = [self.E(c) for c in s[1]]
        if k == "list":
            return items
        if k == "tuple":
            return tuple(items)
        if k == "dict":
            return dict.fromkeys(items)
        if k == "other":
            o = {"IntArrayList": "BigIntArrayList", "BigIntArrayList": "IntLinkedList", "IntLinkedList": "IntArrayList",
                 "ObjectArrayList": "ObjectLinkedList", "ObjectLinkedList": "ObjectArrayList"}[self.tname]
            return TYPES[o](items)
        hint = s[2] if len(s) > 2 else None
        if k == "gen":
            it = It(self, items, None, s)
            return (x for x in it)
        if k == "iter":
            return It(self, items, None, s) if hint is None else HIt(self, items, hint, s)
        if k == "seq":
            return Seq(self, items)
        if k in ("lsub", "tsub"):
            raw = items[::-1] + items[:1]
            o = LSub(raw) if k == "lsub" else TSub(raw)
            o.it = lambda: It(self, items, None, s)
            return o
        if k == "deque":
            return collections.deque(items)
        raise AssertionError(k)

    def key(self, key):
        if key is None:
            return None
        run = self
        if self.kind == "int":
            f = {"neg": lambda x: -x, "mod": lambda x: x % 3, "abs": abs, "const": lambda x: 0, "str": str, "flt": lambda x: x / 2.0,
                 "tup": lambda x: (x % 2, x), "big": lambda x: x * 10 ** 20, "mix": lambda x: x if x % 2 else "s"}[key]
        else:
            g = lambda e: e.k if isinstance(e, Tok) else -1
            n = lambda e: e.n if isinstance(e, Tok) else -1
            f = {"neg": lambda x: -n(x), "mod": lambda x: n(x) % 3, "abs": n, "const": lambda x: 0, "str": lambda x: str(n(x)),
                 "flt": lambda x: g(x) / 2.0, "tup": lambda x: (g(x), n(x)), "big": lambda x: n(x) * 10 ** 20,
                 "mix": lambda x: n(x) if n(x) % 2 else "s"}[key]

        def keyf(x):
            run.callback("key")
            return f(x)
        return keyf

    def build(self, op):
        """-> (callable, args, post) without touching the extension's state"""
        name, a = op[0], op[1:]
        S = self.slots
        if name == "append":
            return S[a[0]].append, (self.E(a[1]),), None
        if name == "extend":
            return S[a[0]].extend, (self.src(a[1]),), None
        if name == "iadd":
            x = S[a[0]]
            return operator.iadd, (x, self.src(a[1])), ("self", x)
        if name == "imul":
            x = S[a[0]]
            return operator.imul, (x, self.I(a[1])), ("self", x)
        if name == "insert":
            return S[a[0]].insert, (self.I(a[1]), self.E(a[2])), None
        if name == "pop":
            return S[a[0]].pop, (), None
        if name == "popi":
            return S[a[0]].pop, (self.I(a[1]),), None
        if name == "remove":
            return S[a[0]].remove, (self.E(a[1]),), None
        if name == "setitem":
            return operator.setitem, (S[a[0]], self.I(a[1]), self.E(a[2])), None
        if name == "delitem":
            return operator.delitem, (S[a[0]], self.I(a[1])), None
        if name == "setslice":
            return operator.setitem, (S[a[0]], slice(*[self.I(x) for x in a[1]]), self.src(a[2])), None
        if name == "delslice":
            return operator.delitem, (S[a[0]], slice(*[self.I(x) for x in a[1]])), None
        if name == "sort":
            kw = {}
            if a[1] is not None:
                kw["key"] = self.key(a[1])
            if a[2] is not None:
                kw["reverse"] = a[2]
            m = S[a[0]].sort
            if kw:
                import functools
                m = functools.partial(m, **kw)
            return m, (), None
        if name in ("reverse", "clear", "to_list", "copy"):
            return getattr(S[a[0]], name), (), None
        if name == "resize":
            return S[a[0]].resize, (self.I(a[1]),), None
        if name == "new":
            if len(a) > 3:
                import functools
                kw = {"iterable": self.src(a[1])}
                if a[2] is not None:
                    kw["exceptSize"] = a[2]
                return functools.partial(self.TC, **kw), (), ("slot", a[0])
            args = (self.src(a[1]),) + ((a[2],) if len(a) > 2 and a[2] is not None else ())
            return self.TC, args, ("slot", a[0])
        if name == "newsize":
            return self.TC, (a[1],), ("slot", a[0])
        if name == "drop":
            return (self.TC.__new__, (self.TC,), ("slot", a[0])) if len(a) > 1 and a[1] else (self.TC, (), ("slot", a[0]))
        if name == "reinit":
            return S[a[0]].__init__, (self.src(a[1]),), None
        if name == "from_range":
            return self.T.from_range, tuple(self.I(x) for x in a[1]), ("slot", a[0])
        if name == "copyto":
            return S[a[0]].copy, (), ("slot", a[1])
        if name == "len":
            return len, (S[a[0]],), None
        if name == "list":
            return list, (S[a[0]],), None
        if name == "rlist":
            return _rlist, (S[a[0]],), None
        if name == "add":
            return operator.add, (S[a[0]], self.src(a[1])), None
        if name == "mul":
            return operator.mul, (S[a[0]], self.I(a[1])), None
        if name == "rmul":
            return operator.mul, (self.I(a[1]), S[a[0]]), None
        if name == "index":
            return S[a[0]].index, (self.E(a[1]),) + tuple(self.I(x) for x in a[2:]), None
        if name == "count":
            return S[a[0]].count, (self.E(a[1]),), None
        if name == "contains":
            return operator.contains, (S[a[0]], self.E(a[1])), None
        if name == "getitem":
            return operator.getitem, (S[a[0]], self.I(a[1])), None
        if name == "getslice":
            return operator.getitem, (S[a[0]], slice(*[self.I(x) for x in a[1]])), None
        if name == "cmp":
            return getattr(operator, a[1]), (S[a[0]], self.src(a[2])), None
        if name == "repr":
            return repr, (S[a[0]],), None
        if name == "badcall":
            return BC.build(a[1], S[a[0]], self.E(0)) + (("bad", S[a[0]]),)
        if name == "nest":
            tt = {"a": TYPES["ObjectArrayList"], "l": TYPES["ObjectLinkedList"], "p": list, "t": tuple}
            return nest, ([tt[c] for c in a[1]], a[2], a[3], a[4]), None
        if name == "iter":
            x = S[a[0]]
            return (reversed if a[2] else iter), (x,), ("iter", a[1])
        if name == "next":
            it = self.iters[a[0]]
            return (None, "none", None) if it is None else (next, (it,), ("next",))
        if name == "drain":
            it = self.iters[a[0]]
            return (None, "none", None) if it is None else (list, (it,), None)
        if name == "lhint":
            it = self.iters[a[0]]
            if it is None:
                return None, "none", None
            return (operator.length_hint, (it, -77), ("lhint",)) if True else None
        if name == "itdrop":
            self.iters[a[0]] = None
            return None, None, None
        if name == "view":
            if self.views[a[1]] is not None:
                return None, "busy", None
            return memoryview, (S[a[0]],), ("view", a[1])
        if name == "subview":
            if self.views[a[0]] is None or self.views[a[1]] is not None:
                return None, "none", None
            return operator.getitem, (self.views[a[0]], slice(a[2], a[3])), ("view", a[1])
        if name == "bytes":
            return (bytes if a[1] == 0 else bytearray if a[1] == 1 else _cast), (S[a[0]],), ("bytes",)
        if name == "pack":
            return struct.pack_into, ("i" if self.tname == "IntArrayList" else "q", S[a[0]], a[1] * (4 if self.tname == "IntArrayList" else 8), a[2]), None
        if name == "vread":
            v = self.views[a[0]]
            return (None, "none", None) if v is None else (v.tolist, (), ("vread", v))
        if name == "vwrite":
            v = self.views[a[0]]
            return (None, "none", None) if v is None else (operator.setitem, (v, a[1], a[2]), None)
        if name == "vrel":
            v = self.views[a[0]]
            self.views[a[0]] = None
            return (None, None, None) if v is None else (v.release, (), None)
        raise AssertionError(name)

    def do(self, op, depth=0, parent=None):
        if len(self.hist) >= self.maxops:
            return
        name = op[0]
        cb = None
        fault = None
        if isinstance(op[-1], dict):
            extra = op[-1]
            op = op[:-1]
            cb = extra.get("cb")
            fault = extra.get("fault")
        self.nid += 1
        rec = {"id": self.nid, "op": op, "inv": self.ev(), "ret": None, "res": None, "tid": ctl.self_(), "parent": parent,
               "bind": tuple(self.uids)}
        self.hist.append(rec)
        if self.progress is not None:
            self.progress(rec["id"])
        ident = _thread.get_ident()
        stack = self.ctxs.setdefault(ident, [])
        ctx = Ctx(rec, cb, depth, rec["tid"])
        saved_tok = None
        func, args, post = self.build(op)
        if func is None:
            rec["res"] = args
            rec["ret"] = self.ev()
            return
        f0 = ctl.fired()
        m0 = ctl.firedmem()
        src = None
        if fault is not None and args and type(args[-1]) in (list, tuple):
            src = args[-1]
            rc0 = sys.getrefcount(src)
        ext_ = name in ("extend", "iadd")
        if ext_:
            lst = self.slots[op[1]]
            rec["len0"] = len(lst)
        stack.append(ctx)
        res = None
        try:
            try:
                if fault is not None:
                    r = ctl.call(func, args, fault[0], fault[1])
                else:
                    r = ctl.call(func, args, -1, 0)
            finally:
                ctx.quiet = True
                stack.pop()
                if ctl.fired() != f0:
                    rec["alloc_fired"] = True
        except UTYPES as e:
            tag = e.args[0] if e.args else None
            res = ["exc", "U", tag]
            r = None
            if ctx.raised is None:
                # an exception of a nested or foreign callback surfaced here
                res = ["exc", "Ustray", tag]
            e.__traceback__ = None
        except StopIteration as e:
            res = "STOP" if post and post[0] == "next" else ["exc", "StopIteration"]
            r = None
        except SimStop:
            raise
        except BaseException as e:
            res = ["exc", type(e).__name__]
            if isinstance(e, SystemError):
                rec["msg"] = str(e)[:200]
            r = None
            e.__traceback__ = None
            e.__context__ = None
            e.__cause__ = None
        else:
            if post is None:
                Tok.run, o = None, Tok.run
                res = self.NR(r)
                Tok.run = o
            elif post[0] == "self":
                res = "self" if r is post[1] else ["notself", self.NR(r)]
            elif post[0] == "slot":
                old = self.slots[post[1]]
                if type(r) is not (self.TC if name in ("new", "newsize", "drop") else self.T):
                    res = ["badtype", type(r).__name__]
                else:
                    self.slots[post[1]] = r
                    rec["new"] = self.uids[post[1]] = self.nuid
                    self.nuid += 1
            elif post[0] == "iter":
                old = self.iters[post[1]]
                self.iters[post[1]] = r
            elif post[0] == "next":
                res = self.N(r)
            elif post[0] == "bytes":
                res = r.hex()
            elif post[0] == "bad":
                res = "EMPTY" if isinstance(r, self.T) and len(r) == 0 else self.NR(r)
            elif post[0] == "view":
                self.views[post[1]] = r
            elif post[0] == "vread":
                v = post[1]
                res = ["view", v.format, v.itemsize, r]
                if v.ndim != 1 or v.nbytes != v.itemsize * len(r) or v.readonly:
                    res.append(["meta", v.ndim, v.nbytes, v.readonly])
            elif post[0] == "lhint":
                res = "nohint" if r == -77 else r
        if ctx.raised is not None and not (isinstance(res, list) and res[:2] == ["exc", "U"]):
            # the user's exception did not come out
            rec["swallowed"] = ctx.raised[0]
        if ctx.raised is not None:
            rec["uexc"] = ["exc", "U", ctx.raised[0]]
        rec["res"] = res
        if ext_:
            rec["len1"] = len(lst)
            lst = None
        if src is not None and ctl.firedmem() != m0:
            r = None
            if sys.getrefcount(src) == rc0 + 1:
                ctl.decref(src)     # the interpreter's own leak, see shim.cpp
        r = old = args = func = post = src = None
        rec["ret"] = self.ev()
        rec["cbsteps"] = ctx.step
        if not ctl.gilok():
            raise Violation("gil", "interpreter lock state wrong after %s" % name)

    # ---------------------------------------------------------------- clients
    def client(self, i, ops):
        try:
            ctl.enter(i)
            try:
                for op in ops:
                    ctl.yield_(4)
                    self.do(op)
            except BaseException as e:
                if self.violation is None:
                    self.violation = e
        finally:
            self.ctxs.pop(_thread.get_ident(), None)
            ctl.leave()

    def execute(self):
        plan = self.plan
        clients = plan["clients"]
        self.setup()
        Tok.run = self
        ctl.begin(bytes(plan.get("sched", [])), max(1, len(clients)), plan.get("limit", 3_000_000))
        ctl.solo()
        for op in plan.get("init", []):
            self.do(op)
        if len(clients) == 1:
            for op in clients[0]:
                self.do(op)
        elif clients:
            self.solo = False
            for i, ops in enumerate(clients):
                _thread.start_new_thread(self.client, (i, ops))
                ctl.started()
            ctl.go(plan.get("first", 0) % len(clients))
            if self.violation is not None:
                raise self.violation
            ctl.solo()
        for op in plan.get("final", []):
            self.do(op)

    # ---------------------------------------------------------------- oracles
    def records(self):
        """history -> records for the checker (lazy extends expanded into appends)"""
        spec = self.spec
        hist = self.hist
        muts = [(r["inv"], r["ret"], SP.targets(r), r["id"], r) for r in hist if r["op"][0] in SP.MUTATORS]
        out = []
        for r in hist:
            name = r["op"][0]
            t = SP.targets(r)
            ov = False
            if r["ret"] - r["inv"] > 1:
                for a, b, mt, mid, mr in muts:
                    if mid != r["id"] and a < r["ret"] and b > r["inv"] and (t is None or mt is None or t & mt):
                        ov = True
                        break
            r["overlap"] = ov
            if r.get("alloc_fired") and self.kept(r) is not None:
                r["kept"] = self.kept(r)
            if ov and r.get("cbsteps") and (self.kind == "obj" or name == "cmp") and name in ("index", "count", "remove", "contains", "cmp", "repr"):
                r["fuzzy"] = True
            ext_ = name in ("extend", "iadd") and len(r["op"][2]) > 1
            lazy = ext_ and r["op"][2][0] in LAZY
            # a plain list of objects whose conversion runs user code: also one append after another
            step = ext_ and r["op"][2][0] in ("list", "tuple") and any(isinstance(c, list) for c in r["op"][2][1])
            buf = isinstance(r["res"], list) and r["res"] == ["exc", "BufferError"]
            if lazy or step:
                items = r["op"][2][1]
                prod = r.get("prod", []) if lazy else [r["inv"]] * len(items)
                prev = None
                failed = isinstance(r["res"], list) and r["res"][0] == "exc"
                n = 0
                kept = self.kept(r)
                for j, s in enumerate(prod):
                    c = items[j][1] if isinstance(items[j], list) else items[j]
                    if lazy and j == len(prod) - 1 and r.get("uexc") and r["rwhat"] == "index":
                        break       # its conversion failed
                    if spec.bad_elem(c):
                        break
                    if buf and j == len(prod) - 1:
                        break       # the item that could not be stored
                    n += 1
                    rid = "%s.%d" % (r["id"], j)
                    last = j == len(prod) - 1
                    o = {"id": rid, "op": ["append1", r["op"][1], c], "inv": s, "ret": r["ret"], "res": None, "after": prev,
                         "bind": r["bind"]}
                    if failed and (step or r.get("alloc_fired")):
                        if kept is None:
                            o["optional"] = True
                        elif n > kept:
                            break
                    out.append(o)
                    prev = rid
                fin = {"id": r["id"], "op": ["extfin", r["op"][1]], "inv": r["inv"], "ret": r["ret"], "res": r["res"], "after": prev,
                       "bind": r["bind"],
                       "exp": self.lazy_expect(r, items, prod), "alloc_fired": r.get("alloc_fired")}
                out.append(fin)
                continue
            out.append(r)
        return out

    def kept(self, r):
        """how many items a failed extend kept, when nothing else could have changed the list"""
        return r["len1"] - r["len0"] if not r["overlap"] and "len1" in r else None

    def lazy_expect(self, r, items, prod):
        """what a lazy extend must return, given what its iterator produced"""
        if r.get("uexc"):
            return [r["uexc"]]
        for j in range(len(prod)):
            b = self.spec.bad_elem(items[j])
            if b:
                return [["exc", b]] + ([["exc", "MemoryError"], ["exc", "RuntimeError"]] if r.get("alloc_fired") else [])
        exp = ["self" if r["op"][0] == "iadd" else None]
        if len(prod) != len(items):
            exp = []
            hint = r["op"][2][2] if len(r["op"][2]) > 2 else None
            if isinstance(hint, int) and (hint < 0):
                exp.append(["exc", "ValueError"])
            if isinstance(hint, int) and hint > 2 ** 28:
                exp += [["exc", "MemoryError"], ["exc", "RuntimeError"], ["exc", "OverflowError"]]
        else:
            hint = r["op"][2][2] if len(r["op"][2]) > 2 else None
            if isinstance(hint, int) and hint < 0 and not prod:
                exp.append(["exc", "ValueError"])
            if isinstance(hint, int) and hint > 2 ** 28 and not prod:
                exp += [["exc", "MemoryError"], ["exc", "RuntimeError"], ["exc", "OverflowError"]]
        if r.get("alloc_fired"):
            exp += [["exc", "MemoryError"], ["exc", "RuntimeError"]]
        return exp

    def check_history(self):
        model = SP.Model(self.kind, self.tname, self.nkeys)
        model.sub = bool(self.plan.get("sub"))
        self.spec = sp = ChkSpec(model, buffers=self.kind == "int" and self.tname != "IntLinkedList")
        for r in self.hist:
            if r.get("swallowed"):
                raise Violation("swallowed", "%s: the exception %s raised by user code did not come out (got %s)" % (
                    short(r["op"]), r["swallowed"], json.dumps(r["res"])))
            if isinstance(r["res"], list) and r["res"][:2] == ["exc", "SystemError"]:
                raise Violation("systemerror", "%s: SystemError %s" % (short(r["op"]), r.get("msg")))
            if isinstance(r["res"], list) and r["res"][:2] == ["exc", "Ustray"]:
                raise Violation("stray", "%s: an exception that this call did not cause came out: %s" % (short(r["op"]), r["res"]))
        recs = self.records()
        st = SP.init_state(self.nslots, self.NITER, self.NVIEW)
        for i, r in enumerate(recs):
            r.setdefault("after", None)
        try:
            ok, info, work = SP.check(sp, st, recs)
        except SP.Budget:
            self.stats["checker_budget"] = 1
            return None
        self.stats["checker_work"] = work
        if not ok:
            r = info[0]
            exps = []
            raise Violation("history", "no single order of the calls explains the results; first unexplained: %s -> %s (call %s)" % (
                short(r["op"]), json.dumps(r["res"])[:300], r["id"]))
        return info

    def check_refs(self, st):
        """every reference accounted for"""
        if self.kind != "obj":
            return
        live = set(self.uids)
        live.update(i[0] for i in st.iters if i and not i[3])
        live.update(v[0] for v in st.views if v)
        maybe = {i[0] for i in st.iters if i} - live    # an exhausted iterator may let go of its list
        if (live | maybe) - set(self.uids) and any(r["overlap"] for r in self.hist):
            return      # a list nobody can look at any more, after calls with several legal outcomes
        lo, hi = {}, {}
        for o, l in st.objs.items():
            for c in l:
                if c is not None:
                    if o in live:
                        lo[c] = lo.get(c, 0) + 1
                    if o in live or o in maybe:
                        hi[c] = hi.get(c, 0) + 1
        for i in range(len(self.tok)):
            got = sys.getrefcount(self.tok[i]) - 2      # our list + the call argument
            if not lo.get(i, 0) <= got <= hi.get(i, 0):
                raise Violation("refs", "object T%d is stored %d time(s) but %d reference(s) are held" % (i, lo.get(i, 0), got))

    def check_list_refs(self, st):
        for t in range(self.nslots):
            got = sys.getrefcount(self.slots[t]) - 2
            oid = self.uids[t]
            want = sum(1 for i in st.iters if i and i[0] == oid and not i[3])
            wmax = sum(1 for i in st.iters if i and i[0] == oid)
            v = sum(1 for v in st.views if v and v[0] == oid)
            # memoryviews of one list share one managed buffer or hold one each
            if not want <= got <= wmax + v:
                raise Violation("refs", "the list in slot %d has %d extra reference(s), expected %d..%d" % (t, got, want, wmax + v))


class ChkSpec(SP.Spec):
    def apply(self, st, rec):
        if rec["op"][0] == "extfin":
            if rec["res"] == ["exc", "BufferError"]:
                self.bind = rec["bind"]
                return [(rec["res"], st)] if self._guard(st, rec["op"][1]) else []
            if any(SP.match(e, rec["res"]) for e in rec["exp"]):
                return [(rec["res"], st)]
            return []
        out = super().apply(st, rec)
        if rec.get("optional"):
            out = out + [(None, st)]
        return out


def _cast(l):
    with memoryview(l) as m, m.cast("B") as c:
        return c.tobytes()


def short(op):
    return json.dumps(op)[:160]


def _rlist(x):
    return list(reversed(x))


FINAL = [["to_list"], ["list"], ["rlist"], ["len"], ["getslice", [None, None, None]], ["repr"]]


def brief(x):
    """the beginning of a result, for the signature"""
    if isinstance(x, list) and len(x) == 2 and isinstance(x[1], list):
        x = [x[0], x[1][:20]]
    return str(x)[:20]


def final_ops(nslots, short=False):
    out = []
    for t in range(nslots):
        if short:
            out += [["to_list", t], ["len", t]]
            continue
        for f in FINAL:
            out.append([f[0], t] + f[1:])
        out.append(["getitem", t, -1])
        out.append(["getitem", t, 0])
    return out


def run_plan(plan, progress=None):
    """-> outcome dict"""
    gc.disable()
    ctl.cpu(plan.get("cpu", 0))
    out = {"ok": True}
    live0 = ctl.live()
    ctl.track(1)
    run = Run(plan)
    run.progress = progress
    sysx = sys.getswitchinterval()
    plan.setdefault("final", final_ops(plan.get("slots", 2), plan.get("brief")))
    try:
        none0 = sys.getrefcount(None)
        run.execute()
        end = ctl.end()
        Tok.run = None
        run.ctxs.clear()
        st = run.check_history()
        run.end = end
        if st is not None and plan.get("refs", True):
            run.check_refs(st)
            run.check_list_refs(st)
        if sys.getrefcount(None) != none0:
            raise Violation("refs", "the reference count of None changed from %d to %d" % (none0, sys.getrefcount(None)))
    except Violation as e:
        out = {"ok": False, "cls": e.cls, "detail": e.detail}
        try:
            end = ctl.end()
        except Exception:
            end = {}
    Tok.run = None
    log = [[r["id"], r["tid"], r["parent"], r["op"], r["inv"], r["ret"], r["res"]] for r in run.hist]
    h = hashlib.sha256(json.dumps([log, end.get("loghash"), end.get("cpos")], default=str).encode()).hexdigest()[:24]
    out["hash"] = h
    out["inter"] = "%x" % end.get("loghash", 0)
    out["ops"] = len(run.hist)
    out["end"] = end
    out["stats"] = run.stats
    out["sig"] = hashlib.sha256(json.dumps([[r["op"][0], r["parent"] is not None, brief(r["res"]), r["tid"]] for r in run.hist]).encode()).hexdigest()[:16]
    oks = out["ok"]
    if plan.get("keeplog"):
        out["log"] = log
    del log
    none0 = None        # 2**32-1: an int made by this function, not by an operation
    stats = run.stats
    if oks:
        # drop everything: nothing may stay alive
        wr = [weakref.ref(t) for t in run.tok]
        Tok.run = None
        run.hist.clear()
        run.spec = st = None
        run.iters = run.views = None
        toks = run.tok
        run.slots = None
        run.tok = None
        for i in range(len(toks)):
            rc = sys.getrefcount(toks[i]) - 2
            if rc != 0:
                out.update(ok=False, cls="leak", detail="T%d still has %d reference(s) after every list was dropped" % (i, rc))
                break
        del toks
        run = None
        if out["ok"]:
            own = set(end.values()) | set(stats.values())       # the harness's own counters
            ll = leaked_longs(plan, own)
            if ll:
                gc.collect()
                ll = leaked_longs(plan, own)
            if ll:
                out.update(ok=False, cls="leak", detail="int objects created by an operation are never released: %r" % ll[:6])
        if out["ok"]:
            live1 = ctl.live()
            if live1[0] != live0[0]:
                gc.collect()
                live1 = ctl.live()
            if live1[0] != live0[0]:
                out.update(ok=False, cls="leak", detail="%d native block(s) (%d bytes) still allocated after every list was dropped" % (
                    live1[0] - live0[0], live1[1] - live0[1]))
    ctl.track(0)
    return out


def leaked_longs(plan, own=()):
    if not plan.get("longs", True):
        return []
    pool = plan_ints(plan)
    return [v for v in ctl.longs() if (v > 100000 or v < -100000) and abs(v) <= 2 ** 40 and v in pool and v not in own]


def plan_ints(plan):
    p = plan.get("_ints")
    if p is None:
        p = set()

        def walk(x):
            if isinstance(x, list):
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
            elif isinstance(x, int) and not isinstance(x, bool):
                p.add(x)
        for k in ("init", "clients"):
            walk(plan.get(k))
        plan["_ints"] = p
    return p
