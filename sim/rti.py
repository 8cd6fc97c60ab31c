"""Executes one plan of module imports with failing memory requests (C17). One process per plan."""
import _imp
import gc
import hashlib
import importlib.machinery
import importlib.util
import json
import sys

import rt
import rtu
from rt import Violation

ctl = None
so = None
NAMES = ["IntArrayList", "IntArrayListIter", "BigIntArrayList", "BigIntArrayListIter", "IntLinkedList", "IntLinkedListIter", "ObjectArrayList",
         "ObjectArrayListIter", "ObjectLinkedList", "ObjectLinkedListIter", "Unsafe", "SIMD", "SIMDLowAVX512", "ASM"]
LISTS = list(rt.KINDS)


def init(path):
    global ctl, so
    so = path
    l = importlib.machinery.ExtensionFileLoader("simctl", path)
    s = importlib.util.spec_from_file_location("simctl", path, loader=l)
    ctl = importlib.util.module_from_spec(s)
    l.exec_module(ctl)
    rt.ctl = ctl
    # everything the runs will use is imported before the fork
    import functools, operator, weakref  # noqa: F401,E401


def spec():
    l = importlib.machinery.ExtensionFileLoader("__pyfastutil", so)
    return importlib.util.spec_from_file_location("__pyfastutil", so, loader=l)


def smoke(ext, name):
    """every basic operation of one type, in the order a first user might need them"""
    if name in ("Unsafe", "ASM", "SIMD"):
        o = getattr(getattr(ext, name), name)()
        with o as x:
            if x is not o:
                raise Violation("contract", "%s.__enter__ gave another object" % name)
        if name == "Unsafe":
            a = o.malloc(16)
            o.set(a, b"0123456789abcdef")
            if o.get(a, 16) != b"0123456789abcdef":
                raise Violation("contract", "Unsafe does not work after the import")
            o.free(a)
        return
    if name == "SIMDLowAVX512":
        m = getattr(ext, name)
        getattr(m, name)()
        return
    if name.endswith("Iter"):
        getattr(ext, name)
        return
    T = getattr(getattr(ext, name), name)
    v = [5, 3, 9, 1, 3]

    def eq(got, want, what):
        if got != want:
            raise Violation("contract", "%s after the import: %s gave %r instead of %r" % (name, what, got, want))
    x = T(v)
    eq(len(x), 5, "len")
    eq(list(iter(x)), v, "iter")
    eq(list(reversed(x)), v[::-1], "reversed")
    x.append(7)
    x.insert(0, 2)
    x.sort()
    eq(x.to_list(), [1, 2, 3, 3, 5, 7, 9], "sort")
    eq(x[1:4].to_list() if hasattr(x[1:4], "to_list") else list(x[1:4]), [2, 3, 3], "slice")
    eq(x == T([1, 2, 3, 3, 5, 7, 9]), True, "==")
    eq(9 in x, True, "in")
    eq(x.index(5), 4, "index")
    eq(repr(x), "[1, 2, 3, 3, 5, 7, 9]", "repr")
    eq(list(x + [1]), [1, 2, 3, 3, 5, 7, 9, 1], "+")
    eq(list(x * 2), [1, 2, 3, 3, 5, 7, 9] * 2, "*")
    x.extend(i for i in (4, 4))
    eq(x.pop(), 4, "pop")
    x.remove(3)
    del x[0]
    x.reverse()
    eq(x.to_list(), [4, 9, 7, 5, 3, 2], "to_list")
    eq(list(x.copy()), [4, 9, 7, 5, 3, 2], "copy")

    class Sub(T):
        pass
    eq(Sub([1]).to_list(), [1], "subclass")
    eq(T.__mro__, (T, object), "mro")
    for b in ("__len__", "__iter__", "__getitem__", "__add__", "__eq__"):
        if not hasattr(T, b):
            raise Violation("contract", "%s after the import has no %s" % (name, b))


class ImportRun:
    def __init__(self):
        self.log = []
        self.stats = {}


def run_plan(plan, progress=None):
    gc.disable()
    out = {"ok": True}
    log = []
    stats = {}
    end = {}
    ops = 0
    try:
        ext = None
        for i, f in enumerate(plan["imports"] + [None]):
            if progress:
                progress(i)
            ctl.begin(b"", 1, 50_000_000)
            ctl.solo()
            f0 = ctl.fired()
            sp = spec()
            a, n = f or (-1, 0)
            try:
                m = ctl.call(_imp.create_dynamic, (sp,), a, n)
                res = "module"
            except Exception as e:
                m = None
                res = type(e).__name__
                msg = str(e)
                e.__traceback__ = None
            fired = ctl.fired() - f0
            end = ctl.end()
            ops += 1
            for k in ("fired", "fired_native", "fired_py", "steps"):
                stats[k] = stats.get(k, 0) + end[k]
            log.append([f, res, fired])
            if not ctl.gilok():
                raise Violation("gil", "interpreter lock state wrong after an import")
            if m is None:
                if res == "SystemError":
                    raise Violation("systemerror", "import %d raised SystemError: %s" % (i, msg))
                if not fired:
                    raise Violation("contract", "import %d raised %s (%s) although no memory request failed%s" % (
                        i, res, msg, " after an earlier import had failed" if i else ""))
                if "__pyfastutil" in sys.modules:
                    raise Violation("contract", "a failed import left a module behind")
                stats["failed_imports"] = stats.get("failed_imports", 0) + 1
                continue
            stats["imports"] = stats.get("imports", 0) + 1
            missing = [x for x in NAMES if not hasattr(m, x)]
            if missing:
                raise Violation("contract", "the import succeeded%s but %s is missing" % (" with a failed memory request" if fired else "", missing))
            ext = m
            break
        rt.ext = rtu_ext = ext
        for n in plan["order"]:
            try:
                smoke(ext, n)
            except Violation:
                raise
            except Exception as e:
                raise Violation("contract", "%s does not work after the import: %r" % (n, e))
            ops += 1
        rt.use(ext)
        o = rt.run_plan(plan["then"])
        if not o["ok"]:
            raise Violation(o["cls"], "after the import: " + o["detail"])
        log.append(o["hash"])
        ops += o["ops"]
    except Violation as e:
        out = {"ok": False, "cls": e.cls, "detail": e.detail}
    out["hash"] = hashlib.sha256(json.dumps(log, default=str).encode()).hexdigest()[:24]
    out["inter"] = hashlib.sha256(json.dumps(log[:-1] if len(log) > 1 else log, default=str).encode()).hexdigest()[:16]
    out["sig"] = hashlib.sha256(json.dumps([plan["imports"], plan["order"][:2]]).encode()).hexdigest()[:16]
    out["ops"] = ops
    out["stats"] = stats
    out["end"] = {}
    return out
