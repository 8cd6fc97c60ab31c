"""Wrong calls: missing and surplus arguments, wrong types, absurd numbers.

TABLE[kind] = f(list, element) -> (callable, args, kwargs). The oracle (spec.o_badcall): an
ordinary exception, or for the kinds in VALUES one of the listed harmless results; never a
changed list, never SystemError, never a crash."""
import operator as o


class NI:
    pass


B = 2 ** 70
B62 = 2 ** 62


def meth(name, *a, **kw):
    return lambda l, e: (getattr(l, name), a, kw)


def methe(name, *a):
    """E stands for a stored-type element"""
    return lambda l, e: (getattr(l, name), tuple(e if x is E else x for x in a), {})


def opr(f, *a):
    return lambda l, e: (f, (l,) + tuple(e if x is E else x for x in a), {})


def typ(*a, **kw):
    return lambda l, e: (type(l), a, kw)


def frange(*a):
    return lambda l, e: (type(l).from_range, a, {})


E = NI()
TABLE = {
    "append0": meth("append"), "append2": methe("append", E, E), "appendkw": meth("append", x=1),
    "extend0": meth("extend"), "extend5": meth("extend", 5), "extendN": meth("extend", None), "extend2": meth("extend", [], []),
    "insert1": meth("insert", 0), "insert3": methe("insert", 0, E, E), "inserts": methe("insert", "x", E), "insertN": methe("insert", None, E),
    "insertf": methe("insert", 1.5, E), "insert70": methe("insert", B, E), "insertm70": methe("insert", -B, E),
    "pops": meth("pop", "x"), "popN": meth("pop", None), "pop2": meth("pop", 0, 1), "pop70": meth("pop", B), "popm70": meth("pop", -B),
    "popf": meth("pop", 1.5),
    "remove0": meth("remove"), "remove2": methe("remove", E, E), "index0": meth("index"), "index5": methe("index", E, 0, 1, 2),
    "indexs": methe("index", E, "x"), "indexN": methe("index", E, 0, None), "index70": methe("index", E, B), "indexm70": methe("index", E, -B, B),
    "count0": meth("count"), "count2": methe("count", E, E),
    "gets": opr(o.getitem, "x"), "getN": opr(o.getitem, None), "getf": opr(o.getitem, 1.5), "get70": opr(o.getitem, B),
    "getm70": opr(o.getitem, -B), "gett": opr(o.getitem, (0, 1)), "getni": opr(o.getitem, NI()),
    "sets": opr(o.setitem, "x", E), "setN": opr(o.setitem, None, E), "set70": opr(o.setitem, B, E), "setf": opr(o.setitem, 0.0, E),
    "sett": opr(o.setitem, (0, 1), E),
    "setsl5": opr(o.setitem, slice(0, 2), 5), "setslN": opr(o.setitem, slice(0, 2), None), "setsls": opr(o.setitem, slice("x", 2), []),
    "setsl2": opr(o.setitem, slice(0, 4, 2), []), "setsl0": opr(o.setitem, slice(0, 4, 0), []), "setslf": opr(o.setitem, slice(None, 1.5), []),
    "dels": opr(o.delitem, "x"), "delN": opr(o.delitem, None), "del70": opr(o.delitem, B), "delm70": opr(o.delitem, -B),
    "delt": opr(o.delitem, (0, 1)), "delsls": opr(o.delitem, slice("x", None)), "delsl2": opr(o.delitem, slice(0, 4, 2)),
    "delsl0": opr(o.delitem, slice(0, 4, 0)),
    "getsls": opr(o.getitem, slice("a", None)), "getsl0": opr(o.getitem, slice(None, None, 0)), "getslf": opr(o.getitem, slice(None, 1.5)),
    "muls": opr(o.mul, "x"), "mulf": opr(o.mul, 1.5), "mull": opr(o.mul, [1]), "mulN": opr(o.mul, None), "mul70": opr(o.mul, B),
    "mulm70": opr(o.mul, -B), "mul62": opr(o.mul, B62), "mulself": lambda l, e: (o.mul, (l, l), {}),
    "imuls": opr(o.imul, "x"), "imulf": opr(o.imul, 1.5), "imul70": opr(o.imul, B), "imul62": opr(o.imul, B62), "imulN": opr(o.imul, None),
    "rmuls": lambda l, e: (o.mul, ("x", l), {}), "rmul62": lambda l, e: (o.mul, (B62, l), {}),
    "add5": opr(o.add, 5), "addN": opr(o.add, None), "iadd5": opr(o.iadd, 5), "iaddN": opr(o.iadd, None),
    "radd5": lambda l, e: (o.add, (5, l), {}), "sub": lambda l, e: (o.sub, (l, l), {}),
    "sortfoo": meth("sort", foo=1), "sort3": meth("sort", None, False, 1), "sortrevs": meth("sort", reverse="x"), "sortkey5": meth("sort", key=5),
    "rev1": meth("reverse", 1), "clear1": meth("clear", 1), "copy1": meth("copy", 1), "tolist1": meth("to_list", 1),
    "resize0": meth("resize"), "resizes": meth("resize", "x"), "resizeN": meth("resize", None), "resize70": meth("resize", B),
    "resizem1": meth("resize", -1), "resizef": meth("resize", 1.5), "resize62": meth("resize", B62), "resize2": meth("resize", 1, 2),
    "fr0": frange(), "frs": frange("x"), "frN": frange(0, None), "fr4": frange(0, 1, 2, 3), "frf": frange(1.5), "fr70": frange(B),
    "frz": frange(0, 5, 0), "fr62": frange(B62),
    "T5f": typ(5.5), "Tbogus": typ(bogus=1), "T3": typ([], 5, 6), "TN": typ(None), "Ts": typ([], "x"), "T62": typ([], B62), "T70": typ([], B),
    "init5f": meth("__init__", 5.5), "initbogus": meth("__init__", bogus=1), "init3": meth("__init__", [], 5, 6), "inits": meth("__init__", [], "x"),
    "eq5": opr(o.eq, 5), "ne5": opr(o.ne, 5), "eqN": opr(o.eq, None), "neni": opr(o.ne, NI()), "lt5": opr(o.lt, 5), "geN": opr(o.ge, None),
    "ltni": opr(o.lt, NI()), "eqset": opr(o.eq, {1, 2}), "eqdict": opr(o.eq, {1: 2}),
    "inN": opr(o.contains, None), "inni": opr(o.contains, NI()), "in70": opr(o.contains, B), "ins": opr(o.contains, "x"),
    "hash": opr(hash), "call": lambda l, e: (l, (), {}), "attr": lambda l, e: (getattr, (l, "nosuch"), {}),
    "setattr": lambda l, e: (setattr, (l, "nosuch", 1), {}), "delattr": lambda l, e: (delattr, (l, "append"), {}),
    "next": opr(next), "int": opr(int), "neg": opr(o.neg), "fmt": lambda l, e: (format, (l, "x"), {}), "index": opr(o.index),
    "newN": lambda l, e: (type(l).__new__, (), {}), "new5": lambda l, e: (type(l).__new__, (5,), {}), "newint": lambda l, e: (type(l).__new__, (int,), {}),
    "unbound": lambda l, e: (type(l).append, ([], 1), {}), "unboundi": lambda l, e: (type(l).__init__, ([], []), {}),
    "unbounds": lambda l, e: (type(l).__setitem__, ([1], 0, 1), {}), "unboundl": lambda l, e: (type(l).__len__, (5,), {}),
}
# harmless answers besides an exception
VALUES = {"eq5": [False], "ne5": [True], "eqN": [False], "neni": [True], "lt5": [False, True], "geN": [False, True], "ltni": [False, True],
          "eqset": [False], "eqdict": [False], "inN": [True, False], "inni": [False], "in70": [False], "ins": [False], "sortkey5": [None],
          "mul62": ["EMPTY"], "imul62": ["EMPTY"], "rmul62": ["EMPTY"], "mulm70": ["EMPTY"],
          "indexm70": ["INT"], "index70": ["INT"], "insertm70": [], "sortrevs": [], "setattr": [None], "T62": ["EMPTY"]}
KINDS = sorted(TABLE)
EXC = ("TypeError", "ValueError", "IndexError", "OverflowError", "NotImplementedError", "AttributeError", "MemoryError", "BufferError",
       "RuntimeError")


def build(kind, l, e):
    try:
        f, a, kw = TABLE[kind](l, e)
    except AttributeError:
        return (lambda: (_ for _ in ()).throw(AttributeError(kind))), ()
    if kw:
        import functools
        f = functools.partial(f, **kw)
    return f, a
