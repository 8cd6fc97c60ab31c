"""Sequential reference model (a Python list) and the linearizability search.

A state is (objs, iters, views):
  objs  : identity of a list object -> tuple of element codes
  iters : tuple of None | (oid, pos, rev, done)        -- Python list iterator semantics
  views : tuple of None | (oid)                        -- live buffer views
Which object a call works on is fixed when the call starts (rec["bind"]).
Element codes: ints for the int lists; for the object lists the token number (a token's
equality/ordering key is TOKKEY[n]); None stands for None.
"""

import badcalls as BC

INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1
LL_MIN, LL_MAX = -2 ** 63, 2 ** 63 - 1


class M:
    """model element with list equality semantics of the token"""
    __slots__ = ("n", "k")

    def __init__(self, n, k):
        self.n = n
        self.k = k

    def __eq__(self, o):
        return isinstance(o, M) and self.k == o.k

    def __lt__(self, o):
        if not isinstance(o, M):
            return NotImplemented
        return self.k < o.k

    def __gt__(self, o):
        if not isinstance(o, M):
            return NotImplemented
        return self.k > o.k

    def __le__(self, o):
        if not isinstance(o, M):
            return NotImplemented
        return self.k <= o.k

    def __ge__(self, o):
        if not isinstance(o, M):
            return NotImplemented
        return self.k >= o.k

    __hash__ = None


def tokkey(n, nkeys):
    return n % nkeys


class Model:
    def __init__(self, kind, tname, nkeys=4):
        self.kind = kind            # "int" | "obj"
        self.tname = tname
        self.nkeys = nkeys
        self.m = {}
        self.sub = False

    def elem(self, c):
        if self.kind == "int" or c is None:
            return c
        e = self.m.get(c)
        if e is None:
            e = self.m[c] = M(c, tokkey(c, self.nkeys))
        return e

    def code(self, e):
        return e.n if isinstance(e, M) else e

    def dec(self, codes):
        return list(codes) if self.kind == "int" else [self.elem(c) for c in codes]

    def enc(self, elems):
        return tuple(elems) if self.kind == "int" else tuple(self.code(e) for e in elems)


class State:
    __slots__ = ("objs", "iters", "views")

    def __init__(self, objs, iters, views):
        self.objs = objs        # dict oid -> tuple contents
        self.iters = iters
        self.views = views

    def key(self):
        return (tuple(sorted(self.objs.items())), self.iters, self.views)

    def clone(self):
        return State(dict(self.objs), self.iters, self.views)


def init_state(nslots, niters, nviews):
    return State({i: () for i in range(nslots)}, (None,) * niters, (None,) * nviews)


MUTATORS = {"append", "extend", "iadd", "imul", "insert", "pop", "popi", "remove", "setitem", "delitem", "setslice", "delslice",
            "sort", "reverse", "clear", "resize", "new", "newsize", "from_range", "reinit", "vwrite", "pack", "drop", "append1", "copyto"}
RESIZERS = {"append", "extend", "iadd", "imul", "insert", "pop", "popi", "remove", "delitem", "setslice", "delslice", "clear",
            "resize", "reinit", "append1"}


def exc(name):
    return ["exc", name]


class Fail(Exception):
    pass


def nm(e):
    return type(e).__name__


class Spec:
    """apply(state, rec) -> list of (result, state')"""

    def __init__(self, model, buffers=False):
        self.M = model
        self.buffers = buffers
        self.lo, self.hi = (INT_MIN, INT_MAX) if model.tname in ("IntArrayList", "IntLinkedList") else (LL_MIN, LL_MAX)

    # -- helpers
    def src_items(self, st, src):
        """contents (codes) of an iterable argument, or None if it is not iterable"""
        k = src[0]
        if k in ("list", "tuple", "other", "deque", "seq", "gen", "iter", "lsub", "tsub"):
            return [c[1] if isinstance(c, list) else c for c in src[1]]
        if k in ("lst", "itr"):
            return list(st.objs[self.bind[src[1]]])
        if k == "ritr":
            return list(st.objs[self.bind[src[1]]])[::-1]
        if k == "range":
            return list(range(*src[1]))
        if k == "dict":
            return list(dict.fromkeys(src[1]))
        return None

    def bad_elem(self, c):
        if self.M.kind != "int":
            return None
        if c == "BAD" or isinstance(c, (str, float)) or c is None:
            return "TypeError"
        return None

    def apply(self, st, rec):
        op = rec["op"]
        name = op[0]
        # which list object each slot held when the call started, and the one it made
        self.bind = rec["bind"]
        self.newid = rec.get("new")
        f = getattr(self, "o_" + name)
        out = []
        fired = rec.get("uexc")
        if fired is not None:
            # user code raised inside this call: exactly that exception, nothing changed
            out.append((fired, st))
            return out
        res = f(st, rec, *op[1:])
        if isinstance(res, tuple):
            res = [res]
        for a in op[2:]:
            # an absurd length hint may be taken at its word
            if isinstance(a, list) and len(a) > 2 and a[0] == "iter" and isinstance(a[2], int):
                if a[2] < 0:
                    res = list(res) + [(exc("ValueError"), st)]
                elif a[2] > 2 ** 27:
                    res = list(res) + [(exc("MemoryError"), st), (exc("RuntimeError"), st), (exc("OverflowError"), st)]
        if rec.get("alloc_fired"):
            res = list(res)
            if rec.get("kept") in (None, 0):
                for e in ("MemoryError", "RuntimeError"):
                    res.append((exc(e), st))
            if name in ("extend", "iadd") and not self._guard(st, op[1]):
                # documented: an extend that fails keeps a prefix of the new items
                good = []
                for c in self.src_items(st, op[2]) or ():
                    if self.bad_elem(c):
                        break
                    good.append(c)
                base = st.objs[self.bind[op[1]]]
                for k in range(1, len(good) + 1):
                    if rec.get("kept") not in (None, k):
                        continue
                    s2 = st.clone()
                    s2.objs[self.bind[op[1]]] = base + tuple(good[:k])
                    for e in ("MemoryError", "RuntimeError"):
                        res.append((exc(e), s2))
        return res

    def _list(self, st, t):
        return self.M.dec(st.objs[self.bind[t]])

    def _set(self, st, t, l):
        s = st.clone()
        s.objs[self.bind[t]] = self.M.enc(l)
        return s

    def _guard(self, st, t):
        """a resizing operation under a live view"""
        if self.buffers:
            oid = self.bind[t]
            if any(v and v[0] == oid for v in st.views):
                return True
        return False

    def _mut(self, st, t, fn, resize=None):
        """run fn on a real list; returns (result, state). If a view is live and the size
        would change: BufferError (an operation that leaves the size alone may do either)."""
        l = self._list(st, t)
        n0 = len(l)
        try:
            r = fn(l)
        except (IndexError, ValueError, TypeError, OverflowError, MemoryError) as e:
            return [(exc(nm(e)), st)]
        if self._guard(st, t):
            if len(l) != n0:
                return [(exc("BufferError"), st)]
            if resize:
                return [(exc("BufferError"), st), (r, self._set(st, t, l))]
        return [(r, self._set(st, t, l))]

    def V(self, c):
        """value argument -> (element, excname)"""
        if isinstance(c, list) and c and c[0] == "idx":
            return c[1], None
        b = self.bad_elem(c)
        if b:
            return None, b
        return self.M.elem(c), None

    def I(self, i):
        return i[1] if isinstance(i, list) else i

    def R(self, e):
        """result normalisation of one element"""
        return ["t", e.n] if isinstance(e, M) else e

    def RL(self, tn, elems):
        return [tn, [self.R(e) for e in elems]]

    # -- mutators
    def o_append(self, st, rec, t, v):
        e, b = self.V(v)
        if b:
            return exc(b), st
        return self._mut(st, t, lambda l: l.append(e), True)

    def o_append1(self, st, rec, t, c):
        """one item of a lazy extend (pseudo operation)"""
        e = self.M.elem(c)
        if self._guard(st, t):
            return []
        l = self._list(st, t)
        l.append(e)
        return None, self._set(st, t, l)

    def _ext(self, st, t, src, rname):
        items = self.src_items(st, src)
        if items is None:
            return [(exc("TypeError"), st)]
        good, bad = [], None
        for c in items:
            if self.bad_elem(c):
                bad = self.bad_elem(c)
                break
            good.append(self.M.elem(c))
        if bad:
            # a plain list argument: like the items produced before the bad one, or nothing
            alts = []
            for k in (len(good), 0):
                l = self._list(st, t)
                l.extend(good[:k])
                if self._guard(st, t) and k:
                    continue
                alts.append((exc(bad), self._set(st, t, l)))
            if self._guard(st, t):
                alts.append((exc("BufferError"), st))
            return alts
        return self._mut(st, t, lambda l: (l.extend(good), rname)[1], True)

    def o_extend(self, st, rec, t, src):
        return self._ext(st, t, src, None)

    def o_iadd(self, st, rec, t, src):
        if src[0] == "bad":
            return [(exc("TypeError"), st)]
        return self._ext(st, t, src, "self")

    def o_imul(self, st, rec, t, n):
        n = self.I(n)

        def f(l):
            l *= n
            return "self"
        if not isinstance(n, int):
            return [(exc("TypeError"), st)]
        return self._mut(st, t, f, True)

    def o_insert(self, st, rec, t, i, v):
        i = self.I(i)
        e, b = self.V(v)
        if b:
            return exc(b), st
        if not isinstance(i, int):
            return exc("TypeError"), st
        return self._mut(st, t, lambda l: l.insert(i, e), True)

    def o_pop(self, st, rec, t):
        return self._mut(st, t, lambda l: self.R(l.pop()), True)

    def o_popi(self, st, rec, t, i):
        i = self.I(i)
        return self._mut(st, t, lambda l: self.R(l.pop(i)), True)

    def o_remove(self, st, rec, t, v):
        e, b = self.V(v)
        if rec.get("fuzzy"):
            l = self._list(st, t)
            alts = [(exc("ValueError"), st), (exc("IndexError"), st)]
            for i in range(len(l)):
                alts.append((None, self._set(st, t, l[:i] + l[i + 1:])))
            alts.append((None, st))
            return alts
        if b:
            return [(exc("TypeError"), st), (exc("ValueError"), st)]
        return self._mut(st, t, lambda l: l.remove(e), True)

    def o_setitem(self, st, rec, t, i, v):
        i = self.I(i)
        e, b = self.V(v)
        l = self._list(st, t)
        if not isinstance(i, int):
            return exc("TypeError"), st
        if b:
            alts = [(exc(b), st)]
            if not -len(l) <= i < len(l):
                alts.append((exc("IndexError"), st))
            return alts
        return self._mut(st, t, lambda l: l.__setitem__(i, e))

    def o_delitem(self, st, rec, t, i):
        i = self.I(i)
        if not isinstance(i, int):
            return exc("TypeError"), st
        return self._mut(st, t, lambda l: l.__delitem__(i), True)

    def o_setslice(self, st, rec, t, sl, src):
        items = self.src_items(st, src)
        if items is None:
            return exc("TypeError"), st
        for c in items:
            if self.bad_elem(c):
                alts = [(exc(self.bad_elem(c)), st)]
                if self._guard(st, t):
                    alts.append((exc("BufferError"), st))
                return alts
        el = [self.M.elem(c) for c in items]
        s = slice(*[self.I(x) for x in sl])
        return self._mut(st, t, lambda l: l.__setitem__(s, el), True)

    def o_delslice(self, st, rec, t, sl):
        s = slice(*[self.I(x) for x in sl])
        return self._mut(st, t, lambda l: l.__delitem__(s), True)

    def o_sort(self, st, rec, t, key, rev):
        l = self._list(st, t)
        out = []
        if rec.get("overlap"):
            if key is not None or self.M.kind == "obj":
                out.append((exc("ValueError"), st))
        kf = self.keyfn(key)
        try:
            l.sort(key=kf, reverse=bool(rev))
        except TypeError:
            return out + [(exc("TypeError"), st)]
        out.append((None, self._set(st, t, l)))
        return out

    def keyfn(self, key):
        if key is None:
            return None
        if self.M.kind == "int":
            return {"neg": lambda x: -x, "mod": lambda x: x % 3, "abs": abs, "const": lambda x: 0, "str": str,
                    "flt": lambda x: x / 2.0, "tup": lambda x: (x % 2, x), "big": lambda x: x * 10 ** 20,
                    "mix": lambda x: x if x % 2 else "s"}[key]
        g = lambda e: e.k if isinstance(e, M) else -1
        n = lambda e: e.n if isinstance(e, M) else -1
        return {"neg": lambda x: -n(x), "mod": lambda x: n(x) % 3, "abs": n, "const": lambda x: 0, "str": lambda x: str(n(x)),
                "flt": lambda x: g(x) / 2.0, "tup": lambda x: (g(x), n(x)), "big": lambda x: n(x) * 10 ** 20,
                "mix": lambda x: n(x) if n(x) % 2 else "s"}[key]

    def o_reverse(self, st, rec, t):
        return self._mut(st, t, lambda l: l.reverse())

    def o_clear(self, st, rec, t):
        return self._mut(st, t, lambda l: l.clear(), True)

    def o_resize(self, st, rec, t, n):
        n = self.I(n)
        if n < 0:
            return [(exc("ValueError"), st), (exc("OverflowError"), st), (exc("RuntimeError"), st), (exc("MemoryError"), st)]

        def f(l):
            if n <= len(l):
                del l[n:]
            else:
                l.extend([0 if self.M.kind == "int" else None] * (n - len(l)))
        return self._mut(st, t, f, True)

    def _fresh(self, st, t, elems):
        s = st.clone()
        if self.newid is not None:
            s.objs[self.newid] = self.M.enc(elems)
        return s

    def o_new(self, st, rec, t, src, size=None, kw=None):
        items = self.src_items(st, src)
        if items is None:
            return exc("TypeError"), st
        for c in items:
            if self.bad_elem(c):
                return exc(self.bad_elem(c)), st
        return None, self._fresh(st, t, [self.M.elem(c) for c in items])

    def o_newsize(self, st, rec, t, n):
        return None, self._fresh(st, t, [])

    def o_drop(self, st, rec, t, raw=0):
        return None, self._fresh(st, t, [])

    def o_reinit(self, st, rec, t, src):
        items = self.src_items(st, src)
        if items is None:
            return [(exc("TypeError"), st)]
        for c in items:
            if self.bad_elem(c):
                return [(exc(self.bad_elem(c)), st)]
        el = [self.M.elem(c) for c in items]

        def f(l):
            l[:] = el
        return self._mut(st, t, f, True)

    def o_from_range(self, st, rec, t, a):
        a = [self.I(x) for x in a]
        if any(not -2 ** 63 <= x < 2 ** 63 for x in a):
            return exc("OverflowError"), st
        try:
            r = list(range(*a))
        except ValueError:
            return exc("ValueError"), st
        except TypeError:
            return exc("TypeError"), st
        return None, self._fresh(st, t, r)

    def o_copyto(self, st, rec, t, u):
        """slot u := slot t .copy()"""
        return None, self._fresh(st, u, self._list(st, t))

    # -- readers
    def o_len(self, st, rec, t):
        return len(self._list(st, t)), st

    def o_nest(self, st, rec, t, types, n, every, how):
        return (n + every - 1) // every, st

    def o_to_list(self, st, rec, t):
        return self.RL("list", self._list(st, t)), st

    def o_copy(self, st, rec, t):
        return self.RL(self.M.tname, self._list(st, t)), st

    def o_list(self, st, rec, t):
        return self.RL("list", self._list(st, t)), st

    def o_rlist(self, st, rec, t):
        return self.RL("list", self._list(st, t)[::-1]), st

    def o_add(self, st, rec, t, src):
        items = self.src_items(st, src)
        if items is None:
            return exc("TypeError"), st
        for c in items:
            if self.bad_elem(c):
                return exc(self.bad_elem(c)), st
        r = self._list(st, t) + [self.M.elem(c) for c in items]
        if self.M.sub and src[0] == "lst":      # the types say they are final: + does not know subclasses
            return [(self.RL(self.M.tname, r), st), (exc("TypeError"), st)]
        return [(self.RL(self.M.tname, r), st), (self.RL("list", r), st)]

    def o_mul(self, st, rec, t, n):
        n = self.I(n)
        return self.RL(self.M.tname, self._list(st, t) * n), st

    o_rmul = o_mul

    def o_index(self, st, rec, t, v, *a):
        if rec.get("fuzzy"):
            return [("ANYINT", st), (exc("ValueError"), st)]
        e, b = self.V(v)
        if b:
            return [(exc("TypeError"), st), (exc("ValueError"), st)]
        try:
            return self._list(st, t).index(e, *[self.I(x) for x in a]), st
        except ValueError:
            return exc("ValueError"), st

    def o_count(self, st, rec, t, v):
        if rec.get("fuzzy"):
            return [("ANYINT", st)]
        e, b = self.V(v)
        if b:
            return [(exc("TypeError"), st), (0, st)]
        return self._list(st, t).count(e), st

    def o_contains(self, st, rec, t, v):
        if rec.get("fuzzy"):
            return [(True, st), (False, st)]
        e, b = self.V(v)
        if b:
            return [(False, st), (exc("TypeError"), st)]
        if isinstance(v, list):
            return [(e in self._list(st, t), st), (False, st)]      # not an int: may just be absent
        return e in self._list(st, t), st

    def o_getitem(self, st, rec, t, i):
        i = self.I(i)
        if not isinstance(i, int):
            return exc("TypeError"), st
        try:
            return self.R(self._list(st, t)[i]), st
        except IndexError:
            return exc("IndexError"), st

    def o_getslice(self, st, rec, t, sl):
        try:
            return self.RL("list", self._list(st, t)[slice(*[self.I(x) for x in sl])]), st
        except ValueError:
            return exc("ValueError"), st

    def o_cmp(self, st, rec, t, o, src):
        a = self._list(st, t)
        if rec.get("fuzzy"):
            return [(True, st), (False, st), (exc("TypeError"), st), (exc("IndexError"), st)]
        items = self.src_items(st, src)
        b = [self.M.elem(c) for c in items]
        import operator
        try:
            return getattr(operator, o)(a, b), st
        except TypeError:
            return exc("TypeError"), st

    def rp(self, e):
        return "T%d" % e.n if isinstance(e, M) else repr(e)

    def o_repr(self, st, rec, t):
        if rec.get("fuzzy"):
            return [("ANYSTR", st)]
        r = "[" + ", ".join(self.rp(e) for e in self._list(st, t)) + "]"
        if self.M.kind == "obj" and rec.get("parent") is not None:
            return [(r, st), ("[...]", st)]     # from inside its own repr
        return r, st

    def o_badcall(self, st, rec, t, kind):
        """a wrong call: see badcalls"""
        n = len(st.objs[self.bind[t]])
        out = [("BADEXC", st)]
        for v in BC.VALUES.get(kind, ()):
            if v == "INT":
                out.append(("ANYINT", st))
            elif v == "EMPTY":
                if n == 0 or kind in ("T62", "mulm70"):
                    out.append((v, st))
            elif kind == "sortkey5":
                if n == 0:
                    out.append((v, st))
            elif kind == "inN" and v != (None in st.objs[self.bind[t]]):
                pass
            else:
                out.append((v, st))
        if kind == "sortrevs":      # any object is a truth value
            out += [(r, s) for r, s in self.o_sort(st, rec, t, None, True) if r is None]
        if kind == "insertm70":
            e = self.M.elem(0)
            out += [(r, s) for r, s in self._mut(st, t, lambda l: l.insert(0, e), True) if r is None]
        if kind == "insert70":
            e = self.M.elem(0)
            out += [(r, s) for r, s in self._mut(st, t, lambda l: l.append(e), True) if r is None]
        return out

    # -- iterators (Python list iterator semantics)
    def o_iter(self, st, rec, t, k, rev):
        s = st.clone()
        oid = self.bind[t]
        n = len(s.objs[oid])
        s.iters = s.iters[:k] + ((oid, n - 1 if rev else 0, rev, False),) + s.iters[k + 1:]
        return None, s

    def o_next(self, st, rec, k):
        it = st.iters[k]
        if it is None:
            return "none", st
        oid, pos, rev, done = it
        l = st.objs[oid]
        if done:
            return "STOP", st
        s = st.clone()
        if 0 <= pos < len(l):
            s.iters = s.iters[:k] + ((oid, pos - 1 if rev else pos + 1, rev, False),) + s.iters[k + 1:]
            r = self.R(self.M.elem(l[pos]))
        else:
            s.iters = s.iters[:k] + ((oid, pos, rev, True),) + s.iters[k + 1:]
            r = "STOP"
        out = [(r, s)]
        if rec.get("alloc_fired"):
            out += [(exc("MemoryError"), s), (exc("RuntimeError"), s)]
        return out

    def o_drain(self, st, rec, k):
        """list(iterator)"""
        it = st.iters[k]
        if it is None:
            return "none", st
        out = []
        cur = st
        while True:
            r = self.o_next(cur, {}, k)
            if isinstance(r, list):
                r = r[0]
            cur = r[1]
            if r[0] == "STOP":
                break
            out.append(r[0])
        res = [(["list", out], cur)]
        if rec.get("alloc_fired"):
            # stopped anywhere on the way
            c = st
            for _ in range(len(out) + 1):
                c = self.o_next(c, {}, k)
                c = (c[0] if isinstance(c, list) else c)[1]
                res += [(exc("MemoryError"), c), (exc("RuntimeError"), c)]
        return res

    def o_lhint(self, st, rec, k):
        it = st.iters[k]
        if it is None:
            return "none", st
        oid, pos, rev, done = it
        n = len(st.objs[oid])
        if done:
            h = 0
        elif rev:
            h = pos + 1 if pos + 1 <= n else 0
        else:
            h = max(n - pos, 0)
        return [(h, st), ("nohint", st)]

    def o_itdrop(self, st, rec, k):
        s = st.clone()
        s.iters = s.iters[:k] + (None,) + s.iters[k + 1:]
        return None, s

    # -- buffer views
    def o_view(self, st, rec, t, k):
        if st.views[k] is not None:
            return "busy", st
        s = st.clone()
        oid = self.bind[t]
        n = len(s.objs[oid])
        s.views = s.views[:k] + ((oid, 0, n),) + s.views[k + 1:]
        return None, s

    def o_subview(self, st, rec, k, j, a, b):
        """views[j] := views[k][a:b]"""
        v = st.views[k]
        if v is None or st.views[j] is not None:
            return "none", st
        oid, lo, n = v
        x, y, _ = slice(a, b).indices(n)
        s = st.clone()
        s.views = s.views[:j] + ((oid, lo + x, max(y - x, 0)),) + s.views[j + 1:]
        return None, s

    def o_bytes(self, st, rec, t, how):
        import struct
        l = self._list(st, t)
        return struct.pack("%d%s" % (len(l), "i" if self.M.tname == "IntArrayList" else "q"), *l).hex(), st

    def o_pack(self, st, rec, t, i, x):
        """struct.pack_into at item i: one more writer through the buffer protocol"""
        l = self._list(st, t)
        n = len(l)
        if not -n <= i < n:
            return exc("error"), st
        l[i] = x
        return None, self._set(st, t, l)

    def o_vread(self, st, rec, k):
        v = st.views[k]
        if v is None:
            return "none", st
        oid, lo, n = v
        fmt, isz = ("i", 4) if self.M.tname == "IntArrayList" else ("q", 8)
        return ["view", fmt, isz, list(st.objs[oid][lo:lo + n])], st

    def o_vwrite(self, st, rec, k, i, x):
        v = st.views[k]
        if v is None:
            return "none", st
        oid, lo, n = v
        if not -n <= i < n:
            return exc("IndexError"), st
        if i < 0:
            i += n
        s = st.clone()
        l = list(s.objs[oid])
        l[lo + i] = x
        s.objs[oid] = tuple(l)
        return None, s

    def o_vrel(self, st, rec, k):
        s = st.clone()
        s.views = s.views[:k] + (None,) + s.views[k + 1:]
        return None, s


def match(expected, got):
    if expected == "ANYINT":
        return isinstance(got, int) and not isinstance(got, bool) and got >= 0
    if expected == "BADEXC":
        return isinstance(got, list) and got[0] == "exc" and got[1] in BC.EXC
    if expected == "ANYSTR":
        return isinstance(got, str)
    return type(expected) == type(got) and expected == got


def targets(rec):
    """identities of the list objects an operation reads or writes"""
    op = rec["op"]
    n = op[0]
    if n in ("next", "drain", "lhint", "itdrop", "subview", "vread", "vwrite", "vrel"):
        return None          # unknown: any
    if n in ("new", "newsize", "drop", "from_range"):
        out = set()
    else:
        out = {rec["bind"][op[1]]}
    for a in op[2:]:
        if isinstance(a, list) and a and a[0] in ("lst", "itr", "ritr"):
            out.add(rec["bind"][a[1]])
    return out


class Budget(Exception):
    pass


def check(spec, st0, recs, limit=60000):
    """recs: list of dict(id, op, inv, ret, res, after=None|id). Returns (ok, info)."""
    n = len(recs)
    if n == 0:
        return True, st0, 0
    idx = {r["id"]: i for i, r in enumerate(recs)}
    order = sorted(range(n), key=lambda i: recs[i]["inv"])
    after = [idx[r["after"]] if r.get("after") is not None and r["after"] in idx else -1 for r in recs]
    full = (1 << n) - 1
    seen = set()
    best = [0, None]
    work = [0]
    import sys
    # iterative DFS
    stack = [(0, st0)]
    while stack:
        done, st = stack.pop()
        if done == full:
            return True, st, work[0]
        k = (done, st.key())
        if k in seen:
            continue
        seen.add(k)
        c = bin(done).count("1")
        if c >= best[0]:
            best = [c, done]
        # earliest return among not-done bounds the candidates
        minret = min(recs[i]["ret"] for i in range(n) if not done >> i & 1)
        cand = []
        for i in order:
            if done >> i & 1:
                continue
            r = recs[i]
            if r["inv"] > minret:
                break
            if after[i] >= 0 and not done >> after[i] & 1:
                continue
            cand.append(i)
        for i in reversed(cand):
            work[0] += 1
            if work[0] > limit:
                raise Budget()
            for res, s2 in spec.apply(st, recs[i]) if True else ():
                if match(res, recs[i]["res"]):
                    stack.append((done | 1 << i, s2))
    done = best[1] or 0
    stuck = [recs[i] for i in order if not done >> i & 1]
    return False, stuck, work[0]
