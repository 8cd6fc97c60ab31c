"""Plan generator: one integer seed -> one plan (clients, operations, callback scripts,
faults, schedule). Pure function of (property, seed, tier)."""
import random

import badcalls as BC

INTS = ("IntArrayList", "BigIntArrayList", "IntLinkedList")
OBJS = ("ObjectArrayList", "ObjectLinkedList")

READ = {"len": 2, "to_list": 3, "copy": 2, "list": 2, "rlist": 1, "add": 2, "mul": 1, "rmul": 1, "index": 3, "index3": 2, "count": 2,
        "contains": 2, "getitem": 5, "getslice": 3, "cmp": 4, "repr": 1, "copyto": 1, "badcall": 2}
WRITE = {"append": 6, "extend": 5, "iadd": 4, "imul": 1, "insert": 5, "pop": 3, "popi": 4, "remove": 3, "setitem": 4, "delitem": 3,
         "setslice": 5, "delslice": 3, "sort": 2, "reverse": 2, "clear": 1, "resize": 2, "new": 2, "newsize": 1, "from_range": 2,
         "reinit": 1, "drop": 1}
ITER = {"iter": 5, "next": 20, "drain": 2, "lhint": 2, "itdrop": 1}
VIEW = {"view": 5, "subview": 2, "vread": 6, "vwrite": 4, "vrel": 4, "bytes": 2, "pack": 2}


def mix(*ds, **kw):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    out.update(kw)
    return out


def scale(d, f):
    return {k: v * f for k, v in d.items()}


PROFILES = {
    "C01": dict(types=INTS[:2], w=mix(READ, WRITE, scale(ITER, .15)), do=.35, idx=.25, lazy=.5),
    "C02": dict(types=INTS[2:], w=mix(READ, WRITE, scale(ITER, .15)), do=.35, idx=.25, lazy=.5),
    "C03": dict(types=OBJS[:1], w=mix(READ, WRITE, scale(ITER, .15)), do=.3, idx=.25, lazy=.5, dtok=.15),
    "C04": dict(types=OBJS[1:], w=mix(READ, WRITE, scale(ITER, .15)), do=.3, idx=.25, lazy=.5, dtok=.15),
    "C05": dict(types=INTS + OBJS, w=mix(scale(WRITE, .2), {"sort": 14, "to_list": 3}), do=.15, raise_=.2, fault=.12, big=True, idx=.05,
                lazy=.1),
    "C06": dict(types=INTS + OBJS, w=mix(scale(READ, .3), {"sort": 5, "reverse": 5, "mul": 3, "rmul": 2, "imul": 3, "extend": 3,
                                                           "iadd": 3, "append": 3, "pop": 2, "popi": 1, "setitem": 2, "clear": 1,
                                                           "to_list": 3, "copy": 2, "setslice": 2, "delslice": 2, "resize": 2,
                                                           "insert": 2, "remove": 1, "next": 1, "iter": 1}),
                do=.05, idx=.05, lazy=.1, big=True, minclients=2, preempt=True, fault=.06),
    "C07": dict(types=INTS + OBJS, w=mix(READ, WRITE, scale(ITER, .05), cmp=8, sort=6, extend=9, iadd=6, setslice=8, new=5, insert=6),
                do=.05, raise_=.75, idx=.6, lazy=.85, solo=.7),
    "C08": dict(types=INTS + OBJS, w=mix(READ, WRITE, scale(ITER, .4), to_list=6, copy=5, getslice=6, new=5, iter=6, next=6),
                do=.05, idx=.05, lazy=.3, fault=.6, solo=.9),
    "C09": dict(types=INTS + OBJS, w=mix(READ, WRITE, scale(ITER, .4), cmp=7, sort=5, drop=2), do=.8, raise_=.1, idx=.6, lazy=.8,
                dtok=.6, solo=.7, deep=True),
    "C10": dict(types=INTS + OBJS, w=mix(scale(WRITE, .6), scale(ITER, 1.0), drop=1), do=.1, idx=.05, lazy=.2),
    "C11": dict(types=INTS[:2], w=mix(scale(WRITE, .7), VIEW, VIEW, drop=2), do=.25, idx=.15, lazy=.3, fault=.05),
    "C12": dict(types=OBJS + OBJS + INTS, w=mix(READ, WRITE, scale(ITER, .3), drop=2), do=.2, raise_=.2, idx=.2, lazy=.5, fault=.15,
                dtok=.3, solo=.6),
}


# operations that can call user code
CB_INT = {"append", "extend", "iadd", "insert", "popi", "setitem", "delitem", "getitem", "getslice", "setslice", "delslice", "mul", "rmul",
          "imul", "index3", "sort", "new", "reinit", "cmp", "from_range", "index", "remove", "count"}
CB_OBJ = (CB_INT - {"append"}) | {"index", "remove", "count", "contains", "repr", "clear", "pop"}


EXCS = list("EBTVIOMSRKANLQXYZDGCFPHJW") + list("ETVIOMSRK") + ["Aa"]


class Gen:
    def __init__(self, prop, seed):
        self.r = random.Random("%s/%d" % (prop, seed))
        self.p = PROFILES[prop]
        self.prop = prop
        self.seed = seed
        r = self.r
        self.tname = r.choice(self.p["types"])
        self.kind = "int" if self.tname in INTS else "obj"
        self.array = self.tname in ("IntArrayList", "BigIntArrayList", "ObjectArrayList")
        self.uniq = 200000 + (seed % 1000) * 1000
        self.nslots = 2
        self.keyless = self.nested = False
        self.mem = []
        self.extreme = r.random() < .12     # mostly values at the ends of the range
        self.nkeys = r.choice((1, 2, 4, 4, 9))
        self.ntok = r.randint(4, 9)
        # swarm: a random subset of the operations, of the fault kinds, of the sizes
        w = dict(self.p["w"])
        if not self.array:
            w.pop("resize", None)
            w.pop("newsize", None)
        if self.kind == "obj":
            w.pop("from_range", None)
            if prop in ("C09", "C12") and r.random() < .08:
                w["nest"] = 6
        if self.kind == "obj" or self.tname == "IntLinkedList":
            for v in VIEW:
                w.pop(v, None)
        names = list(w)
        if r.random() < .5:
            drop = set(r.sample(names, r.randint(0, len(names) * 2 // 3)))
            kept = {k: v for k, v in w.items() if k not in drop}
            if sum(kept.values()) > 0 and any(k in WRITE for k in kept):
                w = kept
        if prop == "C06" and r.random() < .5:
            w["sort"] = 25      # the only operation that lets go of the interpreter lock today
            self.keyless = True
            if r.random() < .6:
                self.nslots = 1
                for k in ("append", "pop", "insert", "delitem", "setitem", "clear", "popi"):
                    w[k] = w.get(k, 0) + 4
            if r.random() < .7:
                self.tname = r.choice(INTS[:2])
                self.kind, self.array = "int", True
        self.names = list(w)
        self.wts = [w[k] for k in self.names]
        self.do_p = self.p.get("do", 0) if r.random() < .8 else 0
        self.raise_p = self.p.get("raise_", 0) if r.random() < .85 else 0
        self.fault_p = self.p.get("fault", 0) if r.random() < .85 else 0
        self.idx_p = self.p.get("idx", 0) if r.random() < .8 else 0
        self.lazy_p = self.p.get("lazy", 0)
        self.force = self.atomic = False
        self.nc = 1
        cbn = CB_INT if self.kind == "int" else CB_OBJ
        self.cbnames = [n for n in self.names if n in cbn]
        self.cbwts = [w[n] for n in self.cbnames]
        self.maxlen = r.choice((2, 4, 6, 10))
        if self.p.get("big"):
            self.maxlen = r.choice((3, 7, 8, 9, 12, 16, 17, 20, 31, 32, 33, 40, 64, 65, 70, 100, 128, 130, 200, 260))
            if self.keyless and r.random() < .7:
                self.maxlen = r.choice((3, 4, 7, 9, 17, 20, 33, 40))
        elif r.random() < .12:
            self.maxlen = r.choice((16, 17, 24, 33, 40, 70))
        self.huge = prop in ("C05", "C08") and r.random() < (.025 if prop == "C05" else .012)
        if self.huge:
            # merges too long for the sort's own buffer; the library's second int sort
            self.maxlen = r.choice((300, 600, 900, 1500)) if self.kind == "obj" else r.choice((300, 1000, 5001, 5400, 7000) if self.tname != "IntLinkedList" else (300, 1000))
            if prop == "C08":
                self.maxlen = r.choice((300, 600, 900))
                self.fault_p = .8
                for k in ("sort", "sort", "to_list", "copy", "list", "add"):
                    if k not in self.names:
                        self.names.append(k)
                        self.wts.append(0)
                    self.wts[self.names.index(k)] += 5
                self.cbnames = [n for n in self.names if n in cbn]
                self.cbwts = [self.wts[self.names.index(n)] for n in self.cbnames]
            self.ntok = r.choice((self.ntok, 40))
            self.nkeys = r.choice((2, 9, 13, 40))
        # lists longer than anything the library could treat specially, few operations
        self.bigmul = False
        # one bulk operation on a long list against another client that reads and changes the same list
        self.duel = prop == "C06" and not self.keyless and r.random() < .45
        self.long = not self.huge and prop not in ("C05", "C08") and r.random() < (.012 if prop != "C06" else .02)
        if self.long:
            self.maxlen = r.choice((130, 260, 513, 1030, 2100, 5000))
            if self.array and self.kind == "int" and r.random() < .4:
                self.maxlen = r.choice((9000, 20000, 70000))
            elif self.kind == "obj":
                self.maxlen = r.choice((130, 260, 513, 1030))

    # ------------------------------------------------------------ arguments
    def val(self):
        r = self.r
        if self.kind == "obj":
            if r.random() < .08:
                return None
            return r.randrange(self.ntok)
        x = r.random()
        if self.extreme:
            x = 1 if x < .8 else x * .6
        if x < .35:
            self.uniq += 1
            return self.uniq
        if x < .7:
            return r.randint(-4, 6)
        if x < .8:
            return -(r.randrange(1, 1 << 30))
        if self.tname == "BigIntArrayList":
            return r.choice((-2 ** 63, 2 ** 63 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 62, -2 ** 62, 2 ** 40 + 7, -(2 ** 33) + 1, 2 ** 60,
                             -2 ** 60, 2 ** 30))
        return r.choice((-2 ** 31, 2 ** 31 - 1, 2 ** 30, -2 ** 30, 2 ** 30 - 1, 1 - 2 ** 30, 65536, -65536))

    def known(self):
        """a value some list of the run probably holds"""
        r = self.r
        if self.mem and r.random() < .5:
            m = r.choice(self.mem)
            if m:
                return r.choice(m)
        return self.val()

    def near(self):
        """a list of values that differs little from one made before"""
        r = self.r
        if not self.mem:
            return self.vals()
        v = list(r.choice(self.mem))
        x = r.random()
        if v and x < .55:
            v[r.randrange(len(v))] = self.val()
        elif v and x < .7:
            del v[r.randrange(len(v)):]
        elif x < .8:
            v.append(self.val())
        elif v and x < .9 and self.kind == "int":
            i = r.randrange(len(v))
            d = r.choice((1, -1))
            lim = 2 ** 63 if self.tname == "BigIntArrayList" else 2 ** 31
            if -lim <= v[i] + d < lim:
                v[i] += d
        return v

    def valx(self, query=False):
        """value argument that may be an __index__ object (int lists only)"""
        if self.kind == "int" and self.r.random() < (.8 if self.force else self.idx_p * .6):
            return ["idx", self.known() if query else self.val()]
        if self.kind == "int" and self.r.random() < .04:
            return "BAD"
        return self.known() if query else self.val()

    def pos(self):
        r = self.r
        m = max(self.maxlen, 3)
        i = r.choice((0, -1, 1, -2, r.randint(-m - 2, m + 2), r.randint(0, m), r.randint(0, m)))
        if r.random() < .03:
            i = r.choice((2 ** 40, -2 ** 40, 2 ** 62))
        if r.random() < (.7 if self.force else self.idx_p):
            return ["idx", i]
        return i

    def vals(self, n=None):
        v = self.vals0(n)
        if v:
            self.mem.append(list(v))
        return v

    def vals0(self, n=None):
        r = self.r
        if n is None:
            n = r.choice((0, 1, 2, 3, r.randint(0, self.maxlen), r.randint(0, self.maxlen)))
        if (self.p.get("big") or self.huge or self.long) and n > 6:
            pat = r.randrange(6)
            if self.kind == "int":
                if pat == 0:
                    b = r.randint(-1000, 300000)
                    return [b + i for i in range(n)]
                if pat == 1:
                    b = r.randint(-1000, 300000)
                    return [b - 3 * i for i in range(n)]
                if pat == 2:
                    return [r.randint(-3, 3) for _ in range(n)]
                if pat == 3:
                    return [r.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(n)]
                if pat == 4:
                    b = sorted(r.randint(-500, 500) for _ in range(n))
                    for _ in range(r.randint(0, 4)):
                        b[r.randrange(n)] = r.randint(-500, 500)
                    return b
                if n > 40:
                    b = []
                    for _ in range(r.randint(1, 6)):
                        c = sorted(r.randint(-n, n) for _ in range(r.randint(1, n)))
                        b += c if r.random() < .7 else c[::-1]
                    return (b * (n // len(b) + 1))[:n]
            elif pat < 4:
                # a few sorted stretches, a few strangers: what makes a merge gallop
                b = []
                while len(b) < n:
                    c = sorted((r.randrange(self.ntok) for _ in range(r.randint(1, n))), key=lambda i: i % self.nkeys)
                    b += c if r.random() < .7 else c[::-1]
                b = b[:n]
                for _ in range(r.choice((0, 0, 1, 4))):
                    b[r.randrange(n)] = r.randrange(self.ntok)
                return b
        return [self.val() for _ in range(n)]

    def src(self, t, lazy=True, lst=True, bad=True):
        r = self.r
        x = r.random()
        if lst and x < .18:
            return ["lst", r.randrange(self.nslots)]
        if bad and x < .21:
            return ["bad"]
        v = self.vals()
        if self.kind == "int" and bad and r.random() < .06 and len(v) < 30:
            v = v + ["BAD"] + self.vals(r.randint(0, 2))
            if r.random() < .5:
                r.shuffle(v)
        if self.kind == "int" and v and len(v) < 30 and r.random() < (.35 if self.force else .04):
            for i in range(len(v)):
                if isinstance(v[i], int) and r.random() < .4:
                    v[i] = ["idx", v[i]]
        if lazy and r.random() < (.75 if self.force else self.lazy_p):
            if len(v) > 12:
                v = v[:12 if not self.long else r.choice((12, 70, 300))]
            k = r.choice(("gen", "gen", "iter", "iter", "iter", "iter", "seq", "seq", "lsub", "tsub"))
            if k == "iter":
                h = r.choice((None, None, len(v), 0, 1, len(v) + 5, 100, -1, 2 ** 50, 2 ** 62, 2 ** 30))
                return [k, v, h]
            return [k, v]
        if lst and self.atomic and t < 2 and r.random() < .06:
            return [r.choice(("itr", "ritr")), 1 - t]       # another list's own iterator
        k = r.choice(("list", "list", "list", "list", "tuple", "tuple", "list", "list", "other", "deque"))
        if k in ("other", "deque") and any(c == "BAD" or isinstance(c, list) for c in v):
            k = "list"
        if k == "other" and self.tname == "BigIntArrayList":
            v = [c if -2 ** 31 <= c < 2 ** 31 else 5 for c in v]
        if self.kind == "int" and r.random() < .05:
            return ["range", [r.randint(-5, 5), r.randint(-5, 20), r.choice((1, 2, -1))]]
        return [k, v]

    def slc(self, step=False):
        r = self.r
        a = r.choice((None, self.pos(), self.pos()))
        b = r.choice((None, self.pos(), self.pos()))
        c = None
        if step and r.random() < .5:
            c = r.choice((1, -1, 2, -2, 3, -3))
        elif r.random() < .1:
            c = 1
        return [a, b, c]

    # ------------------------------------------------------------ operations
    def op(self, depth=0):
        r = self.r
        wantdo = r.random() < self.do_p and depth < (2 if self.p.get("deep") else 1)
        wantraise = r.random() < self.raise_p
        force0 = self.force
        self.force = (wantdo or wantraise) and r.random() < .85
        if self.force and self.cbnames:
            name = r.choices(self.cbnames, self.cbwts)[0]
        else:
            name = r.choices(self.names, self.wts)[0]
        t = r.randrange(self.nslots) if r.random() < .35 else 0
        self.atomic = self.nc == 1 and self.nslots > 1 and not wantdo and not wantraise
        o = getattr(self, "g_" + name, None)
        op = o(t) if o else [name, t]
        extra = {}
        cb = {}
        self.force = False
        if name == "nest":
            self.nested = True
            return op
        if wantdo:
            for _ in range(r.choice((1, 1, 2))):
                cb[str(self.stepno())] = ["do", [self.op(depth + 1) for _ in range(r.choice((1, 1, 2)))]]
        if wantraise:
            cb[str(self.stepno())] = ["raise", r.choice(EXCS)]
        if cb:
            extra["cb"] = cb
        if r.random() < self.fault_p:
            at = r.choice((0, 0, 1, 1, 2, 3, 4, 5, r.randint(0, 12), r.randint(0, 40 if not self.huge else 400)))
            ln = r.choice((1, 1, 1, 1, 2, -1))
            extra["fault"] = [at, ln]
        if extra:
            op = op + [extra]
        self.force = force0
        return op

    def stepno(self):
        r = self.r
        return r.choice((0, 0, 0, 1, 1, 2, 3, r.randint(0, 8), r.randint(0, 25)))

    def g_append(self, t):
        return ["append", t, self.valx()]

    def g_extend(self, t):
        return ["extend", t, self.src(t)]

    def g_iadd(self, t):
        return ["iadd", t, self.src(t)]

    def g_add(self, t):
        s = self.src(t, lazy=False, bad=False)
        if s[0] in ("tuple", "range", "other", "deque", "itr", "ritr"):
            s = ["list", self.vals()]
        if s[0] == "list":
            s[1] = [c[1] if isinstance(c, list) else c for c in s[1]]
        return ["add", t, s]

    def cnt(self):
        if self.maxlen <= 40 and not self.bigmul and self.r.random() < .04:
            self.bigmul = True      # once: the lists must not explode
            return self.r.choice((33, 65, 100, 257, 600) if self.array else (33, 65) if self.maxlen > 10 else (65, 257))
        n = self.r.choice((0, 1, 2, 2, 3, -1, 5 if self.maxlen < 20 and not self.bigmul else 2))
        return ["idx", n] if self.force or self.r.random() < self.idx_p * .3 else n

    def g_mul(self, t):
        return ["mul", t, self.cnt()]

    def g_rmul(self, t):
        return ["rmul", t, self.cnt()]

    def g_imul(self, t):
        return ["imul", t, self.cnt()]

    def g_insert(self, t):
        return ["insert", t, self.pos(), self.valx()]

    def g_popi(self, t):
        return ["popi", t, self.pos()]

    def g_remove(self, t):
        return ["remove", t, self.valx(True)]

    def g_index(self, t):
        return ["index", t, self.valx(True)]

    def g_index3(self, t):
        a = ["index", t, self.valx(True), self.pos()]
        if self.r.random() < .6:
            a.append(self.pos())
        return a

    def g_count(self, t):
        return ["count", t, self.valx(True)]

    def g_contains(self, t):
        return ["contains", t, self.valx(True)]

    def g_setitem(self, t):
        return ["setitem", t, self.pos(), self.valx()]

    def g_delitem(self, t):
        return ["delitem", t, self.pos()]

    def g_getitem(self, t):
        return ["getitem", t, self.pos()]

    def g_getslice(self, t):
        return ["getslice", t, self.slc(True)]

    def g_setslice(self, t):
        return ["setslice", t, self.slc(), self.src(t)]

    def g_delslice(self, t):
        return ["delslice", t, self.slc(self.r.random() < .0)]

    def g_cmp(self, t):
        r = self.r
        o = r.choice(("eq", "ne", "lt", "le", "gt", "ge"))
        x = r.random()
        if x < .35:
            s = ["lst", r.randrange(self.nslots)]
        else:
            v = self.near() if r.random() < .6 else self.vals()
            if self.kind == "obj" and o not in ("eq", "ne"):
                v = [c for c in v if c is not None]
            if r.random() < (.6 if self.force else .15):
                if self.kind == "int":
                    v = [["idx", c] if r.random() < .2 and o in ("eq", "ne") else c for c in v]
                s = ["seq", v[:12]]
            else:
                s = [r.choice(("list", "tuple", "list")), v]
            if s[0] == "tuple":
                s[0] = "list"
        return ["cmp", t, o, s]

    def g_sort(self, t):
        r = self.r
        k = None
        if r.random() < (.9 if self.force and self.kind == "int" else .55):
            k = r.choice(("neg", "mod", "abs", "const", "str", "flt", "tup", "big", "mod", "neg", "mix" if r.random() < .3 else "abs"))
        if self.keyless and r.random() < .85 or self.huge and self.prop == "C08" and r.random() < .5:
            k = None
        return ["sort", t, k, r.choice((None, None, True, False))]

    def g_resize(self, t):
        n = self.r.choice((0, 1, 3, self.r.randint(0, self.maxlen + 4), self.r.randint(0, self.maxlen)))
        return ["resize", t, n]

    def g_new(self, t):
        op = ["new", t, self.src(t), self.r.choice((None, None, None, 0, 5, 100)) if self.array else None]
        if self.tname != "IntLinkedList" and self.r.random() < .2:
            op.append("kw")
        return op

    def g_newsize(self, t):
        return ["newsize", t, self.r.choice((0, 1, 10, 1000))]

    def g_drop(self, t):
        # T(), or an object whose __init__ has not run
        return ["drop", t, int(self.r.random() < .5)]

    def g_from_range(self, t):
        r = self.r
        a = r.choice(([r.randint(-3, 12)], [r.randint(-10, 10), r.randint(-10, 20)],
                      [r.randint(-10, 10), r.randint(-12, 20), r.choice((1, 2, 3, 5, -1, -2, -3, -7, 0 if r.random() < .2 else 4))]))
        if r.random() < .2:
            # bounds and steps at the ends of the machine's range, few elements
            big = r.choice((2 ** 31, 2 ** 32, 2 ** 33, 2 ** 62, 2 ** 63 - 1, 2 ** 63 - 2))
            sg = r.choice((1, -1))
            if self.tname == "BigIntArrayList" and r.random() < .7:
                lo = r.choice((-2 ** 63, -2 ** 63 + 1, -2 ** 62, -5, 0))
                hi = r.choice((2 ** 63 - 1, 2 ** 63 - 2, 2 ** 62, 7))
                st = r.choice((2 ** 62, 2 ** 61, 2 ** 63 - 1, 2 ** 62 - 1))
                a = [lo, hi, st] if sg > 0 else [hi, lo, -st]
            else:
                s = r.choice((0, 5, -5, 2 ** 31 - 1, -2 ** 31))
                a = [s, sg * big if r.random() < .7 else s + sg * r.randint(0, 5), sg * r.choice((2 ** 63 - 1, 2 ** 63 - 2, 2 ** 64, 2 ** 63 - 1))]
                if a[2] == -(2 ** 63 - 1) and r.random() < .5:
                    a[2] = -2 ** 63
                if abs(a[2]) < 2 ** 64 and len(range(*a)) > 1:
                    a = [s, s + sg, sg]
                    if not -2 ** 31 <= s + sg < 2 ** 31 and self.tname != "BigIntArrayList":
                        a = [s, s + sg, sg]
        if r.random() < self.idx_p * .6:
            i = r.randrange(len(a))
            a[i] = ["idx", a[i]]
        return ["from_range", t, a]

    def g_reinit(self, t):
        return ["reinit", t, self.src(t, bad=False)]

    def g_nest(self, t):
        r = self.r
        n = r.choice((1, 2, 49, 50, 51, 52, 60, 101, 300, 3000, 3000, 60000))
        last = "a" if self.tname == "ObjectArrayList" else "l"
        types = r.choice((last, last, "al", "la", "aap", "llp", "alt", "lat", "aalpt", "lalpt"))
        return ["nest", t, types, n, r.choice((1, 2, 7, 1000)) if n < 5000 else 20000, r.choice(("drop", "drop", "clear", "del", "slice", "resize", "sort", "iter"))]

    def g_badcall(self, t):
        return ["badcall", t, self.r.choice(BC.KINDS)]

    def g_copyto(self, t):
        return ["copyto", t, self.r.randrange(self.nslots)]

    def g_iter(self, t):
        return ["iter", t, self.r.randrange(3), self.r.random() < .35]

    def g_next(self, t):
        return ["next", self.r.randrange(3)]

    def g_drain(self, t):
        return ["drain", self.r.randrange(3)]

    def g_lhint(self, t):
        return ["lhint", self.r.randrange(3)]

    def g_itdrop(self, t):
        return ["itdrop", self.r.randrange(3)]

    def g_view(self, t):
        return ["view", t, self.r.randrange(3)]

    def g_subview(self, t):
        r = self.r
        return ["subview", r.randrange(3), r.randrange(3), r.randint(-3, 5), r.randint(-3, 8)]

    def g_vread(self, t):
        return ["vread", self.r.randrange(3)]

    def g_vwrite(self, t):
        return ["vwrite", self.r.randrange(3), self.r.randint(-3, 5), self.val()]

    def g_bytes(self, t):
        return ["bytes", t, self.r.randrange(3)]

    def g_pack(self, t):
        return ["pack", t, self.r.randint(-3, 5), self.val()]

    def g_vrel(self, t):
        return ["vrel", self.r.randrange(3)]

    # ------------------------------------------------------------ plan
    def burst(self):
        """two lists that first differ in one place, compared in every way"""
        r = self.r
        v = self.vals(r.choice((1, 2, 3, 5, self.maxlen)))
        w = list(v)
        if self.kind == "int":
            top = 2 ** 63 if self.tname == "BigIntArrayList" else 2 ** 31
            ends = (-top, top - 1, -1, 0, 1, top // 2, -top // 2, top // 2 - 1, -top // 2 - 1, -top + 1, 2 ** 31 - 1, 2 ** 30)
            for _ in range(r.choice((1, 1, 2))):
                if v:
                    i = r.randrange(len(v))
                    v[i], w[i] = r.choice(ends), r.choice(ends)
        elif w and r.random() < .8:
            w[r.randrange(len(w))] = self.val()
        if self.kind == "obj":
            v = [c for c in v if c is not None]
            w = [c for c in w if c is not None]
        if r.random() < .2:
            w = w[:r.randint(0, len(w))]
        out = [["new", 0, ["list", v], None], ["new", 1, ["list", w], None]]
        for o in r.sample(("eq", "ne", "lt", "le", "gt", "ge"), r.choice((2, 3, 6))):
            t = r.randrange(2)
            out.append(["cmp", t, o, r.choice((["lst", 1 - t], ["lst", 1 - t], ["lst", t], ["list", v], ["list", w]))])
        return out

    def duel_plan(self):
        r = self.r
        n = r.choice((40, 300, 700, 1100, 2100, 4200, 4200, 5000, 9000)) if self.kind == "int" and self.array else r.choice((40, 300, 700, 1100))
        self.maxlen = n
        self.long = True
        pat = r.randrange(4)
        if self.kind == "int":
            v = [i if pat < 2 else r.randint(-9, 9) if pat == 2 else r.randint(-2 ** 31, 2 ** 31 - 1) for i in range(n)]
        else:
            v = [r.randrange(self.ntok) for _ in range(n)]
        last = v[-1] if r.random() < .6 else v[n // 2] if r.random() < .5 else 123456789 if self.kind == "int" else self.ntok - 1
        mid = n // 2
        other = ["lst", 1]
        ops = [["contains", 0, last], ["contains", 0, last], ["index", 0, last], ["count", 0, last], ["remove", 0, last], ["copy", 0], ["copy", 0],
               ["to_list", 0], ["list", 0], ["cmp", 0, r.choice(("eq", "ne", "lt", "le", "gt", "ge")), other],
               ["cmp", 1, r.choice(("eq", "ne", "lt", "ge")), ["lst", 0]], ["sort", 0, None, r.choice((None, True))], ["reverse", 0],
               ["reverse", 0], ["imul", 0, r.choice((2, 3))], ["imul", 0, 0], ["mul", 0, r.choice((1, 2, 3))], ["mul", 0, 2],
               ["extend", 0, other], ["extend", 1, ["lst", 0]], ["iadd", 0, other], ["add", 0, other], ["add", 1, ["lst", 0]],
               ["getslice", 0, [None, None, None]], ["getslice", 0, [n - 1, None, -1]], ["setslice", 0, [0, mid, None], other],
               ["setslice", 1, [0, mid, None], ["lst", 0]], ["delslice", 0, [0, mid, None]], ["insert", 0, 0, v[0]], ["popi", 0, 0],
               ["delitem", 0, 1], ["clear", 0], ["append", 0, v[0]], ["new", 1, ["lst", 0], None], ["extend", 0, ["list", v[:200]]],
               ["pop", 0], ["repr", 0], ["setitem", 0, mid, v[0]]]
        if self.array:
            ops += [["resize", 0, n * 2], ["resize", 0, mid]]
        w = [["imul", 0, 2], ["extend", 0, ["list", v[:60]]], ["clear", 0], ["reverse", 0], ["setitem", 0, n - 1, v[0]], ["setitem", 0, 0, v[-1]],
             ["popi", 0, 0], ["insert", 0, 0, v[-1]], ["sort", 0, None, None], ["delslice", 0, [1, None, None]], ["pop", 0]]
        if self.array:
            w += [["resize", 0, 3], ["resize", 0, n + 400]]
        b = []
        for _ in range(r.choice((1, 2, 3, 4))):
            o = ["to_list", 0] if r.random() < .35 else list(r.choice(w[:3]) if r.random() < .3 else r.choice(w))
            if r.random() < .1:
                o[1] = 1
            b.append(o)
        # every fourth run only looks through the list while the other client gives it new storage
        looks = ("contains", "index", "count", "cmp", "copy", "to_list")
        if r.random() < .25:
            ops = [o for o in ops if o[0] in looks] + [["cmp", 0, r.choice(("eq", "ne")), other]] * 2
            if r.random() < .6:
                b = [list(r.choice(w[:3] + w[-2:]))] + b[:1]
        a = [list(r.choice(ops)) for _ in range(r.choice((1, 2, 3)))]
        # those that leave little of the list come last
        a.sort(key=lambda o: o[0] in ("clear", "delslice", "resize") or o[0] == "imul" and o[2] == 0)
        if r.random() < .25:
            a.append(["to_list", 0])
        init = [["new", 0, ["list", v], None], ["new", 1, ["list", v if r.random() < .7 else v[:mid]], None]]
        return init, [a, b]

    def plan(self):
        r = self.r
        p = self.p
        init = []
        for t in range(self.nslots):
            if r.random() < .9:
                k = r.choice(("list", "list", "tuple"))
                n = r.randint(0, self.maxlen) if not (p.get("big") or self.huge or self.long) else r.choice((self.maxlen, r.randint(0, self.maxlen)))
                if t and r.random() < .5:
                    n = min(n, 3)
                init.append(["new", t, [k, self.near() if t and r.random() < .3 else self.vals(n)], None])
        nc = 1
        if r.random() >= p.get("solo", .4) or p.get("minclients", 1) > 1:
            nc = r.choice((2, 2, 3))
        if self.huge:
            nc = 1
        self.nc = nc
        total = r.choice((3, 5, 8, 8, 12)) if nc == 1 else r.choice((4, 6, 8, 10))
        if self.maxlen > 60:
            total = min(total, 6)
        if self.keyless:
            total = r.choice((8, 12, 16))
        if self.huge:
            total = 3
        elif self.long:
            total = 3 if nc == 1 else 5
        clients = [[] for _ in range(nc)]
        for _ in range(total):
            clients[r.randrange(nc)].append(self.op())
        if "cmp" in self.names and not self.huge and not self.long and self.nslots > 1 and r.random() < .12:
            c = r.choice(clients)
            i = r.randint(0, len(c))
            c[i:i] = self.burst()
        if self.huge and self.prop == "C08":
            # a long list takes buffers of its own to sort: fail each of them in turn
            v = self.vals(r.choice((300, 600, 900)))
            for i in range(r.choice((3, 4, 6))):
                o = self.g_sort(0)
                clients[0] += [["new", 0, ["list", v], None], o + [{"fault": [i if o[2] is None else r.choice((i, len(v) + i)), 1]}]]
        if self.prop == "C08":
            # retry every failed call with memory available
            for c in clients:
                i = 0
                while i < len(c):
                    if isinstance(c[i][-1], dict) and "fault" in c[i][-1] and r.random() < .5:
                        e = {k: v for k, v in c[i][-1].items() if k != "fault"}
                        c.insert(i + 1, c[i][:-1] + ([e] if e else []))
                        i += 1
                    i += 1
        if self.prop == "C10":
            for t in range(3):
                if r.random() < .8:
                    init.append(["iter", r.randrange(self.nslots) if r.random() < .3 else 0, t, r.random() < .4])
        if self.duel:
            nc = 2
            init, clients = self.duel_plan()
        sched = []
        top = 60 if r.random() < .7 else 5      # few blocks between two preemptions
        if nc > 1 or p.get("preempt"):
            ps = r.choice((.1, .3, .6)) if self.prop != "C06" else r.choice((.3, .6, .85))
            for _ in range(r.choice((40, 80, 120))):
                sched.append(r.randint(1, top) if r.random() < ps else 0)
        plan = {"prop": self.prop, "seed": self.seed, "type": self.tname, "slots": self.nslots, "init": init, "clients": clients,
                "sched": sched, "first": r.randrange(nc), "nkeys": self.nkeys, "ntok": self.ntok}
        if self.kind == "obj" and r.random() < p.get("dtok", 0):
            plan["dtok"] = sorted(r.sample(range(self.ntok), r.randint(1, self.ntok)))
        if r.random() < .15:
            plan["sub"] = 1
        if self.duel or self.maxlen > 6000 and r.random() < .7 or self.bigmul and r.random() < .5:
            plan["brief"] = 1       # look at the lists only once at the end
        if self.huge or self.long or self.nested or self.bigmul:
            plan["limit"] = 400_000_000
        return plan


def cpu(seed):
    """the processor of the run (see simctl.cpu)"""
    return random.Random("cpu%d" % seed).choice([0, 0, 0, 1, 1, 2, 3])


def make(prop, seed):
    p = Gen(prop, seed).plan()
    p["cpu"] = cpu(seed)
    return p
