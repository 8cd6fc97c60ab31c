"""Plans for the Unsafe type (C13 heap histories, C16 standard streams)."""
import random

import gen

SIZES = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 4095, 4096, 4097, 5000]
HUGE = [16384, 32769, 65535, 65536, 65537, 100000]
BIG = [(1 << 32) + 1, 1 << 33, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 16]
INVALID = [1 << 64, 1 << 70, -1, -16, -(1 << 63), -(1 << 70)]
ALIGN = [8, 16, 32, 64, 128, 256, 512, 1024, 4096]
BADALIGN = [0, 3, 5, 6, 24, 48, 100, (1 << 40), (1 << 63)]


def size(r):
    x = r.random()
    if x < .05:
        return r.choice(BIG)
    if x < .07:
        return r.choice(INVALID)
    if x < .08:
        return r.choice(HUGE)
    if x < .6:
        return r.choice(SIZES)
    return r.randrange(0, 300)


def span(r):
    """a number of bytes: every small one, the edges of large ones, and any"""
    x = r.random()
    if x < .45:
        return r.choice(SIZES)
    if x < .9:
        return r.randrange(0, 140)
    if x < .92:
        return r.choice(HUGE)
    return r.randrange(0, 5000)


def fault(r, span=6):
    return [r.randrange(span), r.choice([1, 1, 1, 2, -1])]


VALUES = [0, 1, -1, 5, 255, 256, -5, -6, 0x7fffffff, -0x80000000, 0x80000000, 0xffffffff, -0x80000001, 1 << 32, (1 << 62) + 7, (1 << 63) - 1, -(1 << 63),
          0x0102030405060708, -0x0102030405060708, 1 << 30, (1 << 30) - 1]


def native_op(r, slots, depth, pf):
    s = r.choice(slots)
    how = r.choices(["void", "int", "ll", "call"], [1, 2, 2, 5])[0]
    v = r.choice(VALUES) if r.random() < .6 else r.randrange(-(1 << 63), 1 << 63)
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 8]) if r.random() < .6 else max(17, span(r))
    op = ["ncall", s, how, v, r.choice([0, 0, 1, 3, r.randrange(0, 200)]), n, r.choice(slots), r.choice([0, 0, 5, r.randrange(0, 100)])]
    if r.random() < .1:
        op.append(r.choice(["type", "none", "big", "few", "many"] + (["res", "bigres", "neg", "huge", "size"] if how == "call" else [])))
    ex = {}
    if r.random() < pf:
        ex["fail"] = fault(r, 3)
    if depth < 2 and r.random() < .5:
        inner = [x + 8 for x in slots]
        ex["cb"] = {"0": ["raise"] if r.random() < .1 else
                    ["do", [native_op(r, inner, depth + 1, pf) if r.random() < .4 else heap_op(r, inner, 2, pf, 0) for _ in range(r.randrange(1, 5))]]}
    return op + [ex] if ex else op


def heap_op(r, slots, depth, pf, ps):
    s = r.choice(slots)
    k = r.choices(["malloc", "calloc", "realloc", "free", "amalloc", "afree", "set", "get", "memcpy", "memset", "asobj", "addr", "incref",
                   "decref", "refcnt", "with", "bad"],
                  [10, 8, 16, 8, 8, 5, 12, 8, 10, 7, 4, 2, 4, 4, 3, 2, 5])[0]

    def V(v):
        return ["idx", v] if r.random() < ps else v
    if k == "malloc":
        op = [k, s, size(r)]
    elif k == "calloc":
        a, b = size(r), r.choice([0, 1, 1, 2, 3, 4, 8, 16])
        if r.random() < .1:
            a, b = 1 << 32, r.choice([1 << 32, (1 << 32) + 1, 1 << 31, 3])
        if r.random() < .5:
            a, b = b, a
        if 4096 < a * b < 1 << 32:
            a, b = a % 100, b
        op = [k, s, V(a), V(b)]
    elif k == "realloc":
        op = [k, s, V(size(r))]
    elif k in ("free", "afree"):
        op = [k, s]
    elif k == "amalloc":
        op = [k, s, V(size(r)), V(r.choice(BADALIGN) if r.random() < .12 else r.choice(ALIGN))]
    elif k == "set":
        op = [k, s, r.choice([0, 0, r.randrange(0, 300)]), span(r), r.randrange(256)]
    elif k == "get":
        op = [k, s, r.choice([0, 0, r.randrange(0, 300)]), span(r)]
    elif k == "memcpy":
        op = [k, s, r.choice([0, 0, r.randrange(0, 200)]), r.choice(slots), r.choice([0, 0, r.randrange(0, 200)]), span(r)]
    elif k == "memset":
        op = [k, s, r.choice([0, 0, r.randrange(0, 300)]), r.choice([0, 1, 127, 128, 255, 256, 300, -1, -128, 65]), span(r)]
    elif k in ("asobj", "addr", "incref", "decref", "refcnt"):
        op = [k, r.randrange(3)]
    elif k == "with":
        op = [k]
    else:
        import rtu
        op = [k, r.choice(sorted(rtu.Run.BADCALLS)), s]
    ex = {}
    if r.random() < pf:
        ex["fail"] = fault(r, 5)
    if any(isinstance(x, list) for x in op[1:]):
        step = str(r.choice([0, 0, 1]))
        if depth == 0 and r.random() < .8:
            if r.random() < .3:
                ex["cb"] = {step: ["raise"]}
            else:
                # nested calls work on slots of their own
                ex["cb"] = {step: ["do", [heap_op(r, [x + 12 for x in slots], depth + 1, pf, 0) for _ in range(r.randrange(1, 4))]]}
    if ex:
        op = op + [ex]
    return op


def make_heap(seed):
    r = random.Random("heap%d" % seed)
    nc = r.choice([1, 1, 2, 3])
    pf = r.choice([0, .1, .3, .6])
    ps = r.choice([0, .2, .5])
    per = 4
    cl = []
    for c in range(nc):
        slots = list(range(c * per, c * per + r.randrange(2, per + 1)))
        cl.append([heap_op(r, slots, 0, pf, ps) for _ in range(r.randrange(6, 40) // nc + 3)])
    sched = [r.choice([0, 1, 2, 3]) if r.random() < .4 else 0 for _ in range(160)] if nc > 1 or True else []
    return {"mode": "heap", "cpu": gen.cpu(seed), "clients": cl, "sched": sched if nc > 1 else [], "first": r.randrange(nc),
            "heap": [r.randrange(256) for _ in range(64)] if r.random() < .7 else None}


def make_native(seed):
    r = random.Random("native%d" % seed)
    nc = r.choice([1, 1, 2])
    pf = r.choice([0, .1, .3])
    cl = []
    for c in range(nc):
        # slots 0-7: the clients', 8-15 and 16-23: those of calls made while a function runs
        slots = list(range(c * 4, c * 4 + r.randrange(2, 5)))
        ops = []
        for lv in slots:
            if r.random() < .8:
                k, n = r.choice(["malloc", "calloc"]), r.choice(SIZES[5:]) if r.random() < .7 else r.randrange(1, 5000)
                ops.append(["malloc", lv, n] if k == "malloc" else [k, lv, n, 1])
                if r.random() < .7:
                    ops.append(["set", lv, 0, n, r.randrange(256)])
        for _ in range(r.randrange(4, 30) // nc + 2):
            ops.append(native_op(r, slots, 0, pf) if r.random() < .7 else heap_op(r, slots, 2, pf, 0))
        cl.append(ops)
    return {"mode": "heap", "cpu": gen.cpu(seed), "clients": cl, "sched": [r.choice([0, 1, 2, 3]) if r.random() < .5 else 0 for _ in range(160)] if nc > 1 else [],
            "first": r.randrange(nc), "heap": [r.randrange(256) for _ in range(64)] if r.random() < .7 else None}


def text(r, n):
    k = r.random()
    if k < .15:
        n = r.choice([200, 500, 1000, 3000])
    elif k < .5:
        n = r.randrange(0, 12)
    else:
        n = r.randrange(0, 80)
    s = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(n))
    x = r.random()
    if x < .5:
        s += "\n"
    if x > .7 and n > 3:
        i = r.randrange(n)
        s = s[:i] + r.choice(["\n", "\0", "é", "世界", "😀", "\r\n", "%s%n", "\n\n"]) + s[i:]
    return s


def stdio_op(r, nt, p, pf):
    k = r.choices(["fputs", "fflush", "fgets", "bad"], p)[0]
    if k == "fputs":
        op = [k, r.randrange(nt)]
    elif k == "fflush":
        op = [k]
    elif k == "fgets":
        op = [k, r.choice([1, 2, 3, 5, 8, 16, 17, 32, 64, 100, 1000, 5000])]
    else:
        op = [k, r.choice(["fputs-type", "fgets-type", "fgets-0", "fgets-neg", "fgets-big"]), 0]
    if r.random() < pf:
        op.append({"fail": fault(r, 3)})
    return op


def make_stdio(seed):
    r = random.Random("stdio%d" % seed)
    nc = r.choice([1, 1, 2, 3])
    nt = r.randrange(2, 9)
    texts = ["end\n"] + [text(r, nt) for _ in range(nt - 1)]
    surr = [i for i in range(1, nt) if r.random() < .03]
    lines = []
    for _ in range(r.choice([0, 1, 3, 10])):
        lines.append("".join(r.choice("abcdefgh ijk,;") for _ in range(r.choice([0, 1, 5, 15, 16, 31, 63, 64, 200, 900]))))
    inp = "\n".join(lines) + ("\n" if lines and r.random() < .6 else "")
    p = r.choice([[6, 2, 4, .3], [8, 3, 0, .2], [0, 0, 8, .2], [4, 4, 4, 1]])
    pf = r.choice([0, 0, .15, .4])
    pe = r.choice([0, .1, .3, .6])

    def script(errs, n):
        out = []
        for _ in range(n):
            x = r.random()
            if x < pe:
                out.append(-r.choice(errs))
            elif x < pe + .35:
                out.append(r.choice([1, 1, 2, 3, 5, 8, 13, 40, 100]))
            else:
                out.append(0)
        return out
    cl = [[stdio_op(r, nt, p, pf) for _ in range(r.randrange(4, 30) // nc + 2)] for _ in range(nc)]
    return {"mode": "stdio", "clients": cl, "first": r.randrange(nc),
            "sched": [r.choice([0, 1, 2, 3]) if r.random() < .4 else 0 for _ in range(120)] if nc > 1 else [],
            "texts": texts, "surr": surr, "input": inp, "wscript": script([5, 28, 4, 32, 11], r.choice([0, 5, 20, 60])),
            "rscript": script([5, 4, 21], r.choice([0, 5, 20, 60])), "bufsz": r.choice([-1, -1, 16, 64, 256, 4096, -16, -64, -1024])}


def make(prop, seed):
    return make_heap(seed) if prop == "C13" else make_native(seed) if prop == "C20" else make_stdio(seed)
