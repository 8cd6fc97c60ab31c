"""Plans of native functions (C14)."""
import random

import gen

PAD = [0, 0, 0, 0, 1, 2, 3, 15, 16, 17, 64, 500, 4050, 4077, 4082, 4090, 5000, 8170, 12000]
TAIL = [0, 0, 0, 1, 5, 16, 33, 70, 4000]


def code(r, ncb, k=None):
    kind = r.choices(["i", "q", "p", "r", "cb"], [4, 4, 1, 2, 3 if ncb else 0])[0]
    v = r.choice([0, 1, -1, 0x7fffffff, -0x80000000, (1 << 63) - 1, -(1 << 63), r.getrandbits(64), r.getrandbits(32)])
    if kind == "cb":
        v = r.randrange(ncb)
    return [kind, r.randrange(60) if k is None else k, v, r.choice(PAD) if r.random() < .7 else r.randrange(0, 200), r.choice(TAIL) if r.random() < .7 else r.randrange(0, 150)]


def op(r, slots, ncb, pf, pv, fastok):
    k = r.choices(["make", "free", "call", "run", "badcall", "stale", "with"], [9, 7, 9, 5, 1.5, 3, .3])[0]
    fast = fastok and r.random() < .4
    off = r.choice([0, 0, 8])
    if k == "make":
        o = [k, r.choice(slots), code(r, ncb), int(fast), r.choice([0, 0, 8])]
    elif k == "free":
        o = [k, r.choice(slots)]
    elif k == "call":
        o = [k, r.choice(slots), r.choice(["void", "int", "q", "mem"]), r.choice([0, 1, 4, 7, 8, 8, 9, 300, r.randrange(0, 40), r.randrange(0, 40), r.randrange(0, 300), r.randrange(0, 300)])]
    elif k == "run":
        o = [k, code(r, ncb), int(fast), off]
    elif k == "badcall":
        import rta
        o = [k, r.choice(sorted(rta.Run.BAD))]
    elif k == "stale":
        o = [k, r.choice(["freed", "freed", "inside", "block"]), r.randrange(1000)]
    else:
        return [k]
    ex = {}
    if r.random() < pf:
        ex["fail"] = [r.randrange(4), r.choice([1, 1, 1, 2, -1])]
    if r.random() < pv:
        ex["vp"] = [r.choice([0, 0, 1, 2]), r.choice([1, 1, 1, -1])]
    if ex:
        o.append(ex)
    return o


def make(prop, seed):
    r = random.Random("asm%d" % seed)
    nc = r.choice([1, 1, 1, 2, 3])
    pf, pv = r.choice([0, .1, .3]), r.choice([0, .1, .3])
    ncb = r.choice([0, 0, 2, 4])
    per = r.choice([3, 5, 8])
    slots = list(range(per))
    cl, cbs = [], []
    for c in range(nc):
        cl.append([op(r, slots, ncb, pf, pv, nc == 1) for _ in range(r.randrange(6, 50) // nc + 4)])
    for i in range(ncb):
        # code called back from running code must not call back again into itself for ever
        cbs.append([op(r, slots, i, pf, pv, nc == 1) for _ in range(r.randrange(1, 5))])
    return {"mode": "asm", "cpu": gen.cpu(seed), "clients": cl, "cbs": cbs, "first": r.randrange(nc),
            "sched": [r.choice([0, 1, 2, 3]) if r.random() < .4 else 0 for _ in range(160)] if nc > 1 else [],
            "heap": [r.randrange(256) for _ in range(r.choice([0, 64, 64]))]}
