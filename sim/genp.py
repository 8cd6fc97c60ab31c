"""Plans of thread pools (C15)."""
import random

VALUE, THROW, YIELD, NEST, GATE, AWAIT, POOL, THROWINT = range(8)


def make(prop, seed):
    r = random.Random("pool%d" % seed)
    np = r.choice([1, 1, 1, 2, 3])
    pools = []
    for i in range(np):
        p = {"n": r.choice([-1, 0, 1, 1, 1, 2, 2, 3, 4, 6]), "create": [-1, 0], "alloc": [-1, 0]}
        if r.random() < .15:
            p["create"] = [r.randrange(5), r.choice([1, 1, 2, -1])]
        if r.random() < .12:
            p["alloc"] = [r.randrange(12), r.choice([1, 1, 2, -1])]
        pools.append(p)
    size = [3 if p["n"] < 0 else max(1, p["n"]) for p in pools]
    # how many tasks of a pool may block: gates first, then tasks that wait for another one
    gates = [r.choice([0, 0, r.randrange(1, s + 1)]) for s in size]
    waits = [r.randrange(0, s - g + (g > 0)) if s - g + (g > 0) > 0 else 0 for s, g in zip(size, gates)]
    waits = [min(w, s - max(g, 1)) for w, s, g in zip(waits, size, gates)]
    nc = r.choice([1, 1, 2, 3])
    slots = []
    pf = r.choice([0, 0, .1, .3])
    left = {i: gates[i] for i in range(np)}
    wl = {i: waits[i] for i in range(np)}
    ph = [[[], []] for _ in range(nc)]
    total = r.choice([1, 3, 6, 12, 30])
    mine = [[] for _ in range(nc)]

    def add(pool, nested=False):
        k = r.choices([VALUE, THROW, YIELD, NEST, POOL, THROWINT], [6, 2, 4, 0 if nested else 3, .4, .7])[0]
        s = len(slots)
        slots.append(None)
        sub = -1
        arg = r.randrange(100)
        if k == NEST:
            # to the same pool: another one may be gone before this task runs
            sub = add(pool, True)
        if k == YIELD:
            arg = r.choice([1, 3, 10, 40])
        slots[s] = [pool, k, r.randrange(6), arg, sub]
        return s

    for _ in range(total):
        c = r.randrange(nc)
        pool = r.randrange(np)
        s = add(pool)
        if slots[s][1] in (VALUE, YIELD):
            if left[pool] and r.random() < .5:
                slots[s][1] = GATE
                left[pool] -= 1
            elif wl[pool] and r.random() < .5:
                mates = [m for m in mine[c] if slots[m][0] == pool and slots[m][1] != AWAIT]
                if mates:
                    slots[s][1] = AWAIT
                    slots[s][4] = r.choice(mates)
                    wl[pool] -= 1
        mine[c].append(s)
        fail = [r.randrange(9), r.choice([1, 1, 2, -1])] if r.random() < pf else [-1, 0]
        ph[c][0].append([0, s] + fail)
        x = r.random()
        if x < .25 and mine[c]:
            # a get that waits for a gate whose members are not all submitted would be the client's fault
            t = r.choice(mine[c])
            ph[c][0].append([r.choice([3, 5, 5]), t, 0, 0])
        elif x < .4:
            ph[c][0].append([4, r.choice([1, 5, 20, 60]), 0, 0])
    # between submissions, wait only for tasks that depend on nothing still to be submitted
    for c in range(nc):
        out = []
        done = set()
        for o in ph[c][0]:
            out.append(o)
            if o[0] == 0:
                done.add(o[1])
            ok = [s for s in done if slots[s][1] in (VALUE, THROW, YIELD, POOL, THROWINT)]
            # a worker is free for them only if fewer tasks block than there are workers
            if ok and r.random() < .2:
                s = r.choice(ok)
                if gates[slots[s][0]] == 0:
                    out.append([r.choice([1, 2]), s, 0, 0])
        ph[c][0] = out
        allm = mine[c][:]
        r.shuffle(allm)
        for s in allm:
            if r.random() < .7:
                ph[c][1].append([r.choice([1, 1, 2, 3, 5]), s, 0, 0])
            if r.random() < .2:
                ph[c][1].append([4, r.choice([1, 5, 20]), 0, 0])
    ev = []
    dens = r.choice([0, 3, 10, 30, 80])
    for _ in range(r.choice([0, 5, 20, 60, 120]) if dens else 0):
        k = r.choices([0, 1, 2], [8, 2, .4])[0]
        ev.append([int(r.expovariate(1 / dens)), k, r.randrange(8)])
    return {"mode": "pool", "pools": pools, "slots": slots, "clients": ph, "ev": ev, "wakes": [r.randrange(4) for _ in range(r.choice([0, 20]))],
            "order": r.randrange(2), "late": r.randrange(2), "limit": 400000}


def encode(i, p):
    v = [i, p["limit"], len(p["pools"])]
    for q in p["pools"]:
        v += [q["n"]] + q["create"] + q["alloc"]
    v.append(len(p["slots"]))
    for s in p["slots"]:
        v += s
    v.append(len(p["clients"]))
    for c in p["clients"]:
        for ph in c:
            v.append(len(ph))
            for o in ph:
                v += o
    v.append(len(p["ev"]))
    for e in p["ev"]:
        v += e
    v.append(len(p["wakes"]))
    v += p["wakes"]
    v += [p["order"], p["late"]]
    return " ".join(map(str, v)) + "\n"
