"""Candidate reductions of a list plan, simplest first."""
import copy


def _chunks(n):
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield i, min(i + k, n)
        k //= 2


def _src_positions(op):
    """indices of iterable arguments of an operation"""
    for i, a in enumerate(op):
        if isinstance(a, list) and len(a) >= 2 and isinstance(a[0], str) and a[0] in ("list", "tuple", "other", "deque", "seq", "gen", "iter", "lsub", "tsub", "dict") \
                and isinstance(a[1], list):
            yield i


def op_variants(op):
    """simpler versions of one operation"""
    ex = op[-1] if isinstance(op[-1], dict) else None
    body = op[:-1] if ex is not None else op
    if ex is not None:
        yield body
        for k in list(ex):
            if len(ex) > 1:
                e = {x: y for x, y in ex.items() if x != k}
                yield body + [e]
        cb = ex.get("cb")
        if cb:
            for s in list(cb):
                if len(cb) > 1:
                    e = dict(ex)
                    e["cb"] = {x: y for x, y in cb.items() if x != s}
                    yield body + [e]
                act = cb[s]
                if act[0] == "do":
                    ops = act[1]
                    if len(ops) > 1:
                        for i in range(len(ops)):
                            e = dict(ex)
                            e["cb"] = dict(cb)
                            e["cb"][s] = ["do", ops[:i] + ops[i + 1:]]
                            yield body + [e]
                    for i in range(len(ops)):
                        for v in op_variants(ops[i]):
                            e = dict(ex)
                            e["cb"] = dict(cb)
                            e["cb"][s] = ["do", ops[:i] + [v] + ops[i + 1:]]
                            yield body + [e]
    for i in _src_positions(body):
        vals = body[i][1]
        for lo, hi in _chunks(len(vals)):
            nb = copy.copy(body)
            nb[i] = [body[i][0], vals[:lo] + vals[hi:]] + body[i][2:]
            yield nb + ([ex] if ex is not None else [])
        if body[i][0] != "list":
            nb = copy.copy(body)
            nb[i] = ["list", vals]
            yield nb + ([ex] if ex is not None else [])
    for i, a in enumerate(body):
        if i and isinstance(a, list) and len(a) == 2 and a[0] == "idx":
            nb = copy.copy(body)
            nb[i] = a[1]
            yield nb + ([ex] if ex is not None else [])


def shrink(plan):
    def w(**kw):
        p = dict(plan)
        p.update(kw)
        return p
    cl = plan["clients"]
    if len(cl) > 1:
        for i in range(len(cl)):
            yield w(clients=cl[:i] + cl[i + 1:], first=0, sched=plan["sched"] if len(cl) > 2 else [])
        flat = [o for c in cl for o in c]
        yield w(clients=[flat], sched=[], first=0)
    if plan["sched"]:
        yield w(sched=[])
        yield w(sched=plan["sched"][:len(plan["sched"]) // 2])
    if plan.get("first"):
        yield w(first=0)
    for c in range(len(cl)):
        for lo, hi in _chunks(len(cl[c])):
            if len(cl[c]) - (hi - lo) == 0 and len(cl) == 1 and not plan["init"]:
                continue
            yield w(clients=cl[:c] + [cl[c][:lo] + cl[c][hi:]] + cl[c + 1:])
    ini = plan["init"]
    for lo, hi in _chunks(len(ini)):
        yield w(init=ini[:lo] + ini[hi:])
    for c in range(len(cl)):
        for i in range(len(cl[c])):
            for v in op_variants(cl[c][i]):
                yield w(clients=cl[:c] + [cl[c][:i] + [v] + cl[c][i + 1:]] + cl[c + 1:])
    for i in range(len(ini)):
        for v in op_variants(ini[i]):
            yield w(init=ini[:i] + [v] + ini[i + 1:])
    if "final" not in plan or plan.get("final") != []:
        pass
    s = plan["sched"]
    nz = [i for i, x in enumerate(s) if x]
    if len(nz) <= 24:
        for i in nz:
            yield w(sched=s[:i] + [0] + s[i + 1:])
    if s and s[-1] == 0:
        t = list(s)
        while t and t[-1] == 0:
            t.pop()
        yield w(sched=t)
    if plan.get("dtok"):
        yield w(dtok=[])
    if plan.get("cpu"):
        yield w(cpu=0)


def shrink_ops(plan, key="ops"):
    """generic: a plan whose work is one list of operations, plus integer scripts"""
    def w(**kw):
        p = dict(plan)
        p.update(kw)
        return p
    ops = plan[key]
    for lo, hi in _chunks(len(ops)):
        if hi - lo < len(ops):
            yield w(**{key: ops[:lo] + ops[hi:]})
    for i, o in enumerate(ops):
        if isinstance(o[-1], dict):
            yield w(**{key: ops[:i] + [o[:-1]] + ops[i + 1:]})
    for k in ("sched", "wscript", "rscript", "faults"):
        s = plan.get(k)
        if s:
            yield w(**{k: []})
            yield w(**{k: s[:len(s) // 2]})
            nz = [i for i, x in enumerate(s) if x]
            if len(nz) <= 30:
                for i in nz:
                    yield w(**{k: s[:i] + [0] + s[i + 1:]})


def shrink_clients(plan):
    """a plan of clients, a schedule and integer scripts"""
    def w(**kw):
        p = dict(plan)
        p.update(kw)
        return p
    cl = plan["clients"]
    if len(cl) > 1:
        for i in range(len(cl)):
            yield w(clients=cl[:i] + cl[i + 1:], first=0, sched=plan["sched"] if len(cl) > 2 else [])
        yield w(clients=[[o for c in cl for o in c]], sched=[], first=0)
    for c in range(len(cl)):
        for lo, hi in _chunks(len(cl[c])):
            yield w(clients=cl[:c] + [cl[c][:lo] + cl[c][hi:]] + cl[c + 1:])
    for c in range(len(cl)):
        for i, o in enumerate(cl[c]):
            if isinstance(o[-1], dict):
                yield w(clients=cl[:c] + [cl[c][:i] + [o[:-1]] + cl[c][i + 1:]] + cl[c + 1:])
                if len(o[-1]) > 1:
                    for k in o[-1]:
                        yield w(clients=cl[:c] + [cl[c][:i] + [o[:-1] + [{x: y for x, y in o[-1].items() if x != k}]] + cl[c][i + 1:]] + cl[c + 1:])
    for i, ops in enumerate(plan.get("cbs", [])):
        for j in range(len(ops)):
            yield w(cbs=plan["cbs"][:i] + [ops[:j] + ops[j + 1:]] + plan["cbs"][i + 1:])
    if plan.get("cpu"):
        yield w(cpu=0)
    if plan.get("heap") is not None and plan["mode"] != "asm":
        yield w(heap=None)
    for k in ("sched", "wscript", "rscript", "heap", "vp"):
        s = plan.get(k)
        if s:
            yield w(**{k: []})
            yield w(**{k: s[:len(s) // 2]})
            nz = [i for i, x in enumerate(s) if x]
            if len(nz) <= 30:
                for i in nz:
                    yield w(**{k: s[:i] + [0] + s[i + 1:]})


def shrink_import(plan):
    def w(**kw):
        p = dict(plan)
        p.update(kw)
        return p
    im = plan["imports"]
    for i in range(len(im)):
        yield w(imports=im[:i] + im[i + 1:])
    for i in range(len(im)):
        if im[i][1] != 1:
            yield w(imports=im[:i] + [[im[i][0], 1]] + im[i + 1:])
    o = plan["order"]
    for lo, hi in _chunks(len(o)):
        yield w(order=o[:lo] + o[hi:])
    t = plan["then"]
    if t["init"] or t["clients"] != [[]]:
        yield w(then=dict(t, clients=[[]], init=[], sched=[], first=0))
    for x in shrink(t):
        yield w(then=x)


def shrink_pool(plan):
    """a plan of thread pools: tasks keep their numbers"""
    def w(**kw):
        p = dict(plan)
        p.update(kw)
        return p
    cl = plan["clients"]
    if len(cl) > 1:
        for i in range(len(cl)):
            yield w(clients=cl[:i] + cl[i + 1:])
    for k in ("ev", "wakes"):
        if plan[k]:
            yield w(**{k: []})
    for c in range(len(cl)):
        for ph in (1, 0):
            ops = cl[c][ph]
            for lo, hi in _chunks(len(ops)):
                n = ops[:lo] + ops[hi:]
                gone = {o[1] for o in ops[lo:hi] if o[0] == 0}
                # a gate that is not submitted would leave the others waiting: nothing the pool could do
                if any(plan["slots"][s][1] == 4 for s in gone):
                    continue
                yield w(clients=cl[:c] + [[n, cl[c][1]] if ph == 0 else [cl[c][0], n]] + cl[c + 1:])
    for i, p in enumerate(plan["pools"]):
        for k in ("create", "alloc"):
            if p[k] != [-1, 0]:
                yield w(pools=plan["pools"][:i] + [dict(p, **{k: [-1, 0]})] + plan["pools"][i + 1:])
    for c in range(len(cl)):
        for i, o in enumerate(cl[c][0]):
            if o[0] == 0 and o[2:] != [-1, 0]:
                yield w(clients=cl[:c] + [[cl[c][0][:i] + [[0, o[1], -1, 0]] + cl[c][0][i + 1:], cl[c][1]]] + cl[c + 1:])
    for i, s in enumerate(plan["slots"]):
        if s[1] in (1, 2, 3, 6, 7) and s[1:] != [0, s[2], s[3], -1]:
            yield w(slots=plan["slots"][:i] + [[s[0], 0, s[2], s[3], -1]] + plan["slots"][i + 1:])
        if s[2]:
            yield w(slots=plan["slots"][:i] + [[s[0], s[1], 0, s[3], s[4]]] + plan["slots"][i + 1:])
    ev = plan["ev"]
    for lo, hi in _chunks(len(ev)):
        # what is left keeps its place: the gaps of the removed ones go to the next
        rest = [list(e) for e in ev[hi:]]
        if rest:
            rest[0][0] += sum(e[0] + 1 for e in ev[lo:hi])
        yield w(ev=ev[:lo] + rest)
    if plan["late"]:
        yield w(late=0)
