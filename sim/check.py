"""check.py PROP [--tier quick|thorough] | --replay FILE | --plans FILE

One check of one property: builds the simulated target from /repo's working tree, runs a
range of seeds over several workers, gates and minimises every violation, writes
evidence/<PROP>.json. Exit 0: held; 1: VIOLATION; 3: the check itself failed."""
import argparse
import collections
import hashlib
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build        # noqa: E402
import targets      # noqa: E402

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Worker:
    def __init__(self, target, env=None):
        self.p = subprocess.Popen(target.cmd(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                  env=env or target.env(), cwd=build.BUILD)

    def job(self, items, deadline=None, batch=40):
        """yields result lines"""
        self.p.stdin.write(json.dumps({"items": items, "deadline": deadline, "batch": batch}) + "\n")
        self.p.stdin.flush()
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError("worker ended (exit %s)" % self.p.wait())
            o = json.loads(l)
            if "end" in o and len(o) == 1:
                return
            yield o

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def summary(o):
    """violation signature of a result: (class, short description)"""
    if o.get("ok"):
        return None
    if "crash" in o:
        e = re.sub(r" hash=[0-9a-f]+", "", o.get("err", ""))
        code = o["crash"]
        m = re.search(r"SUMMARY: AddressSanitizer: (\S+)", e)
        if code == 99 and m:
            fr = ""
            for fn, f, ln in re.findall(r"#\d+ 0x\w+ in (\S+).*?/pyfastutil/src/(\S+?):(\d+)", e)[:1]:
                fr = " in %s (%s)" % (fn, f)
            return "crash", "memory error: %s%s" % (m.group(1), fr)
        m = re.search(r"SIM-(\w+)[^\n]*", e)
        if code == 97:
            return "hang", "the operation did not end within its step budget"
        if code == 98:
            return "gil", m.group(0) if m else "interpreter lock"
        if code == 96:
            return "crash", m.group(0) if m else "uncaught C++ exception"
        if code == -14:
            return "hang", "the run did not end (deadlock or endless loop)"
        if code == 95:
            return "harness", "child failed: " + e[-600:]
        m = re.search(r"(Fatal Python error[^\n]*|Assertion[^\n]*|terminate called[^\n]*)", e)
        return "crash", "process ended with %d %s" % (code, m.group(0) if m else e[-200:])
    return o["cls"], o.get("detail", "")


def klass(o):
    """coarse class that minimisation has to preserve"""
    s = summary(o)
    if s is None:
        return None
    if s[0] == "crash":
        return "crash:" + re.sub(r" in .*", "", s[1])[:60]
    return s[0]


def run_once(target, items, env=None, need_all=False):
    """run plans in one fresh worker process (and one child): result of the last one"""
    w = Worker(target, env)
    res = {}
    try:
        for o in w.job(items, None, len(items)):
            if "j" in o:
                res[o["j"]] = o
                if not o["ok"]:
                    break
    finally:
        w.close()
    if not res:
        return None
    return res[max(res)]


class Minimiser:
    def __init__(self, target, klass_, budget=600, seconds=60):
        self.t = target
        self.k = klass_
        self.budget = budget
        self.end = time.time() + seconds
        self.w = Worker(target)
        self.tried = 0

    def fails(self, plans):
        """index of the first failing plan of the same class, or None"""
        first = None
        plans = list(plans)
        i = 0
        while i < len(plans):
            for o in self.w.job([{"plan": p} for p in plans[i:]], None, 1):
                if "j" in o:
                    self.tried += 1
                    if first is None and klass(o) == self.k:
                        first = i + o["j"]
            break
        return first

    def run(self, plan):
        cur = plan
        progress = True
        while progress and self.budget > self.tried and time.time() < self.end:
            progress = False
            cand = list(self.t.shrink(cur))
            seen = set()
            i = 0
            while i < len(cand) and self.budget > self.tried and time.time() < self.end:
                chunk = cand[i:i + 8]
                f = self.fails(chunk)
                if f is not None:
                    cur = chunk[f]
                    progress = True
                    break
                i += 8
        self.w.close()
        return cur


def load_known():
    """lines 'known: property=<id> match=<regex> :: <what>' (findings) - 'fixed:' lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(.+?) :: (.*)", l)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return out


def canon(plan):
    return {k: v for k, v in plan.items() if not k.startswith("_") and k != "final"}


def gate(target, plan, prefix, want):
    """-> replay items if the violation reproduces identically in fresh processes, else None"""
    for items in ([{"plan": plan}], prefix + [{"plan": plan}] if prefix else None):
        if items is None:
            continue
        rs = [run_once(target, items) for _ in range(2)]
        if any(r is None or r.get("ok") for r in rs):
            continue
        if rs[0].get("j") != rs[1].get("j") or klass(rs[0]) != klass(rs[1]) or rs[0].get("hash") != rs[1].get("hash"):
            continue
        if klass(rs[0]) == want:
            return items, rs[0]
    return None


def replay(path):
    d = json.load(open(path))
    target = targets.get(d["property"])
    target.build()
    o = run_once(target, d["items"])
    s = summary(o) if o else None
    print("replay property=%s expected class=%s" % (d["property"], d["class"]))
    if o is None or o.get("ok"):
        print("did not reproduce")
        return 0
    print("class=%s hash=%s %s" % (klass(o), o.get("hash"), s[1][:2000]))
    if "crash" in o:
        print(o["err"][-6000:])
    if klass(o) == d["class"] and o.get("hash") == d.get("hash"):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 3


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    ap.add_argument("--hashes")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    target = targets.get(a.prop)
    try:
        target.build()
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e)[-4000:])
        return 3
    tb = time.time() - t0
    nruns, secs = target.budget[tier]
    nruns = a.runs or nruns
    secs = a.seconds or secs
    deadline = time.time() + secs
    base = a.seed * 10_000_000
    nw = min(a.workers, os.cpu_count() or 1) if not os.environ.get("SIM_WORKERS") else a.workers
    CH = 200 if nruns >= 4000 else max(8, nruns // (nw * 4))
    lock = threading.Lock()
    nexti = [0]
    results = collections.Counter()
    stats = collections.Counter()
    inters, sigs, cov = set(), set(), set()
    ops = [0]
    faulty = [0]
    nontriv = [0]
    bad = []
    other = collections.Counter()
    otherseeds = {}
    errors = []
    hashes = {}
    stop = threading.Event()
    known = [k for k in load_known() if k[0] == a.prop]
    khits = collections.Counter()

    def loop():
        w = Worker(target)
        try:
            while not stop.is_set() and time.time() < deadline:
                with lock:
                    lo = nexti[0]
                    if lo >= nruns:
                        break
                    nexti[0] = hi = min(lo + CH, nruns)
                items = [{"prop": a.prop, "seed": base + i} for i in range(lo, hi)]
                for o in w.job(items, deadline, target.batch):
                    with lock:
                        if "cov" in o:
                            cov.update(o["cov"])
                            continue
                        if "j" not in o:
                            continue
                        seed = items[o["j"]]["seed"]
                        results["runs"] += 1
                        if o.get("ok") or "hash" in o:
                            if o.get("inter"):
                                inters.add(o["inter"])
                            if o.get("sig") and not o.get("trivial"):
                                sigs.add(o["sig"])
                            ops[0] += o.get("ops", 0)
                            for k, v in (o.get("end") or {}).items():
                                if k not in ("loghash", "cpos") and isinstance(v, int):
                                    stats[k] += v
                            for k, v in (o.get("stats") or {}).items():
                                if isinstance(v, int):
                                    stats[k] += v
                            if a.hashes:
                                hashes[seed] = o.get("hash")
                        if o["ok"]:
                            results["ok"] += 1
                            continue
                        if a.hashes and "crash" in o:
                            hashes[seed] = "crash %s" % klass(o)
                        c, d = summary(o)
                        if c == "harness":
                            errors.append((seed, d))
                        elif not target.relevant(c, d):
                            other[c] += 1
                            otherseeds.setdefault(c, seed)
                        else:
                            kf = next((k for k in known if k[1].search("%s %s" % (c, d))), None)
                            if kf:
                                khits[kf[2]] += 1
                            else:
                                first = items[o.get("b", o["j"]):o["j"]]
                                bad.append((seed, klass(o), d, first))
                        if len(bad) >= 24 and tier == "quick":
                            stop.set()
        except Exception as e:
            with lock:
                errors.append((-1, "worker: %r" % e))
        finally:
            w.close()

    ths = [threading.Thread(target=loop) for _ in range(nw)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    trun = time.time() - t0 - tb
    if a.hashes:
        json.dump({str(k): hashes[k] for k in sorted(hashes)}, open(a.hashes, "w"))

    viol = []
    unrepro = []
    if bad:
        byk = {}
        for b in sorted(bad, key=lambda b: b[0]):
            byk.setdefault(b[1], []).append(b)
        tend = time.time() + 150
        for k, l in byk.items():
            if viol and time.time() > tend - 90:
                break
            for seed, kk, d, prefix in l[:6]:
                plan = canon(target.gen(a.prop, seed))
                g = gate(target, plan, prefix, k)
                if g is None:
                    if d.startswith("the run did not end"):
                        stats["slow_runs"] += 1     # wall clock only: the machine was busy
                        continue
                    unrepro.append((seed, k))
                    if time.time() > tend:
                        break
                    continue
                items, o = g
                mini = items
                if len(items) == 1:
                    m = Minimiser(target, k, seconds=25 if not viol else 10)
                    try:
                        small = canon(m.run(plan))
                    except Exception as e:
                        small = plan
                    g2 = gate(target, small, None, k)
                    if g2:
                        mini, o = g2
                viol.append((seed, k, mini, o))
                break
    for (seed, k, items, o) in viol:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d-%s.json" % (a.prop, seed, hashlib.sha256(k.encode()).hexdigest()[:6]))
        json.dump({"property": a.prop, "seed": seed, "class": k, "hash": o.get("hash"), "what": summary(o)[1], "items": items},
                  open(path, "w"), indent=1)
        print("seed=%d class=%s %s" % (seed, k, summary(o)[1][:1500]))
        if "crash" in o:
            print(o["err"][:3000])
        print("minimised plan: " + json.dumps(items)[:3000])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    for what, n in khits.items():
        print("KNOWN-FINDING: property=%s %s (%d run(s))" % (a.prop, what, n))
    wall = time.time() - t0
    runs = results["runs"]
    sample = [canon(target.gen(a.prop, base + i)) for i in range(2)]
    faults = {k: stats[k] for k in sorted(stats) if k in target.faultkeys}
    ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2),
          "violations": len(viol),
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(sigs), "rule": target.rule,
              "samples": [json.dumps(s)[:4000] for s in sample],
              "runs_per_hour": int(runs / max(trun, .01) * 3600), "seeds": [base, base + nexti[0] - 1],
              "simulated_operations": ops[0], "simulated_steps_basic_blocks": stats.get("steps", 0),
              "distinct_schedules": len(inters), "basic_blocks_reached": len(cov),
              "faults_injected": faults, "counters": {k: stats[k] for k in sorted(stats) if k not in target.faultkeys},
              "other_classes_seen": dict(other), "unreproduced": len(unrepro),
              "real_components": target.real, "stub_components": target.stub,
          },
          "assumptions": target.assumptions}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s tier=%s seed=%d bad=%d runs=%d distinct=%d schedules=%d ops=%d build=%.1fs run=%.1fs faults=%s other=%s" % (
        a.prop, tier, a.seed, len(bad), runs, len(sigs), len(inters), ops[0], tb, trun, json.dumps(faults), otherseeds))
    if viol:
        return 1
    if errors or unrepro or runs == 0:
        for s, d in errors[:5]:
            print("CHECK ERROR seed=%d %s" % (s, d))
        for s, k in unrepro[:5]:
            print("CHECK ERROR seed=%d class=%s did not reproduce" % (s, k))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
