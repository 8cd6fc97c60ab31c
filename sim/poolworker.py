"""Child of check.py for the thread pool: feeds plans to the simulated executable, one process per
batch. Speaks the protocol of worker.py."""
import json
import os
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import genp     # noqa: E402


def sig(plan):
    import hashlib
    return hashlib.sha256(json.dumps([plan["pools"], [s[:3] for s in plan["slots"]], [[[o[0] for o in ph] for ph in c] for c in plan["clients"]],
                                      plan["order"], plan["late"]]).encode()).hexdigest()[:16]


def main():
    exe = sys.argv[1]
    out = sys.stdout
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:malloc_context_size=4:"
                                        "quarantine_size_mb=8:handle_abort=1:symbolize=1")
    env.pop("LD_PRELOAD", None)
    for line in sys.stdin:
        job = json.loads(line)
        items = list(enumerate(job["items"]))
        deadline = job.get("deadline")
        cov = set()
        while items:
            if deadline and time.time() > deadline:
                break
            batch = items[:job.get("batch", 200)]
            plans = {j: it["plan"] if "plan" in it else genp.make(it["prop"], it["seed"]) for j, it in batch}
            with tempfile.TemporaryFile("w+") as ef:
                p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=ef, text=True, env=env)
                o, _ = p.communicate("".join(genp.encode(j, plans[j]) for j, _ in batch))
                ef.seek(0)
                err = ef.read(30000)
            last = batch[0][0]
            res = None
            for l in o.splitlines():
                w = l.split(" ", 4)
                if w[0] == "B":
                    last, res = int(w[1]), None
                elif w[0] == "C":
                    cov.update(int(x) for x in l.split()[1:])
                elif w[0] == "R" and w[2] == "1":
                    w = l.split()
                    st = {k: int(v) for k, v in (x.split("=") for x in w[4:])}
                    res = {"j": last, "b": batch[0][0], "ok": True, "hash": w[3], "inter": w[3], "sig": sig(plans[last]),
                           "ops": st["accepted"] + st["refused"] + st["gets"], "stats": st}
                    out.write(json.dumps(res) + "\n")
                elif w[0] == "R":
                    res = {"j": last, "b": batch[0][0], "ok": False, "hash": w[3], "cls": w[4].split(" ", 1)[0], "detail": w[4].split(" ", 1)[1]}
                    out.write(json.dumps(res) + "\n")
            if p.returncode not in (0, 93) and res is None:
                r = {"j": last, "b": batch[0][0], "ok": False, "crash": p.returncode, "step": 0, "err": err}
                h = err.rfind(" hash=")
                if p.returncode in (96, 97) and h >= 0:
                    r["hash"] = err[h + 6:].split()[0]
                out.write(json.dumps(r) + "\n")
            items = [x for x in items if x[0] > last]
        out.write(json.dumps({"cov": sorted(cov)}) + "\n")
        out.write(json.dumps({"end": 1}) + "\n")
        out.flush()


main()
