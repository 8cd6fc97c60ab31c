"""Child of check.py: loads the instrumented extension once, then forks one process per
batch of runs. Protocol: JSON lines on stdin (jobs) and stdout (results)."""
import json
import os
import signal
import sys
import time
import mmap
import struct

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    mode, so = sys.argv[1], sys.argv[2]
    import rt
    if mode != "import":
        rt.load(so)
    if mode == "list":
        import gen
        make, run_plan = gen.make, rt.run_plan
    elif mode == "unsafe":
        import genu
        import rtu
        rtu.init()
        make, run_plan = genu.make, rtu.run_plan
    elif mode == "asm":
        import gena
        import rta
        rta.init()
        make, run_plan = gena.make, rta.run_plan
    elif mode == "import":
        import geni
        import rti
        rti.init(so)
        make, run_plan = geni.make, rti.run_plan
    import gc
    gc.collect()
    gc.freeze()
    sys.setswitchinterval(1000)
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open("/dev/null", os.O_WRONLY)
    os.dup2(devnull, 1)
    shm = mmap.mmap(-1, 4096)

    def child(plans, wfd, efd):
        os.dup2(efd, 2)
        rt.ctl.reportfd(2)
        w = os.fdopen(wfd, "w", buffering=1)

        def progress(i):
            struct.pack_into("q", shm, 8, i)
        for j, item in plans:
            struct.pack_into("qq", shm, 0, j, 0)
            signal.alarm(120)
            plan = make(item["prop"], item["seed"]) if "seed" in item and "plan" not in item else item["plan"]
            signal.alarm(150 if plan.get("limit") else 80)
            try:
                o = run_plan(plan, progress)
            except BaseException as e:
                import traceback
                o = {"ok": False, "cls": "harness", "detail": "".join(traceback.format_exception(e))[-3000:], "hash": ""}
            o["j"] = j
            w.write(json.dumps(o, default=str) + "\n")
            if not o["ok"]:
                break
        cov = rt.ctl.cov()
        w.write(json.dumps({"cov": [i for i, b in enumerate(cov) if b]}) + "\n")
        w.flush()
        os._exit(0)

    for line in sys.stdin:
        job = json.loads(line)
        items = list(enumerate(job["items"]))
        deadline = job.get("deadline")
        while items:
            if deadline and time.time() > deadline:
                break
            batch = items[:job.get("batch", 40)]
            r, w = os.pipe()
            er, ew = os.pipe()
            os.set_blocking(er, False)
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.close(er)
                try:
                    child(batch, w, ew)
                finally:
                    os._exit(95)
            os.close(w)
            os.close(ew)
            done = 0
            last = -1
            err = b""
            with os.fdopen(r) as f:
                import selectors
                sel = selectors.DefaultSelector()
                sel.register(r, selectors.EVENT_READ, "r")
                sel.register(er, selectors.EVENT_READ, "e")
                os.set_blocking(r, False)
                buf = b""
                open_ = {"r", "e"}
                while open_:
                    for k, _ in sel.select():
                        try:
                            d = os.read(k.fd, 65536)
                        except BlockingIOError:
                            continue
                        if not d:
                            sel.unregister(k.fd)
                            open_.discard(k.data)
                            continue
                        if k.data == "e":
                            if len(err) < 60000:
                                err += d
                        else:
                            buf += d
                            while b"\n" in buf:
                                ln, buf = buf.split(b"\n", 1)
                                o = json.loads(ln)
                                if "j" in o:
                                    last = o["j"]
                                    o["b"] = batch[0][0]
                                    done += 1
                                out.write(json.dumps(o) + "\n")
            os.close(er)
            _, st = os.waitpid(pid, 0)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                if done:
                    items = [x for x in items if x[0] > last]
                else:
                    items = items[len(batch):]
                continue
            j, step = struct.unpack_from("qq", shm, 0)
            code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
            out.write(json.dumps({"j": j, "b": batch[0][0], "ok": False, "crash": code, "step": step, "err": err.decode("utf8", "replace")[-30000:]}) + "\n")
            items = [x for x in items if x[0] > j]
        out.write(json.dumps({"end": 1}) + "\n")


main()
