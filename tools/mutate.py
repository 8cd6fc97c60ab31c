"""Sensitivity probe: plants small random changes (deleted statements, flipped conditions, off-by-one,
dropped reference counts...) one at a time in a copy of the sources and reports which of them no
check notices.   mutate.py LANE LANES SEED COUNT [file-substring...]    (never touches /repo)
Survivors are then looked at by hand: equivalent, outside every property, or a hole in a check."""
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(os.path.dirname(HERE), "sim")
lane, lanes, seed, count = map(int, sys.argv[1:5])
only = sys.argv[5:]
W = os.environ.get("MUT_WORKERS", "2")
RUNS = int(os.environ.get("MUT_RUNS", "2500"))
ROOT = "/tmp/mutlane%d" % lane
BASE = "/tmp/mutbase"
SRCSUB = "pyfastutil/src"
PROPS = [("ints/IntLinkedList", "C02 C09 C12 C08 C10 C07 C05"), ("ints/IntIntHashMap", ""), ("ints/", "C01 C09 C12 C11 C08 C06 C10 C05 C07"),
         ("objects/ObjectLinkedList", "C04 C09 C12 C08 C10 C07 C05"), ("objects/", "C03 C09 C12 C08 C10 C07 C05"),
         ("unsafe/Unsafe", "C13 C16 C17"), ("unsafe/ASM", "C14 C17"), ("PyFastUtil.cpp", "C17 C01"),
         ("thread/", "C15"), ("include/TimSort", "C05 C01"), ("include/CPythonSort", "C05 C03"), ("memory/", "C01 C03 C13 C14"), ("utils/", "C01 C03 C05 C13")]


def props(f):
    return next((p for k, p in PROPS if k in f), "").split()


OPS = [
    (r"^(\s*)(Py_X?INCREF|SAFE_DECREF|Py_X?DECREF|SAFE_DECREF_FREE)\((.*)\);\s*$", lambda m: m.group(1) + ";"),
    (r"^(\s*)(self->modCount\+\+|.*exports?(\+\+|--)|\+\+.*|--.*|[\w>.-]+(\+\+|--));\s*$", lambda m: m.group(1) + ";"),
    (r"^(\s*)(PyErr_Clear\(\)|.*\.clear\(\)|.*\.unlock\(\)|.*notify_\w+\(\)|.*\.join\(\)|.*\.pop_?\w*\(\)|.*\.erase\(.*\)|.*\.reserve\(.*\)|.*\.swap\(.*\)|.*\.resize\(.*\));\s*$", lambda m: m.group(1) + ";"),
    (r"^(\s*)if \((.*)\) \{\s*$", lambda m: m.group(1) + "if (false && (%s)) {" % m.group(2)),
    (r"^(\s*)if \((.*)\) \{\s*$", lambda m: m.group(1) + "if (true || (%s)) {" % m.group(2)),
    (r"^(\s*)if \((.*)\) ([^{]*;)\s*$", lambda m: m.group(1) + ";"),
    (r" < ", lambda m: " <= "), (r" <= ", lambda m: " < "), (r" > ", lambda m: " >= "), (r" >= ", lambda m: " > "),
    (r" == ", lambda m: " != "), (r" != ", lambda m: " == "),
    (r" && ", lambda m: " || "), (r" \|\| ", lambda m: " && "),
    (r" \+ ", lambda m: " - "), (r" - ", lambda m: " + "), (r" \* sizeof", lambda m: " + sizeof"),
    (r"(?<![\w.])0(?![\w.])", lambda m: "1"), (r"(?<![\w.])1(?![\w.])", lambda m: "2"), (r"(?<![\w.])1(?![\w.])", lambda m: "0"), (r"-1(?!\w)", lambda m: "0"),
    (r"return nullptr;", lambda m: "Py_RETURN_NONE;"), (r"return -1;", lambda m: "return 0;"), (r"return PyErr_NoMemory\(\);", lambda m: "return nullptr;"),
    (r"^(\s*)return ([^;]*);\s*$", lambda m: m.group(1) + ";"),
    (r"\btrue\b", lambda m: "false"), (r"\bfalse\b", lambda m: "true"),
    (r"std::(min|max)\b", lambda m: "std::max" if m.group(1) == "min" else "std::min"),
    (r"^(\s*)(\w[\w:<>\[\]\.\-\(\)\* ]* = [^;]*);\s*$", lambda m: m.group(1) + ";"),
    (r"^(\s*)([\w:>\.\-]+\([^;]*\));\s*$", lambda m: m.group(1) + ";"),
    (r"^(\s*)([\w:>\.\-]+\([^;{}]*\));\s*$", lambda m: m.group(0) + " " + m.group(2) + ";"),
    (r"^(\s*)([^;{}]*);\s*$", "SWAP"), (r"^(\s*)([^;{}]*);\s*$", "SWAP"), (r"^(\s*)([^;{}]*);\s*$", "SWAP"),
    (r"\+\+", lambda m: "--"), (r" \+= ", lambda m: " -= "), (r" \+= ", lambda m: " = "),
]


def candidates():
    files = []
    for r, d, fs in os.walk("/repo/" + SRCSUB):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), "/repo/" + SRCSUB)
            if "SIMDLow" in p or "IntIntHashMap" in p or "UnorderedDense" in p or not props(p) or (only and not any(o in p for o in only)):
                continue
            files.append(p)
    out = []
    for p in sorted(files):
        depth = False
        for i, l in enumerate(open("/repo/%s/%s" % (SRCSUB, p)).read().split("\n")):
            s = l.strip()
            if not s or s.startswith(("//", "#", "*", "/*", "static_assert", "static PyMethodDef", "{\"", "extern")) or "static PyObject *" in s:
                continue
            for k, (pat, rep) in enumerate(OPS):
                for m in re.finditer(pat, l):
                    out.append((p, i, k, m.start()))
    return out


def mutate(text, i, k, pos):
    ls = text.split("\n")
    pat, rep = OPS[k]
    if rep == "SWAP":       # two neighbouring statements (or three lines apart)
        for j in (i + 1, i + 2, i + 3):
            if j < len(ls) and re.match(pat, ls[j]) and re.match(pat, ls[i]) and re.match(pat, ls[j]).group(1) == re.match(pat, ls[i]).group(1):
                ls[i], ls[j] = ls[j], ls[i]
                return "\n".join(ls), "SWAP " + ls[i].strip() + " <-> " + ls[j].strip()
        ls[i] += "#"        # does not compile: no neighbour
        return "\n".join(ls), ls[i]
    for m in re.finditer(pat, ls[i]):
        if m.start() == pos:
            ls[i] = ls[i][:m.start()] + rep(m) + ls[i][m.end():]
            return "\n".join(ls), ls[i]


sys.path.insert(0, SIM)
os.environ["SIM_REPO"] = ROOT
os.environ["SIM_BUILD"] = ROOT + "/build"
shutil.rmtree(ROOT, ignore_errors=True)
os.makedirs(ROOT + "/build")
subprocess.check_call("git -C /repo archive HEAD pyfastutil/src | tar x -C " + ROOT, shell=True)
import build      # noqa: E402
import targets    # noqa: E402
import check      # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


inc = ["-I" + build.SRC] + build.pyinc()
fake = os.path.join(SIM, "fakewin")
OBJ = ROOT + "/obj"
os.makedirs(OBJ)


def command(f, o, win=False):
    if os.path.getsize(f) > 600_000:
        c = ["g++", "-O0", "-std=c++20"] + [x for x in build.BASE if x != "-g1"] + inc
    elif f.endswith(".c"):
        c = ["gcc", "-O1", "-std=gnu17"] + build.BASE + build.SAN + inc
    else:
        c = ["g++", "-O1", "-std=c++20"] + build.BASE + build.SAN + inc
    if win:
        c += ["-DWIN64", "-fpermissive", "-I" + fake]
    return c + ["-MMD", "-MF", o + ".d", "-c", f, "-o", o]


units = []      # (file, object, win)
for i, f in enumerate(x for x in build.sources() if x.endswith((".cpp", ".c"))):
    o = "%s/%02d_%s.o" % (OBJ, i, os.path.basename(f))
    units.append((f, o, False))
    if f.endswith("ASM.cpp"):
        units.append((f, o[:-2] + "_win.o", True))
for f, o, w in units:
    r = sh(command(f, o, w))
    assert r.returncode == 0, r.stderr[-2000:]
sh(["g++", "-O2", "-std=c++20"] + build.BASE + inc + ["-c", SIM + "/shim.cpp", "-o", OBJ + "/shim.o"])
deps = {o: open(o + ".d").read() for _, o, _ in units}


def rebuild(path, n):
    """objects that depend on path -> shared objects or None"""
    full = os.path.join(build.SRC, path)
    mine = {}
    for f, o, w in units:
        if full in deps[o].replace("\\\n", " ").split() or f == full:
            no = "%s/m%d_%s" % (ROOT, n, os.path.basename(o))
            r = sh(command(f, no, w))
            if r.returncode:
                return None, mine
            mine[o] = no
    so, asm = "%s/m%d_sim.so" % (ROOT, n), "%s/m%d_asm.so" % (ROOT, n)
    for target, wins in ((so, False), (asm, True)):
        if wins and "ASM" not in path and "memory" not in path:
            continue
        objs = []
        for f, o, w in units:
            if f.endswith("ASM.cpp") and w != wins:
                continue
            objs.append(mine.get(o, o))
        r = sh(["g++", "-shared", "-o", target] + objs + [OBJ + "/shim.o", "-fsanitize=address"] + ["-Wl,--wrap=" + x for x in build.WRAP] + ["-Wl,-Bsymbolic"])
        if r.returncode:
            return None, mine
    return (so, asm), mine


def hunt(prop, runs):
    """first relevant violation of a few seeds"""
    t = targets.get(prop)
    found = []
    state = {"next": 0, "other": 0}
    lock = threading.Lock()

    def loop():
        w = check.Worker(t)
        try:
            while not found:
                with lock:
                    lo = state["next"]
                    if lo >= runs:
                        return
                    state["next"] += 50
                items = [{"prop": prop, "seed": 10_000_000 + s} for s in range(lo, lo + 50)]
                for o in w.job(items, None, t.batch):
                    if "j" in o and not o["ok"]:
                        c, d = check.summary(o)
                        if t.relevant(c, d):
                            found.append((items[o["j"]]["seed"], c, d[:150]))
        except Exception as e:
            found.append((-1, "worker", repr(e)[:100]))
        finally:
            try:
                w.close()
            except Exception:
                pass
    ths = [threading.Thread(target=loop) for _ in range(int(W))]
    for x in ths:
        x.start()
    for x in ths:
        x.join()
    return found[0] if found else None


cand = candidates()
r = random.Random(seed)
byfile = {}
for c in cand:
    byfile.setdefault(c[0], []).append(c)
# weight: square root of the number of places
fs = sorted(byfile)
chosen = []
seen = set()
while len(chosen) < count * lanes and len(seen) < len(cand):
    f = r.choices(fs, [len(byfile[x]) ** .5 for x in fs])[0]
    c = r.choice(byfile[f])
    if c not in seen:
        seen.add(c)
        chosen.append(c)
for n, (p, i, k, pos) in enumerate(chosen):
    if n % lanes != lane:
        continue
    full = os.path.join(build.SRC, p)
    orig = open(full).read()
    text, line = mutate(orig, i, k, pos)
    t0 = time.time()
    open(full, "w").write(text)
    verdict = None
    try:
        if "thread/" in p:
            try:
                build.build_pool()
            except build.BuildError:
                verdict = "NOBUILD"
            sos, tmp = (None, {})
        else:
            sos, tmp = rebuild(p, n)
            if sos is None:
                verdict = "NOBUILD"
            else:
                build.build_list = lambda: sos[0]
                build.build_asm = lambda: sos[1]
        if verdict is None:
            for q in props(p):
                targets.get(q).build()
                v = hunt(q, min(RUNS * (4 if q == "C15" else 1), 600 if q == "C17" else 10 ** 9))
                if v:
                    verdict = "killed %s %s %s" % (q, v[1], v[2].replace("\n", " ")[:80])
                    break
            else:
                verdict = "SURVIVED"
        for x in list(tmp.values()) + (list(sos) if sos else []):
            for y in (x, x + ".d"):
                if os.path.exists(y):
                    os.unlink(y)
        for y in os.listdir(ROOT + "/build"):
            if y.startswith("pool-"):
                subprocess.call(["rm", "-rf", os.path.join(ROOT, "build", y)])
    finally:
        open(full, "w").write(orig)
    print("%s:%d op%d [%s] -> [%s] :: %s (%.0fs)" % (p, i + 1, k, orig.split("\n")[i].strip()[:100], line.strip()[:100], verdict, time.time() - t0), flush=True)
