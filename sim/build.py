"""Builds the simulated targets from /repo's working tree into /verif/.build/<hash>/.

list  : the whole extension module, instrumented (address checker, block callbacks,
        wrapped allocator / interpreter-lock / stdio), linked with the simulator kernel.
asm   : ASM.cpp + Unsafe.cpp compiled as on Windows against the simulated windows.h
pool  : the thread pool with the simulated pthread scheduler
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "pyfastutil", "src")
PY = "/opt/vp/venv/bin/python" if os.path.exists("/opt/vp/venv/bin/python") else "python3"
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))

ARCH = ["-mavx", "-mavx2", "-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl"]
BASE = ["-fPIC", "-fno-tree-vectorize", "-fvisibility=hidden", "-w", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG"] + ARCH
SAN = ["-fwrapv", "-fsanitize=address", "-fsanitize-coverage=trace-pc"]
WRAP = ["memmove", "memcpy", "memcmp", "malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free",
        "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t",
        "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t",
        "PyEval_SaveThread", "PyEval_RestoreThread", "pthread_mutex_lock", "pthread_mutex_unlock"]


def pyinc():
    out = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                         capture_output=True, text=True, check=True).stdout.strip()
    return ["-I" + out]


def sources():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(root, f))
    return out


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("$ " + " ".join(cmd) + "\n" + p.stdout + p.stderr[-6000:])


def locked_dir(key):
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, key)
    lock = open(os.path.join(BUILD, key + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    return d, lock


def compile_all(d, units, jobs=8):
    """units: list of (src, obj, cmd)"""
    # slowest first
    units = sorted(units, key=lambda u: -os.path.getsize(u[0]))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda u: run(u[2]), units))


def build_asm():
    """the extension with ASM.cpp compiled as for 64-bit Windows"""
    so = os.path.join(os.path.dirname(build_list()), "asmext.so")
    if not os.path.exists(so):
        raise BuildError(open(so + ".err").read() if os.path.exists(so + ".err") else "asmext.so was not built")
    return so


def build_list():
    files = [f for f in sources() if f.endswith((".cpp", ".c", ".h", ".hpp"))]
    fake = os.path.join(VERIF, "sim", "fakewin")
    mine = [os.path.join(VERIF, "sim", "shim.cpp"), os.path.abspath(__file__), os.path.join(fake, "windows.h")]
    d, lock = locked_dir("list-" + digest(files + mine, "list"))
    so = os.path.join(d, "simext.so")
    if os.path.exists(so):
        return so
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inc = ["-I" + SRC] + pyinc()
    units, objs = [], []
    win = None
    for i, f in enumerate(x for x in files if x.endswith((".cpp", ".c"))):
        o = os.path.join(d, "%02d_%s.o" % (i, os.path.basename(f)))
        objs.append(o)
        if os.path.getsize(f) > 600_000:      # the generated AVX-512 wrappers: not under simulation
            cmd = ["g++", "-O0", "-std=c++20"] + [x for x in BASE if x != "-g1"] + inc + ["-c", f, "-o", o]
        elif f.endswith(".c"):
            cmd = ["gcc", "-O1", "-std=gnu17"] + BASE + SAN + inc + ["-c", f, "-o", o]
        else:
            cmd = ["g++", "-O1", "-std=c++20"] + BASE + SAN + inc + ["-c", f, "-o", o]
        units.append((f, o, cmd))
        if os.path.basename(f) == "ASM.cpp":
            wobj = o[:-2] + "_win.o"
            win = (f, o, wobj, ["sh", "-c", '"$@" 2>"$0.err" || rm -f "$0"', wobj] + cmd[:-3] + ["-DWIN64", "-fpermissive", "-I" + fake, "-c", f, "-o", wobj])
            units.append((f, wobj, win[3]))
    so_shim = os.path.join(d, "shim.o")
    units.append((mine[0], so_shim, ["g++", "-O2", "-std=c++20"] + BASE + inc + ["-c", mine[0], "-o", so_shim]))
    compile_all(d, units)
    tmp = so + ".tmp"
    links = [["g++", "-shared", "-o", tmp] + objs]
    asm = os.path.join(d, "asmext.so")
    if win and os.path.exists(win[2]):
        links.append(["g++", "-shared", "-o", asm] + [win[2] if o == win[1] else o for o in objs])
    elif win:
        os.rename(win[2] + ".err", asm + ".err")
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(run, [l + [so_shim, "-fsanitize=address"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-Wl,-Bsymbolic"] for l in links]))
    for o in objs + [so_shim] + ([win[2]] if win and os.path.exists(win[2]) else []):
        os.unlink(o)
    os.rename(tmp, so)
    return so


POOLWRAP = ["pthread_create", "pthread_join", "pthread_detach", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
            "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast",
            "pthread_once", "sched_yield", "nanosleep", "clock_nanosleep", "clock_gettime", "get_nprocs", "syscall",
            "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock"]


def build_pool():
    """the thread pool (utils/thread) under the simulated pthread scheduler: an executable"""
    th = os.path.join(SRC, "utils", "thread")
    files = [f for f in sources() if f.endswith((".cpp", ".h", ".hpp"))]
    pool = os.path.join(VERIF, "sim", "pool")
    mine = [os.path.join(pool, f) for f in sorted(os.listdir(pool)) if f.endswith((".cpp", ".h"))]
    d, lock = locked_dir("pool-" + digest(files + mine + [os.path.abspath(__file__)], "pool"))
    exe = os.path.join(d, "pool")
    if os.path.exists(exe):
        return exe
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    flags = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-I" + SRC, "-I" + pool, "-fsanitize=address"]
    units = []
    for f in sorted(os.path.join(th, x) for x in os.listdir(th) if x.endswith(".cpp")) + [m for m in mine if m.endswith(".cpp")]:
        o = os.path.join(d, os.path.basename(f) + ".o")
        cov = ["-fsanitize-coverage=trace-pc"] if f.startswith(th) or f.endswith("use.cpp") else []
        units.append((f, o, ["g++"] + flags + cov + ["-c", f, "-o", o]))
    compile_all(d, units)
    run(["g++", "-fsanitize=address", "-static-libstdc++"] + ["-Wl,--wrap=" + w for w in POOLWRAP] + [u[1] for u in units] + ["-o", exe + ".tmp"])
    for u in units:
        os.unlink(u[1])
    os.rename(exe + ".tmp", exe)
    return exe


def asan_env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    cpp = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ)
    env.update(LD_PRELOAD=os.path.realpath(lib) + " " + os.path.realpath(cpp),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:"
                            "handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=6:"
                            "quarantine_size_mb=16:thread_local_quarantine_size_kb=64:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                            "max_free_fill_size=4096:free_fill_byte=221:alloc_dealloc_mismatch=1:strict_string_checks=0:"
                            "symbolize=1:fast_unwind_on_malloc=1:detect_odr_violation=0",
               PYTHONMALLOC="malloc", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
               PYTHONPATH="", LC_ALL="C.UTF-8")
    return env


if __name__ == "__main__":
    print(build_list())
