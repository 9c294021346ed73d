"""Build the instrumented copy of philtorch's native extension from /repo's
current working tree (sources are compiled out of tree; /repo is not written)."""
import glob, hashlib, os, subprocess, sys, sysconfig, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/venv/bin/python"

REDEF = {
    "memcpy": "simrt_memcpy", "memmove": "simrt_memmove", "memset": "simrt_memset",
    "_Znwm": "simrt_new", "_Znam": "simrt_new_arr", "malloc": "simrt_malloc",
    "aligned_alloc": "simrt_aligned_alloc", "calloc": "simrt_calloc",
    "_ZnwmSt11align_val_t": "simrt_new_al", "_ZnamSt11align_val_t": "simrt_new_arr_al",
    "pthread_mutex_lock": "simrt_mutex_lock", "pthread_mutex_trylock": "simrt_mutex_trylock",
    "pthread_mutex_unlock": "simrt_mutex_unlock", "__cxa_guard_acquire": "simrt_guard_acquire",
    "__cxa_guard_release": "simrt_guard_release", "__cxa_guard_abort": "simrt_guard_abort",
    "_ZN2at15get_num_threadsEv": "simrt_at_get_num_threads",
    "_ZN2at18in_parallel_regionEv": "simrt_at_in_parallel_region",
}


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + p.stdout[-4000:])
    return p.stdout


def torch_dir():
    for p in glob.glob("/opt/venv/lib/python3*/site-packages/torch"):
        return p
    raise BuildError("torch not found")


def build(verbose=False):
    src = sorted(glob.glob(os.path.join(REPO, "philtorch", "csrc", "*.cpp")))
    dep = sorted(f for f in glob.glob(os.path.join(REPO, "philtorch", "csrc", "**", "*"), recursive=True)
                 if os.path.isfile(f) and not f.endswith(".cu"))
    td = torch_dir()
    h = hashlib.sha256()
    for f in dep + [os.path.join(VERIF, "simrt", "simrt.cpp"), os.path.abspath(__file__), os.path.join(td, "version.py")]:
        h.update(os.path.relpath(f, "/").encode() + b"\0" + open(f, "rb").read() + b"\0")
    key = h.hexdigest()[:20]
    out = os.path.join(CACHE, "ext-" + key)
    so = os.path.join(out, "_C.so")
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        os.makedirs(out, exist_ok=True)
        inc = ["-isystem", td + "/include", "-isystem", td + "/include/torch/csrc/api/include",
               "-I" + sysconfig.get_path("include") if False else "-I/usr/include/python3.12",
               "-I" + os.path.join(REPO, "philtorch", "csrc")]
        common = ["g++", "-std=c++20", "-fPIC", "-w", "-g0", "-DTORCH_EXTENSION_NAME=_C", "-DTORCH_API_INCLUDE_EXTENSION_H"]
        if os.path.exists("/opt/venv/include/python3.12"):
            inc += ["-I/opt/venv/include/python3.12"]

        def comp(i_f):
            i, f = i_f
            o = os.path.join(out, f"k{i}_{os.path.basename(f)}.o")
            _run(common + ["-O1", "-DNDEBUG", "-fopenmp", "-fsanitize=thread", "-fstack-protector-all", "-fno-builtin-memcpy",
                           "-fno-builtin-memmove", "-fno-builtin-memset"] + inc + ["-c", f, "-o", o])
            args = ["objcopy"]
            for a, b in REDEF.items():
                args.append(f"--redefine-sym={a}={b}")
            _run(args + [o])
            return o

        def rt(_):
            o = os.path.join(out, "simrt.o")
            _run(common + ["-O2"] + inc + ["-c", os.path.join(VERIF, "simrt", "simrt.cpp"), "-o", o])
            return o

        with ThreadPoolExecutor(8) as ex:
            r = ex.submit(rt, 0)
            objs = list(ex.map(comp, list(enumerate(src))))
            objs.append(r.result())
        tmp = so + ".tmp"
        _run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", tmp] + objs +
             ["-L" + td + "/lib", "-lc10", "-ltorch_cpu", "-ltorch", "-lpthread", "-ldl"])
        und = _run(["nm", "-D", "--undefined-only", tmp])
        bad = [l.split()[-1] for l in und.splitlines()
               if l.split() and (l.split()[-1].startswith(("GOMP_", "omp_", "__tsan_", "pthread_create", "_ZNSt6thread")))]
        bad = [b for b in bad if not b.startswith("pthread_create")]
        if bad:
            raise BuildError("constructs the simulator does not control: " + ", ".join(bad))
        for o in objs:
            os.unlink(o)
        os.rename(tmp, so)
    return so


if __name__ == "__main__":
    print(build(True))
