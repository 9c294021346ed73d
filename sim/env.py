"""Process bootstrap: imports philtorch from /repo's working tree with the
instrumented extension and the simulated allocator; no real nondeterminism left
that a run could depend on."""
import ctypes, importlib.abc, importlib.machinery, importlib.util, os, sys, warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == "philtorch._C":
            loader = importlib.machinery.ExtensionFileLoader(name, self.path)
            return importlib.util.spec_from_file_location(name, self.path, loader=loader)
        return None


class Rt:
    """ctypes view of simrt"""

    def __init__(self, so):
        L = self.L = ctypes.CDLL(so)
        u64, i64, p = ctypes.c_uint64, ctypes.c_int64, ctypes.c_void_p
        for n, res, args in [
            ("sim_violation", ctypes.c_char_p, []), ("sim_violation_count", ctypes.c_int, []), ("sim_violation_clear", None, []),
            ("sim_install_allocator", ctypes.c_int, []), ("sim_alloc_fill", None, [ctypes.c_int, u64]),
            ("sim_alloc_fail_at", None, [i64]), ("sim_alloc_recycle", None, [ctypes.c_int]), ("sim_alloc_recycled", u64, []), ("sim_alloc_failed", u64, []), ("sim_alloc_count", u64, []),
            ("sim_alloc_live_bytes", u64, []), ("sim_alloc_live_count", u64, []), ("sim_in_arena", ctypes.c_int, [p]),
            ("sim_call_begin", None, [ctypes.POINTER(p), ctypes.c_int]), ("sim_call_end", None, []),
            ("sim_omp_config", None, [ctypes.c_int, ctypes.c_int, u64, ctypes.c_double, ctypes.c_int, u64]),
            ("sim_omp_explicit", None, [ctypes.POINTER(i64), ctypes.POINTER(i64), ctypes.c_int]),
            ("sim_omp_trace", ctypes.c_int, [ctypes.POINTER(i64), ctypes.POINTER(i64), ctypes.c_int]),
            ("sim_omp_stats", None, [ctypes.POINTER(u64)]), ("sim_caller_register", None, [ctypes.c_int, i64]),
            ("sim_caller_mode", None, [p]), ("sim_caller_count", i64, []), ("sim_heap_fail_at", None, [i64]),
            ("sim_heap_count", u64, []), ("sim_omp_cap", None, [ctypes.c_int]),
        ]:
            f = getattr(L, n)
            f.restype, f.argtypes = res, args

    def violation(self):
        return self.L.sim_violation().decode()

    def clear(self):
        self.L.sim_violation_clear()

    def fill(self, mode, seed=1):
        self.L.sim_alloc_fill(mode, seed & (2 ** 64 - 1))

    def omp(self, nthreads=1, strat=0, seed=1, prob=0.1, depth=2, length=1000, explicit=None, cap=0):
        self.L.sim_omp_cap(cap)
        self.L.sim_omp_config(nthreads, 4 if explicit is not None else strat, seed & (2 ** 64 - 1), prob, depth, length)
        if explicit is not None:
            n = len(explicit)
            s = (ctypes.c_int64 * max(n, 1))(*[e[0] for e in explicit])
            t = (ctypes.c_int64 * max(n, 1))(*[e[1] for e in explicit])
            self.L.sim_omp_explicit(s, t, n)

    def trace(self, cap=200000):
        s = (ctypes.c_int64 * cap)()
        t = (ctypes.c_int64 * cap)()
        n = self.L.sim_omp_trace(s, t, cap)
        return [[s[i], t[i]] for i in range(min(n, cap))], n

    def stats(self):
        a = (ctypes.c_uint64 * 8)()
        self.L.sim_omp_stats(a)
        return dict(zip(("steps", "hash", "regions", "switches", "accesses", "race_checks", "overrun", "shadow_full"), list(a)))

    def call_begin(self, tensors):
        ptrs = [t.untyped_storage().data_ptr() for t in tensors]
        arr = (ctypes.c_void_p * max(len(ptrs), 1))(*ptrs)
        self.L.sim_call_begin(arr, len(ptrs))

    def call_end(self):
        self.L.sim_call_end()


RT = None
PH = None
_FILTERS = None


def base_filters():
    """warning filters as they were when the first run began (a violating run may have left others)"""
    global _FILTERS
    if _FILTERS is None:
        _FILTERS = list(warnings.filters)
    elif warnings.filters != _FILTERS:
        warnings.filters[:] = _FILTERS
        warnings._filters_mutated()


def boot(ext=None, helion=False, alloc=True):
    """import torch + philtorch.  ext: path of the instrumented extension, or
    None to simulate its absence."""
    global RT, PH
    warnings.filterwarnings("ignore", message=".*")     # not what simplefilter("ignore") would add again
    import torch
    torch.set_num_threads(1)
    # things torch initialises lazily and that would otherwise be charged to a run
    torch.linalg.solve(torch.eye(2, dtype=torch.float64), torch.ones(2, dtype=torch.float64))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if ext:
        sys.meta_path.insert(0, _ExtFinder(ext))
    else:
        sys.modules["philtorch._C"] = None
    if not helion:
        sys.modules["philtorch._helion"] = None
    import philtorch, philtorch.lti, philtorch.lpv
    import philtorch.lti.interp
    PH = philtorch
    if ext:
        RT = Rt(ext)
        if alloc:
            if RT.L.sim_install_allocator() != 0:
                raise RuntimeError("allocator")
            RT.fill(1)
    return philtorch
