"""Plans, seeds, event logs, violations; shared by all properties."""
import hashlib, json, os, random, struct, sys, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(f"{base}:{prop}:{i}".encode()).digest()[:8], "big")


class Violation(Exception):
    def __init__(self, kind, detail, key=None):
        super().__init__(kind + ": " + detail)
        self.kind, self.detail, self.key = kind, detail, key


class Ctx:
    """what one simulated run records"""

    def __init__(self):
        self.h = hashlib.sha256()
        self.nlog = 0
        self.counts = {}
        self.states = set()
        self.vtime = 0.0
        self.nontrivial = False
        self.alt = None      # an equivalent, more explicit plan (set by run)
        self.verbose = os.environ.get("SIM_VERBOSE")

    def log(self, *ev):
        s = json.dumps(ev, default=str)
        if self.verbose:
            print("  ", s[:300], file=sys.stderr)
        self.h.update(s.encode())
        self.nlog += 1

    def logt(self, *ts):
        """tensors enter the event log bit for bit"""
        import torch
        for t in ts:
            if t is None:
                self.h.update(b"none")
                continue
            self.h.update(str((t.dtype, tuple(t.shape))).encode())
            if t.numel():
                c = t.detach().resolve_conj().resolve_neg().contiguous()
                self.h.update(c.float().numpy().tobytes() if c.dtype == torch.bfloat16 else c.numpy().tobytes())
            self.nlog += 1

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest())

    def fail(self, kind, detail, key=None):
        raise Violation(kind, detail, key)

    def lib(self, what, fn, *a, **k):
        """a library call that the property says must succeed"""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation("raised", f"{what}: {type(e).__name__}: {str(e)[:300]}") from e


def execute(prop, plan):
    """pure function of plan (and of the code under test)"""
    from . import cold, env
    cold.reset()
    env.base_filters()
    c = Ctx()
    v = None
    try:
        prop.run(plan, c)
    except Violation as e:
        v = {"kind": e.kind, "detail": e.detail, "key": e.key}
        c.log("VIOLATION", e.kind)
    finally:
        prop.cleanup()
        if env.RT:
            env.RT.L.sim_alloc_recycle(0)
    return {"v": v, "hash": c.h.hexdigest()[:16], "nlog": c.nlog, "counts": c.counts,
            "states": sorted(c.states), "vtime": c.vtime, "nt": c.nontrivial, "alt": c.alt if v else None}


class Prop:
    id = ""
    quick = 100
    thorough = 1000
    helion = False
    timeout = 120
    real = []
    stubs = []
    rt_alloc = True
    measure = "distinct states"
    rule = ""
    level = "exploration"
    time_unit = "sample periods of the simulated stream clock"
    assumptions = []

    def setup(self):
        pass

    def gen(self, i, r, tier):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def cleanup(self):
        pass

    def known(self, ctx_factory):
        """yields (key, reproduced) for findings this check probes directly"""
        return []

    def shrinks(self, plan):
        """smaller plans, most aggressive first"""
        yield from shrink_lists(plan)
        yield from shrink_numbers(plan)


# ------------------------------------------------------------------ shrinking
def _clone(p):
    return json.loads(json.dumps(p))


def shrink_lists(plan, keys=("ops", "streams", "threads", "faults", "jobs", "lay", "points")):
    for k in keys:
        seq = plan.get(k)
        if isinstance(seq, list) and len(seq) > 0:
            n = len(seq)
            size = max(1, n // 2)
            while size >= 1:
                for s in range(0, n, size):
                    q = _clone(plan)
                    del q[k][s:s + size]
                    yield q
                if size == 1:
                    break
                size //= 2
        elif isinstance(seq, dict) and seq:
            q = _clone(plan)
            q[k] = {}
            yield q


def _paths(o, pre=()):
    if isinstance(o, dict):
        for k in sorted(o):
            yield from _paths(o[k], pre + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from _paths(v, pre + (i,))
    elif isinstance(o, int) and not isinstance(o, bool):
        yield pre, o


NOSHRINK = {"seed", "i", "order", "strat", "fill", "diag", "raw", "F", "M", "O", "out_idx"}


def shrink_numbers(plan):
    for path, v in list(_paths(plan)):
        if path[-1] in NOSHRINK or v <= 1 or v > 100000:
            continue
        for w in sorted({1, v // 2, v - 1}):
            if w < v:
                q = _clone(plan)
                o = q
                for p in path[:-1]:
                    o = o[p]
                o[path[-1]] = w
                yield q


def load_prop(pid):
    import importlib
    return importlib.import_module("sim.props." + pid.lower()).PROP
