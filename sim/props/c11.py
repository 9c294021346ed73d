"""A long-running service: the same calls under dirty memory, other ambient
settings and other histories; results, settings and memory must not drift."""
import gc, random, sys, warnings
import numpy as np
import torch
from .. import cold, core, env, fam, calls
from .c09 import cot
from ..settings import Setting, Settings, SETTINGS, NOGRAD

KINDS = ["fam", "df1", "diaglong", "filtfilt", "spline", "lfiltic", "lfilter_zi", "mat"]


def malformed(c, a, kind):
    """a call the library should refuse (or not): its outcome is irrelevant"""
    a = dict(a)
    ks = [k for k in a if a[k].dim()]
    if not ks:
        return a
    k = ks[kind % len(ks)]
    t = a[k]
    a[k] = [lambda: t[..., :-1], lambda: t.unsqueeze(0), lambda: t[:0], lambda: t.to(torch.int64) if not t.is_complex() else t.real,
            lambda: torch.cat([t, t], 0), lambda: t * float("nan"), lambda: t[..., None], lambda: t.sum()][kind // 7 % 8]()
    return a


class Service:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.calls = [calls.make(p) for p in plan["calls"]]
        self.hold = {}

    def base(self):
        """every call in a clean state, from its arguments alone"""
        env.RT.fill(0, 1)
        self.want, self.gwant, self.rg = [], [], []
        for c in self.calls:
            self.want.append([t.detach().clone() for t in self.ctx.lib(c.desc(), c.run, c.args())])
            self.gwant.append(self.grads(c, c.args(), "clean"))
        env.RT.fill(self.plan["fill"], 3)
        # what the recurrence itself says, where there is one
        for c, w in zip(self.calls, self.want):
            if isinstance(c, calls.FamCall) and "zi" in c.base:
                Y, Z = c.spec.ref()
                if not fam.err(w[0], Y) <= c.tol():
                    self.ctx.fail("value", f"{c.desc()}: differs from the recurrence by {fam.err(w[0], Y):.3g}")

    def grads(self, c, a, what):
        if c.name == "mat.vandermonde":
            return None
        a = {k: t.detach().requires_grad_(True) if t.is_floating_point() or t.is_complex() else t for k, t in a.items()}
        r = [t for t in self.ctx.lib(f"{c.desc()} {what}", c.run, a) if t.requires_grad]
        if not r:
            return None
        g = torch.Generator().manual_seed(self.plan["seed"])
        W = [cot(t, g, "n") for t in r]
        return list(self.ctx.lib(f"{c.desc()} {what} backward", torch.autograd.grad, r, list(a.values()), W, allow_unused=True))

    def compare(self, c, got, want, what, tol):
        if len(got) != len(want):
            self.ctx.fail("value", f"{c.desc()} {what}: {len(got)} results instead of {len(want)}")
        for i, (x, y) in enumerate(zip(got, want)):
            if x is None or y is None:
                if (x is None) != (y is None):
                    self.ctx.fail("value", f"{c.desc()} {what}: result {i} missing or extra")
                continue
            if x.dtype != y.dtype or x.shape != y.shape or x.device != y.device:
                self.ctx.fail("type", f"{c.desc()} {what}: result {i} is {x.dtype} {tuple(x.shape)} {x.device} instead of {y.dtype} {tuple(y.shape)} {y.device}")
            e = fam.err(x, y)
            if not e <= tol:
                self.ctx.fail("value", f"{c.desc()} {what}: result {i} differs by {e:.3g} from that in a clean state")

    def call(self, ci, sets, grad, how, hist):
        ctx = self.ctx
        ci %= len(self.calls)
        c = self.calls[ci]
        names = [s[0] for s in sets]
        what = f"under {names} ({how} arguments) after {hist}"
        if how == "held" and ci in self.hold:      # the caller keeps its tensor objects and refills them
            a = self.hold[ci]
            f = c.args()
            with torch.no_grad():
                for k in a:
                    if a[k].numel():
                        a[k].fill_(float("nan"))
                        a[k].copy_(f[k])
        else:
            a = c.args()
            self.hold[ci] = a
        if grad and (NOGRAD & set(names)):
            grad = 0
        if grad and any(n == "device" for n in names):
            grad = 0
        es = []
        try:
            for s in sets:
                e = Setting(*s)
                e.__enter__()
                es.append(e)
                ctx.count("setting_" + s[0])
            amb = calls.ambient()
            wf = list(warnings.filters)
            if grad:
                r = self.grads(c, a, what)
            else:
                r = ctx.lib(f"{c.desc()} {what}", c.run, a)
            d = calls.ambient_diff(amb, calls.ambient())
            if d or wf != list(warnings.filters):
                ctx.fail("setting-changed", f"{c.desc()} {what}: changed {d or ['warning filters']}")
        finally:
            for e in reversed(es):
                e.__exit__()
        low = {"matmul"} & set(names) and c.dt in ("f32", "c64")
        tol = c.tol() * (200 if grad else 5)
        if c.dt in ("f32", "c64"):
            tol = max(tol, 2e-2 if grad or low else tol)
        want = self.gwant[ci] if grad else self.want[ci]
        if grad and (r is None or want is None):
            if (r is None) != (want is None):
                ctx.fail("value", f"{c.desc()} {what}: gradient available in one state only")
            return
        self.compare(c, r, want, what + (" gradient" if grad else ""), tol)
        ctx.logt(*[t for t in r if t is not None])
        for n in names or ["none"]:
            ctx.state(c.name, c.p.get("form"), str(c.p.get("cfg")), n, how, grad)

    def fail_call(self, ci, kind, k, sets=()):
        with Settings(sets):
            self.fail_call1(ci, kind, k)

    def fail_call1(self, ci, kind, k):
        """some other call that goes wrong"""
        ctx = self.ctx
        c = self.calls[ci % len(self.calls)]
        amb = calls.ambient()
        a = c.args()
        if kind == 0:
            a = malformed(c, a, k)
        else:
            env.RT.L.sim_alloc_fail_at(k % 40)
        try:
            c.run(a)
            ctx.count("odd_call_succeeded")
        except Exception:
            ctx.count("call_failed_malformed" if kind == 0 else "call_failed_alloc")
        finally:
            env.RT.L.sim_alloc_fail_at(-1)
        d = calls.ambient_diff(amb, calls.ambient())
        if d:
            ctx.fail("setting-changed", f"{c.desc()}: a failing call changed {d}")

    def leak(self, ci, grad, n):
        """the same call again and again: memory in use must level off"""
        ctx = self.ctx
        c = self.calls[ci % len(self.calls)]
        if c.name == "mat.vandermonde":
            grad = 0
        gc.disable()
        try:
            self.leak1(ctx, c, grad, n)
        finally:
            gc.enable()

    def leak1(self, ctx, c, grad, n):
        L = env.RT.L

        def one(k):
            a = c.args()
            if grad:
                self.grads(c, a, "again")
            else:
                c.run(a)

        def rounds(n):
            gc.collect()
            n0, b0, p0 = L.sim_alloc_live_count(), L.sim_alloc_live_bytes(), sys.getallocatedblocks()
            for k in range(n):
                one(k)
            gc.collect()
            n1, b1, p1 = L.sim_alloc_live_count(), L.sim_alloc_live_bytes(), sys.getallocatedblocks()
            return n1 - n0, b1 - b0, p1 - p0

        for k in range(3):
            one(k)
        for attempt in range(6):        # growth must persist to count (free lists and pools fill up, then stop)
            dn, db, dp = rounds(n)
            if dn < n and dp < 2 * n:
                break
            n = [64, 128, 192, 500, 1500][min(attempt, 4)]
        else:
            ctx.fail("leak", f"{c.desc()} {'with gradients ' if grad else ''}repeated {n} times: {dn} more tensor allocations ({db} bytes) and {dp} "
                     "more Python memory blocks stay alive")
        ctx.count("leak_probes")

    def op(self, o, i):
        if o[0] == "call":
            self.call(o[1], o[2], o[3], o[4], f"{i} operations")
            self.ctx.count("calls")
        elif o[0] == "restart":
            cold.reset()
            self.ctx.count("restarts")
        elif o[0] == "bad":
            self.fail_call(*o[1:])
        else:
            self.leak(o[1], o[2], o[3])
        self.ctx.log(*o)
        self.ctx.vtime += 1


class P(core.Prop):
    id = "C11"
    quick, thorough = 9000, 120000
    measure = "distinct (function, setting, argument reuse) situations"
    time_unit = "service calls"
    rule = ("Each run makes 1-4 calls of any functions in a seeded order under seeded ambient settings (default dtype and device, thread count, random "
            "state, grad/inference modes, flush-denormal, anomaly mode, deterministic algorithms, warnings as errors), with freed and fresh memory "
            "filled with garbage, freed memory handed out again at once, between malformed calls and calls whose allocations fail, with fresh or refilled argument tensors. Values, dtypes "
            "and gradients must be those of a clean state; settings must be untouched; repeating a call must not keep memory. "
            "Non-trivial: at least two calls were compared.")
    real = ["philtorch Python code", "compiled kernels (instrumented build)", "torch, torchlpc"]
    stubs = ["CPU allocator (simrt: fills memory, fails on request, counts what is alive)", "OpenMP runtime (simrt, seeded schedule)", "the service"]
    assumptions = ["equality up to rounding; single precision under reduced matmul precision to 2e-2"]

    def gen(self, i, r, tier):
        n = r.rint(1, 4)
        fams = list(fam.FAMS)
        cs = []
        for k in range(n):
            if cs and r.p(0.35):       # same shapes, other numbers
                c = dict(r.pick(cs))
                c["seed"] = r.rint(0, 2 ** 31 - 1)
                if "fp" in c:
                    c["fp"] = dict(c["fp"], seed=c["seed"])
            else:
                c = calls.gen(r, kinds=KINDS if (i + k) % 2 else ["fam"], fams=None if (i + k) % 2 else [fams[(i // 2 + k) % len(fams)]], nmax=16)
            cs.append(c)
        ops = []
        for _ in range(r.rint(3, 9)):
            k = r.pick(["call", "bad", "leak", "restart"], [7, 2, 1, 0.7])
            if k == "call":
                sets = [[r.pick(SETTINGS), r.rint(0, 10 ** 6)] for _ in range(r.pick([0, 1, 2, 3], [1, 4, 2, 1]))]
                ops.append(["call", r.rint(0, n - 1), sets, int(r.p(0.3)), r.pick(["fresh", "held"])])
            elif k == "restart":
                ops.append(["restart"])
            elif k == "bad":
                ops.append(["bad", r.rint(0, n - 1), r.rint(0, 1), r.rint(0, 10 ** 4),
                            [[r.pick(SETTINGS), r.rint(0, 10 ** 6)] for _ in range(r.pick([0, 1, 2]))]])
            else:
                ops.append(["leak", r.rint(0, n - 1), int(r.p(0.4)), r.rint(4, 8)])
        if r.p(0.3):        # an inference service
            for o in ops:
                if o[0] == "call":
                    o[2].append([r.pick(["nograd", "nograd", "inference"]), 0])
        return {"calls": cs, "recycle": int(r.p(0.5)), "ops": ops, "seed": r.rint(0, 2 ** 31 - 1), "fill": r.pick([1, 2, 3, 5])}

    def setup(self):
        with torch.device("meta"):
            torch.einsum("ij,j->i", torch.eye(2) * 2, torch.zeros(2))
        gc.collect()
        gc.freeze()

    def run(self, plan, ctx):
        s = Service(plan, ctx)
        s.base()
        cold.reset()        # the service starts here, with nothing warmed up
        env.RT.L.sim_alloc_recycle(plan.get("recycle", 0))
        for i, o in enumerate(plan["ops"]):
            s.op(o, i)
        if plan.get("recycle"):
            ctx.count("allocations_at_a_freed_address", env.RT.L.sim_alloc_recycled())
        ctx.nontrivial = ctx.counts.get("calls", 0) >= 2

    def cleanup(self):
        env.RT.fill(1, 1)
        env.RT.L.sim_alloc_recycle(0)
        env.RT.omp(1)
        torch.use_deterministic_algorithms(False)


PROP = P()
