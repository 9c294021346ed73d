"""Failing allocations, failing tensor operations and interrupts at every point
of a call or of its backward pass, then a retry."""
import gc, sys
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _get_current_dispatch_mode
from .. import cold, core, env, fam, calls
from .c09 import cot
from ..settings import Settings, NOGRAD

AMBIENT = ["dtype", "deterministic", "anomaly", "denormal", "mkldnn", "matmul", "fill", "nograd", "inference", "warnerror"]

KINDS = ["alloc", "op_before", "op_after", "intr", "intr_op", "heap"]


class OpFailure(RuntimeError):
    pass


class FailOp(TorchDispatchMode):
    def __init__(self, k, after):
        super().__init__()
        self.k, self.after, self.n = k, after, 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        i = self.n
        self.n += 1
        if i == self.k and not self.after:
            raise OpFailure(f"operation {i} ({func}) failed")
        r = func(*args, **(kwargs or {}))
        if i == self.k and self.after:
            raise OpFailure(f"operation {i} ({func}) failed after running")
        return r


class Tracer:
    """KeyboardInterrupt at the k-th line (or instruction) of philtorch code"""

    def __init__(self, k, ops):
        self.k, self.ops, self.n, self.where = k, ops, 0, None

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        if "/philtorch/" not in f or "/verif" in f:
            return None
        if self.ops:
            frame.f_trace_opcodes = True
        if event == ("opcode" if self.ops else "line"):
            i = self.n
            self.n += 1
            if i == self.k:
                self.where = f"{f.rsplit('/philtorch/', 1)[-1]}:{frame.f_lineno}"
                raise KeyboardInterrupt
        return self

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self)
        return self

    def __exit__(self, *e):
        sys.settrace(self.old)


def faulty(kind, k, fn):
    """-> (result or None, exception or None, number of fault points passed)"""
    L = env.RT.L
    r = e = None
    n = 0
    try:
        if kind == "alloc":
            n0 = L.sim_alloc_count()
            L.sim_alloc_fail_at(k)
            try:
                r = fn()
            finally:
                L.sim_alloc_fail_at(-1)
                n = L.sim_alloc_count() - n0
        elif kind == "heap":
            n0 = L.sim_heap_count()
            L.sim_heap_fail_at(k)
            try:
                r = fn()
            finally:
                L.sim_heap_fail_at(-1)
                n = L.sim_heap_count() - n0
        elif kind.startswith("op"):
            with FailOp(k, kind == "op_after") as m:
                try:
                    r = fn()
                finally:
                    n = m.n
        else:
            with Tracer(k, kind == "intr_op") as t:
                try:
                    r = fn()
                finally:
                    n = t.n
    except BaseException as x:
        e = x.with_traceback(None)
        e.__context__ = e.__cause__ = None
        r = None
    return r, e, n


def ver(t):
    return 0 if t.is_inference() else t._version


class Job:
    """a forward call, or the backward pass of one"""

    def __init__(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        self.c = c = calls.make(plan["call"])
        self.back = plan["back"] and c.name != "mat.vandermonde"
        self.a = c.args()
        if self.back or plan["track"] and c.name != "mat.vandermonde":
            self.a = {k: t.detach().requires_grad_(True) if t.is_floating_point() or t.is_complex() else t for k, t in self.a.items()}
        self.keep = None
        self.graph()

    def graph(self):
        if self.back:
            res = self.ctx.lib(self.c.desc(), self.c.run, self.a)
            self.o = [t for t in res if t.requires_grad]
            if not self.o:
                self.back = False
                return
            if self.keep is None:
                g = torch.Generator().manual_seed(self.plan["seed"])
                self.keep = [cot(t, g, "n").clone() for t in self.o]

    def run(self):
        if self.back:
            return [t for t in torch.autograd.grad(self.o, list(self.a.values()), self.keep, retain_graph=True, allow_unused=True)]
        return self.c.run(self.a)

    def held(self):
        """everything of the caller's, by bytes and version"""
        out = {}
        for k, t in self.a.items():
            out["argument " + k] = (calls.storage_bits(t), ver(t), tuple(t.shape), t.stride(), t.requires_grad, t.grad is None)
        if self.back:
            for i, t in enumerate(self.o):
                out[f"result {i}"] = (calls.bits(t), ver(t))
            for i, t in enumerate(self.keep):
                out[f"incoming gradient {i}"] = (calls.storage_bits(t), ver(t))
        return out


class P(core.Prop):
    id = "C05"
    timeout = 60
    quick, thorough = 8000, 80000
    measure = "distinct (function, fault kind, fault position) triples"
    time_unit = "attempts"
    rule = ("Each run takes one public call or the backward pass of one and lets its k-th tensor allocation, k-th C++ heap allocation, k-th tensor "
            "operation (before or after it ran) fail, or interrupts it at its k-th line or bytecode instruction; k is drawn from the positions the "
            "call really has, and part of the runs sweep k over the whole call. After each attempt the caller's tensors, settings and live memory are "
            "compared with before, and the call is repeated undisturbed. Non-trivial: at least one attempt was hit.")
    real = ["philtorch Python code and autograd formulas", "compiled kernels (instrumented build)", "torch, torchlpc"]
    stubs = ["CPU allocator and operator new of the extension (simrt, fail on request)", "tensor operation dispatcher (fails on request)",
             "signal delivery (trace hook)", "OpenMP runtime (simrt)"]
    assumptions = ["interrupts arrive between lines or bytecode instructions of philtorch's own Python code, as CPython delivers them"]

    def gen(self, i, r, tier):
        fams = list(fam.FAMS)
        enum = r.p(0.1 if tier == "quick" else 0.2)
        nmax = 6 if enum else 16
        if i % 2:
            c = calls.gen(r, kinds=["fam"], fams=fams, i=i // 2, nmax=nmax)
        else:
            c = calls.gen(r, nmax=nmax)
        return {"call": c, "back": int(r.p(0.45)), "track": int(r.p(0.4)), "cold": int(r.p(0.6)),
                "sets": [[r.pick(AMBIENT, [1, 2, 1, 1, 1, 1, 1, 3, 1.5, 1]), r.rint(0, 10 ** 6)] for _ in range(r.pick([0, 1, 2], [2, 5, 3]))],
                "enum": (60 if tier == "quick" else 400) * enum,
                "ops": [[r.pick(KINDS, [4, 3, 2, 3, 2, 1]), r.rint(0, 10 ** 6)] for _ in range(1 if enum else r.rint(1, 5))],
                "seed": r.rint(0, 2 ** 31 - 1), "fill": r.pick([1, 2, 5])}

    def setup(self):
        gc.collect()
        gc.freeze()

    def run(self, plan, ctx):
        env.RT.fill(plan["fill"], 17)
        with Settings([s for s in plan["sets"] if not (plan["back"] and s[0] in NOGRAD)]):
            self.run1(plan, ctx)

    def run1(self, plan, ctx):
        j = Job(plan, ctx)
        for s in plan["sets"]:
            ctx.count("setting_" + s[0])
        c = j.c
        what0 = c.desc() + (" backward" if j.back else "")
        want = [None if t is None else t.detach().clone() for t in ctx.lib(what0, j.run)]
        ctx.logt(*want)
        tol = c.tol() * (200 if j.back else 3)
        for kind, pos in plan["ops"]:
            if kind.startswith("op") or kind == "intr_op":
                cold.reset()
                faulty(kind, -5, j.run)      # warm dispatch caches; CPython emits opcode events from the second traced run on
            if plan["cold"]:
                cold.reset()
            _, e, n = faulty(kind, -5 if kind != "alloc" and kind != "heap" else 10 ** 9, j.run)
            if e is not None:
                ctx.fail("raised", f"{what0} under observation ({kind}): {type(e).__name__}: {str(e)[:200]}")
            if n == 0:
                continue
            ks = [pos % n]
            if plan["enum"]:
                step = -(-n // plan["enum"])
                ks = range(pos % step, n, step)
            for k in ks:
                self.attempt(j, kind, k, n, want, tol, ctx, what0)
            if plan["enum"]:
                ctx.count("swept_calls")
                ctx.count("swept_positions", len(ks))
        ctx.nontrivial = any(k.startswith("hit_") for k in ctx.counts)

    def attempt(self, j, kind, k, n, want, tol, ctx, what0):
        L = env.RT.L
        what = f"{what0}, {kind} fault at {k} of {n}"
        before, amb = j.held(), calls.ambient()
        m0 = _get_current_dispatch_mode()
        live = L.sim_alloc_live_count()
        if j.plan["cold"]:
            cold.reset()            # the fault meets a call that is the first of its kind
        r, e, _ = faulty(kind, k, j.run)
        if e is not None:
            ctx.count("hit_" + kind + ("_backward" if j.back else ""))
            if kind.startswith("intr") and not isinstance(e, KeyboardInterrupt):
                ctx.fail("interrupt-lost", f"{what}: the interrupt surfaced as {type(e).__name__}: {str(e)[:200]}")
        else:
            ctx.count("survived_" + kind)
            self.complete(r, want, tol, ctx, what)
        name = type(e).__name__ if e is not None else "none"
        r = e = None
        after = j.held()
        if after != before:
            bad = [x for x in before if before[x] != after[x]]
            ctx.fail("argument-changed", f"{what} ({name}): {bad} not as before the call")
        d = calls.ambient_diff(amb, calls.ambient())
        if d or _get_current_dispatch_mode() is not m0:
            ctx.fail("setting-changed", f"{what} ({name}): {d or 'dispatch modes'} not as before the call")
        if L.sim_alloc_live_count() != live:
            gc.collect()
            if L.sim_alloc_live_count() > live:
                # memory still held: does it grow with every failure?
                l1 = L.sim_alloc_live_count()
                for _ in range(4):
                    faulty(kind, k, j.run)
                gc.collect()
                if L.sim_alloc_live_count() >= l1 + 4:
                    ctx.fail("leak", f"{what} ({name}): each failure keeps {(L.sim_alloc_live_count() - l1) / 4:g} more allocations alive")
        r = ctx.lib(f"{what} ({name}), then repeated undisturbed", j.run)
        self.complete(r, want, tol, ctx, f"{what} ({name}), then repeated undisturbed")
        ctx.log(kind, k, name)
        ctx.state(j.c.name, j.c.p.get("form"), str(j.c.p.get("cfg")), j.back, kind, k)
        ctx.vtime += 2

    def complete(self, r, want, tol, ctx, what):
        if len(r) != len(want):
            ctx.fail("partial", f"{what}: {len(r)} results instead of {len(want)}")
        for i, (x, y) in enumerate(zip(r, want)):
            if (x is None) != (y is None):
                ctx.fail("partial", f"{what}: result {i} missing")
            if x is None:
                continue
            e = fam.err(x, y)
            if x.dtype != y.dtype or not e <= tol:
                ctx.fail("wrong", f"{what}: returned result {i} with error {e:.3g}")


PROP = P()
