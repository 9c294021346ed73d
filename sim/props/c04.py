"""Native kernels under a simulated OpenMP runtime: schedules, races, bounds."""
import numpy as np
import torch
from .. import core, env, fam

XDT = {**fam.DT, "i64": torch.int64, "f16": torch.float16, "bf16": torch.bfloat16}
TOL = {**fam.TOL, "i64": 0.0, "f16": 2e-2, "bf16": 1.5e-1}
OPS = ["lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN"]


def build(p):
    rs = np.random.RandomState(p["seed"] & 0xffffffff)
    op, B, N, M, dt = p["op"], p["B"], p["N"], p["M"], p["dtype"]
    lay = p.get("lay", {})
    cast = None
    if dt in ("f16", "bf16"):
        cast, dt = XDT[dt], "f32"
    if dt == "i64":
        shp = ((B,) if p["ak"] == "own" else ()) + (() if op.startswith("lti") else (N,)) + (M, M)
        A = torch.as_tensor(rs.randint(-1, 2, shp) * (rs.uniform(size=shp) < 1.2 / M), dtype=torch.int64)
        zi, x = [torch.as_tensor(rs.randint(-9, 10, q), dtype=torch.int64) for q in ((B, M), (B, N, M))]
    elif op == "lti_recur":
        shp = {"own": (B,), "shared": (), "one": (1,)}[p["ak"]]
        A = torch.as_tensor(np.asarray(rs.uniform(-0.95, 0.95, shp))).to(fam.DT[dt])
        zi, x = fam.rnd(rs, (B,), dt), fam.rnd(rs, (B, N), dt)
    else:
        lti = op.startswith("lti")
        shp = ((B,) if p["ak"] == "own" else ()) + (() if lti else (N,)) + (M, M)
        if p["seed"] % 11 == 0 and not cast:
            A = fam.rnd(rs, shp, dt) * 0.4
        else:
            A = fam.contraction(rs, shp, dt)
        zi, x = fam.rnd(rs, (B, M), dt), fam.rnd(rs, (B, N, M), dt)
    if cast:
        A, zi, x = A.to(cast), zi.to(cast), x.to(cast)
    out = []
    for t, k in ((A, "A"), (zi, "zi"), (x, "x")):
        kind = lay.get(k, "c")
        if kind == "e" and t.dim() and k in ("zi", "x"):       # expanded rows
            t = t[:1].expand(t.shape)
        elif kind == "j" and t.is_complex():                   # lazy conjugate
            t = t.conj()
        elif kind in ("t", "s", "o"):
            t = fam.relayout(t, kind, rs)
        out.append(t)
    return out


def loop(op, A, zi, x):
    f = fam.hi if A.is_floating_point() or A.is_complex() else (lambda t: t)
    A, z, x = f(A).resolve_conj(), f(zi), f(x)
    ys = []
    for t in range(x.shape[1]):
        if op == "lti_recur":
            z = A * z + x[:, t]
        else:
            At = A if op.startswith("lti") else A.select(-3, t)
            z = fam.mv(At, z) + x[:, t]
        ys.append(z)
    return torch.stack(ys, 1) if ys else x.clone()


class P(core.Prop):
    id = "C04"
    quick, thorough = 50000, 800000
    measure = "distinct interleavings (hash of every kernel access in execution order)"
    time_unit = "scheduling points (kernel memory accesses at which the scheduler chose)"
    rule = ("Each run executes one compiled kernel (or its backward pass) with seeded shapes, layouts and dtypes under one worker first "
            "and then under 2-16 workers and several seeded schedules (random, priority-based, round-robin, bursts, reverse), "
            "checking every load and store. Non-trivial: a parallel region ran with at least two workers and a context switch happened.")
    real = ["compiled kernels, compiled from csrc/*.cpp with access instrumentation", "torch.library registrations and autograd formulas"]
    stubs = ["OpenMP runtime (simrt: libgomp entry points, one worker runs at a time)", "CPU allocator (simrt)"]
    assumptions = ["sequentially consistent memory: a data race is reported as such, weak-memory effects of racy code are not simulated",
                   "tensors up to some ten thousand elements, 31 workers at most"]

    def gen(self, i, r, tier):
        op = OPS[i % len(OPS)]
        size = r.pick(["small", "wide", "long", "order", "empty", "huge", "vast"], [6, 3, 2, 2, 0.4, 0.07, 0.04])
        p = {"op": op, "seed": r.rint(0, 2 ** 31 - 1), "B": r.rint(1, 6), "N": r.rint(1, 10),
             "M": 2 if op.endswith("2") else r.pick([1, 2, 3, 4, 5, 6], [1, 2, 4, 3, 2, 1]), "ak": r.pick(["own", "shared"]),
             "dtype": r.pick(["f64", "f32", "c128", "c64", "i64", "f16", "bf16"], [5, 3, 3, 2, 0.7, 0.5, 0.5])}
        if op == "lti_recur" and p["dtype"] == "i64":
            p["dtype"] = "f64"
        if size == "wide":
            p["B"] = r.rint(7, 70)
            p["N"] = r.rint(1, 6)
        elif size == "long":
            p["N"] = r.rint(11, 80)
            p["B"] = r.rint(1, 4)
        elif size == "order" and not op.endswith("2") and op != "lti_recur":
            p["M"] = r.rint(7, 20) if r.p(0.85) else r.pick([31, 32, 33, 40, 64, 65])
            p["N"] = r.rint(1, 5)
            if p["M"] > 20:
                p["B"], p["N"] = r.rint(1, 3), r.rint(1, 3)
        elif size == "huge":        # thousands of steps or streams
            p["B"], p["N"] = r.pick([(1, r.rint(500, 5000)), (r.rint(300, 3000), r.rint(1, 2)), (r.rint(17, 40), r.rint(60, 130))])
            p["M"] = min(p["M"], 3)
        elif size == "vast":        # beyond the sizes at which kernels change their ways of sharing work
            n = r.pick([r.rint(10000, 17000), r.rint(30000, 34000), r.rint(65000, 70000)], [3, 3, 1])
            p["B"] = r.pick([1, 2, 3, 4, 8, 33, 256, r.rint(2, 500), n])
            p["M"] = min(p["M"], 2)
            p["N"] = max(1, n // p["B"] // r.pick([1, p["M"]]))
        elif size == "empty":
            p["B"] = r.pick([0, 1, 3])
            p["N"] = 0 if p["B"] else r.rint(0, 3)
        p["lay"] = {k: r.pick(["c", "t", "s", "o", "e", "j"], [6, 2, 2, 2, 1, 1]) for k in ("A", "zi", "x")} if r.p(0.5) else {}
        p["grad"] = int(r.p(0.2) and p["N"] > 0 and p["B"] > 0 and p["dtype"] in fam.DT)
        p["fill"] = r.pick([1, 2, 3, 5])
        p["sched"] = []
        for _ in range(r.rint(1, 3) if size != "vast" else 1):
            p["sched"].append({"nt": r.pick([2, 3, 4, 5, 7, 8, 12, 16, 31], [5, 4, 4, 2, 2, 3, 1, 1, 0.5]), "strat": r.pick([1, 2, 3, 5, 6], [5, 4, 1, 1, 3]),
                               "seed": r.rint(0, 2 ** 31), "prob": r.pick([0.02, 0.1, 0.5]), "depth": r.rint(1, 4),
                               "len": r.pick([50, 400, 3000])})
            if r.p(0.2):        # the runtime grants fewer workers than omp_get_max_threads() promised
                p["sched"][-1]["cap"] = r.rint(1, p["sched"][-1]["nt"] - 1)
        return p

    def one(self, p, f, A, zi, x, ctx, what):
        """a single checked kernel call under the configured schedule"""
        rt = env.RT
        rt.clear()
        rt.call_begin([t for t in (A, zi, x)])
        try:
            y = ctx.lib(what, f, A, zi, x)
        finally:
            rt.call_end()
        if rt.violation():
            ctx.fail(rt.violation().split(":")[0], f"{what}: {rt.violation()}")
        return y

    def grads(self, f, args, g, ctx, what):
        a = [t.detach().clone().requires_grad_(True) for t in args]
        env.RT.clear()
        y = ctx.lib(what, f, *a)
        gs = ctx.lib(what + " backward", torch.autograd.grad, y, a, g)
        if env.RT.violation():
            ctx.fail(env.RT.violation().split(":")[0], f"{what} backward: {env.RT.violation()}")
        return [y] + list(gs)

    def run(self, p, ctx):
        rt = env.RT
        rt.fill(p["fill"], p["seed"])
        A, zi, x = build(p)
        f = getattr(torch.ops.philtorch, p["op"])
        what = f"{p['op']} A{tuple(A.shape)} zi{tuple(zi.shape)} x{tuple(x.shape)} {p['dtype']} layouts {p['lay']}"
        tol = TOL[p["dtype"]]
        before = [t.detach().clone() for t in (A, zi, x)]
        rt.omp(1)
        y0 = self.one(p, f, A, zi, x, ctx, what + ", 1 worker")
        ref = loop(p["op"], A, zi, x)
        if tuple(y0.shape) != tuple(ref.shape) or y0.dtype != x.dtype:
            ctx.fail("shape", f"{what}: result {tuple(y0.shape)} {y0.dtype}")
        e = fam.err(y0, ref)
        if not e <= tol:
            ctx.fail("value", f"{what}, 1 worker: differs from the sequential recurrence by {e:.3g}")
        g = None
        if p["grad"]:
            gr = torch.Generator().manual_seed(p["seed"] & 0xffff)
            g = torch.randn(y0.shape, generator=gr, dtype=torch.float64).to(y0.dtype)
            g0 = self.grads(f, (A, zi, x), g, ctx, what)
        ctx.logt(y0)
        ctx.alt = alt = dict(core._clone(p), sched=[])
        for k, s in enumerate(p["sched"]):
            w = f"{what}, {s['nt']} workers, schedule {k}"
            if "explicit" in s:
                rt.omp(s["nt"], explicit=s["explicit"], cap=s.get("cap", 0))
            else:
                rt.omp(s["nt"], s["strat"], s["seed"], s["prob"], s["depth"], s["len"], cap=s.get("cap", 0))
            try:
                y = self.one(p, f, A, zi, x, ctx, w)
            finally:
                tr, n = rt.trace(4000)
                alt["sched"] = [{"nt": s["nt"], "cap": s.get("cap", 0), "explicit": tr}] if n <= 4000 else [s]
            st = rt.stats()
            if y.shape != y0.shape or not torch.equal(y.resolve_conj().view(torch.uint8) if y.numel() else y,
                                                       y0.resolve_conj().view(torch.uint8) if y0.numel() else y0):
                ctx.fail("schedule-dependent", f"{w}: result differs from the single-worker result by {fam.err(y, y0):.3g} ({st['switches']} switches)")
            ctx.count("schedules")
            if s.get("cap"):
                ctx.count("smaller_team_granted")
            ctx.count("context_switches", st["switches"])
            ctx.count("kernel_accesses", st["accesses"])
            ctx.count("strategy_%s" % {1: "random", 2: "priority", 3: "round_robin", 5: "reverse", 6: "burst"}.get(s.get("strat"), "explicit"))
            ctx.vtime += st["steps"]
            ctx.log(st["steps"], st["switches"])
            if st["switches"] and s["nt"] > 1:
                ctx.nontrivial = True
                ctx.state(st["hash"])
            if st["overrun"]:
                ctx.count("schedule_truncated")
            if g is not None:
                if "gexplicit" in s:
                    rt.omp(s["nt"], explicit=s["gexplicit"], cap=s.get("cap", 0))
                else:
                    rt.omp(s["nt"], s.get("strat", 1), s.get("seed", 1), s.get("prob", 0.1), s.get("depth", 2), s.get("len", 400), cap=s.get("cap", 0))
                try:
                    gs = self.grads(f, (A, zi, x), g, ctx, w)
                finally:
                    tr, n = rt.trace(4000)
                    if n <= 4000 and "explicit" in alt["sched"][0]:
                        alt["sched"][0]["gexplicit"] = tr
                for name, a, b in zip(("output", "grad A", "grad zi", "grad x"), gs, g0):
                    if a.shape != b.shape or not torch.equal(a, b):
                        ctx.fail("schedule-dependent", f"{w}: {name} differs from the single-worker one by {fam.err(a, b):.3g}")
                ctx.count("backward_under_schedule")
        rt.omp(1)
        for t, b, n in zip((A, zi, x), before, ("A", "zi", "x")):
            if not torch.equal(t, b):
                ctx.fail("argument", f"{what}: argument {n} was modified")

    def cleanup(self):
        env.RT.omp(1)
        env.RT.call_end()

    def shrinks(self, plan):
        # seeded schedules become explicit ones (the switches actually taken), then those shrink
        for k, s in enumerate(plan["sched"]):
            if len(plan["sched"]) > 1:
                q = core._clone(plan)
                del q["sched"][k]
                yield q
        if plan.get("grad"):
            q = core._clone(plan)
            q["grad"] = 0
            yield q
        if plan.get("lay"):
            q = core._clone(plan)
            q["lay"] = {}
            yield q
        if not any("explicit" in s for s in plan["sched"]):
            yield from core.shrink_numbers(plan)
            return
        for k, s in enumerate(plan["sched"]):
            for key in ("gexplicit", "explicit"):
                e = s.get(key)
                if not e:
                    continue
                size = max(1, len(e) // 2)
                while True:
                    for a in range(0, len(e), size):
                        q = core._clone(plan)
                        del q["sched"][k][key][a:a + size]
                        yield q
                    if size == 1:
                        break
                    size //= 2


PROP = P()
