"""A stream solved block by block with the parallel Newton solver: seeded cuts,
iteration budgets, initial guesses, failing callbacks/allocations/operations,
interrupts, crashes with checkpoints; against the sequential recursion."""
import io
import torch
from .. import core, env, fam
from .c05 import faulty
from .c09 import cot
from ..settings import Settings

FUNCS = ["tanh", "gate", "comp", "linear", "sin", "relu"]
DT = fam.DT
SETS = ["dtype", "deterministic", "anomaly", "fill", "nograd", "denormal", "warnerror"]


class Func:
    """one caller-supplied contraction y_t = f(y_{t-1}, x_t) and its Jacobian;
    broadcasts over any leading (batch, time) axes"""

    def __init__(self, kind, D, F, dt, seed, B):
        rs = __import__("numpy").random.RandomState(seed & 0xffffffff)
        self.kind = kind
        R = lambda *s: fam.rnd(rs, s, dt)
        if kind == "comp":
            self.th = {"at": torch.rand(B, 1, 1, generator=torch.Generator().manual_seed(seed), dtype=DT[dt]) * 0.8 + 0.1}
            self.th["rt"] = 1 - self.th["at"] * 0.7
        else:
            W = R(D, D)
            W = W * (0.8 / max(1e-3, float(torch.linalg.matrix_norm(W.double(), 2))))
            self.th = {"W": W.contiguous(), "U": R(F, D) * 0.7}
        self.D, self.F = D, F
        self.hook = None

    def tensors(self, grad=False):
        return {k: v.detach().clone().requires_grad_(grad) for k, v in self.th.items()}

    def f(self, th):
        k = self.kind

        def f(y, x):
            if self.hook:
                self.hook("func")
            if k == "comp":
                c = torch.where(x < y, th["at"], th["rt"])
                return c * x + (1 - c) * y
            W, U = th["W"], th["U"]
            u = x @ U
            if k == "tanh":
                return torch.tanh(y @ W.mT + u)
            if k == "sin":
                return u + 0.8 * torch.sin(y @ W.mT)
            if k == "linear":
                return y @ W.mT + u
            if k == "relu":
                v = y @ W.mT + u
                return torch.where(v > 0, v, 0.1 * v)
            g = torch.sigmoid(u)
            return g * torch.tanh(y @ W.mT) + (1 - g) * u
        return f

    def fprime(self, th):
        k = self.kind

        def j(y, x):
            if self.hook:
                self.hook("fprime")
            if k == "comp":
                c = torch.where(x < y, th["at"], th["rt"])
                return torch.diag_embed((1 - c) + 0 * y)
            W, U = th["W"], th["U"]
            u = x @ U
            if k == "linear":
                return W + torch.zeros(y.shape + (y.shape[-1],), dtype=y.dtype, device="cpu")
            if k == "tanh":
                d = 1 - torch.tanh(y @ W.mT + u) ** 2
            elif k == "sin":
                d = 0.8 * torch.cos(y @ W.mT)
            elif k == "relu":
                d = torch.where(y @ W.mT + u > 0, 1.0, 0.1).to(y.dtype)
            else:
                d = torch.sigmoid(u) * (1 - torch.tanh(y @ W.mT) ** 2)
            return d.unsqueeze(-1) * W
        return j


class CallbackFailure(RuntimeError):
    pass


def sequential(f, x, init, n=None):
    """(B, L, D): the recursion, one sample at a time"""
    y, out = init.unsqueeze(1), []
    for t in range(x.size(1) if n is None else n):
        y = f(y, x[:, t:t + 1])
        out.append(y)
    return torch.cat(out, 1)


class P(core.Prop):
    id = "C13"
    quick, thorough = 12000, 80000
    measure = "distinct (function, configuration, block length, iterations, fault kind) states"
    time_unit = "samples solved"
    rule = ("Each run solves a seeded non-linear stream block by block with newton_solve: the block length, iteration budget, initial guess "
            "(zeros, held, stale, random, the solution), analytic or automatic Jacobian, unrolling, layout and availability of the extension change "
            "from block to block; callbacks, allocations, operations fail or the caller is interrupted mid-solve; the node crashes and resumes "
            "from a checkpoint. Samples the iteration count promises are accepted, the rest is solved again. Gradients of converged blocks are "
            "compared with those of the sequential recursion. Non-trivial: at least two blocks solved.")
    real = ["philtorch.prototype.nl.newton_solve and the linear recurrences below it", "compiled kernels (instrumented build)", "torch, torchlpc"]
    stubs = ["caller's functions (contractions with known Jacobians)", "CPU allocator (simrt, fails on request)",
             "tensor operation dispatcher (fails on request)", "checkpoint storage (model)", "OpenMP runtime (simrt)"]
    assumptions = ["agreement to 1e-9 (double) or 2e-4 (single) is taken as equality; 1e-5 for gradients of converged blocks"]

    def gen(self, i, r, tier):
        D = r.pick([1, 2, 3, 4], [3, 4, 3, 1])
        kind = r.pick(FUNCS)
        N = r.rint(2, 40 if tier == "quick" else 120)
        B = r.pick([1, 2, 3, 5], [3, 4, 2, 1])
        ops = []
        for _ in range(r.rint(2, 9)):
            k = r.pick(["blk", "fault", "crash", "ckpt", "grad", "scribble"], [8, 3, 1, 1.5, 1.5, 1])
            L = r.pick([2, 3, r.rint(2, 8), r.rint(2, 30)])
            o = {"op": k, "L": L, "it": r.pick([1, 2, 3, 5, 10, L - 1, L - 1]), "u": r.pick([1, 1, 2, 3, 4, None]), "fp": int(r.p(0.5)),
                 "guess": r.pick(["zero", "hold", "rand", "stale", "sol", "big"], [3, 2, 2, 2, 1, 1]), "mid": int(r.p(0.2)),
                 "noext": int(r.p(0.15)), "lay": [r.pick(["c", "t", "s", "o"], [5, 1, 1, 1]) for _ in range(3)],
                 "tight": int(r.p(0.7)), "seed": r.rint(0, 2 ** 31 - 1)}
            if k == "fault":
                o["kind"] = r.pick(["alloc", "op_before", "op_after", "intr", "intr_op", "callback", "cancel"], [3, 2, 1, 3, 1, 3, 2])
                o["at"] = r.rint(0, 10 ** 6)
            ops.append(o)
        return {"D": D, "F": 1 if kind == "comp" and D == 1 else D if kind == "comp" else r.rint(1, 3), "kind": kind, "N": N, "B": B,
                "dtype": r.pick(["f64", "f32"], [4, 1]), "seed": r.rint(0, 2 ** 31 - 1), "ops": ops, "fill": r.pick([1, 2, 5]),
                "sets": [[r.pick(SETS), r.rint(0, 10 ** 6)] for _ in range(r.pick([0, 1], [3, 1]))]}

    def run(self, plan, ctx):
        env.RT.fill(plan["fill"], 5)
        from philtorch.prototype import nl
        self.solve = lambda *a, **k: nl.newton_solve(*a, **k)
        with Settings(plan["sets"]):
            self.run1(plan, ctx)

    def run1(self, plan, ctx):
        p, dt = plan, plan["dtype"]
        B, D, N = p["B"], p["D"], p["N"]
        import numpy as np
        rs = np.random.RandomState(p["seed"] & 0xffffffff)
        X = fam.rnd(rs, (B, N, p["F"]), dt)
        z0 = fam.rnd(rs, (B, D), dt)
        self.F = F = Func(p["kind"], D, p["F"], dt, p["seed"], B)
        with torch.no_grad():
            hi = {k: v.double() for k, v in F.th.items()}
            Y = sequential(F.f(hi), X.double(), z0.double())
        self.p, self.ctx, self.X, self.Y, self.z0 = p, ctx, X, Y, z0
        self.tol = 1e-9 if dt == "f64" else 2e-4
        pos, z, ck, held = 0, z0.clone(), (0, z0.clone()), []
        blocks = 0
        for o in p["ops"]:
            k = o["op"]
            if k == "crash":
                pos, z = ck
                ctx.count("crash_restart")
                continue
            if k == "ckpt":
                bio = io.BytesIO()
                torch.save((pos, z), bio)
                bio.seek(0)
                ck = torch.load(bio)
                ctx.count("checkpoint")
                continue
            if pos >= N:
                continue
            if k == "scribble":
                for t in getattr(self, "bufs", ()):
                    t.fill_(float("nan"))
                ctx.count("buffer_reuse")
                continue
            if k == "fault":
                self.fault(o, pos, z)
                continue
            if k == "grad" and not (torch.is_grad_enabled()):
                continue
            n, y = self.block(o, pos, z, k == "grad")
            blocks += 1
            pos += n
            z = y[:, n - 1].detach().clone()
            held.append((pos - n, n, y.detach()))
            ctx.log(k, pos, n)
            ctx.logt(y)
        # faults have stopped: the rest must get through, one accepted sample per call at worst
        guard = 0
        while pos < N:
            guard += 1
            if guard > N + 2:
                ctx.fail("liveness", "the stream does not finish")
            L = max(2, N - pos)
            n, y = self.block({"L": L, "it": min(12, L - 1), "u": 1, "fp": guard % 2, "guess": "zero", "noext": 0, "lay": ["c"] * 3, "tight": 1,
                               "seed": guard}, pos, z, False)
            pos += n
            z = y[:, n - 1].detach().clone()
            held.append((pos - n, n, y.detach()))
            blocks += 1
        for t in self.bufs:
            t.fill_(float("nan"))
        for q, n, y in held:
            e = fam.err(y[:, :n], Y[:, q:q + n])
            if not e <= self.tol * 50:
                ctx.fail("earlier-result", f"samples [{q},{q + n}) solved earlier changed afterwards by {e:.3g}")
        ctx.nontrivial = blocks >= 2

    # -- one call's arguments
    def prepare(self, o, pos, z, grad):
        p = self.p
        N, B, D, dt = p["N"], p["B"], p["D"], p["dtype"]
        L = max(2, min(o["L"], N - pos))
        x = self.X[:, pos:pos + L]
        if x.size(1) < L:            # last sample of the stream: pad
            x = torch.cat([x, x.new_zeros(B, L - x.size(1), p["F"])], 1)
        n = min(L, N - pos)
        g = torch.Generator().manual_seed(o["seed"])
        gu = o["guess"]
        y0 = torch.zeros(B, L, D, dtype=DT[dt])
        if gu == "hold":
            y0 = y0 + z.detach().unsqueeze(1)
        elif gu in ("rand", "stale"):
            y0 = torch.randn(B, L, D, generator=g, dtype=DT[dt])
        elif gu == "big":
            y0 = 5 * torch.randn(B, L, D, generator=g, dtype=DT[dt])
        elif gu == "sol":
            y0[:, :n] = self.Y[:, pos:pos + n].to(DT[dt])
        a = {"x": x, "y0": y0, "init": z.detach()}
        rs = None
        a = {k: fam.relayout(t.clone(), l, rs) if l != "c" else t.clone().contiguous() for (k, t), l in zip(a.items(), o["lay"])}
        self.bufs = [a["x"], a["y0"], a["init"]]
        if grad:
            a = {k: t.detach().clone().requires_grad_(k != "y0") for k, t in a.items()}
        th = self.F.tensors(grad)
        it = max(1, min(o["it"], L - 1))
        atol, rtol = (1e-13, 1e-13) if o["tight"] and dt == "f64" else (1e-6, 1e-6) if dt == "f64" else (1e-7, 1e-6)
        u = o["u"]
        if o["noext"] and u is None:
            u = 1
        kw = dict(max_iter=it, atol=atol, rtol=rtol, fprime=self.F.fprime(th) if o["fp"] else None, unroll_factor=u)
        if o.get("mid"):
            kw["return_intermediate"] = True

        def call():
            if o["noext"]:
                with fam.noext():
                    return self.solve(self.F.f(th), a["x"], a["y0"], a["init"], **kw)
            return self.solve(self.F.f(th), a["x"], a["y0"], a["init"], **kw)
        return call, a, th, L, n, it, kw

    def desc(self, o, pos, L, it):
        p = self.p
        return (f"newton_solve {p['kind']} B={p['B']} D={p['D']} {p['dtype']} samples [{pos},{pos + L}) max_iter={it} u={o['u']} "
                f"fprime={o['fp']} guess={o['guess']} noext={o['noext']}")

    def check(self, o, pos, res, L, n, it, kw, what):
        """-> (accepted samples, y)"""
        c, p = self.ctx, self.p
        if not isinstance(res, tuple) or len(res) != (3 if o.get("mid") else 2):
            c.fail("result", f"{what}: {type(res).__name__} of {len(res) if isinstance(res, tuple) else 0}")
        y, k = res[0], res[1]
        if tuple(y.shape) != (p["B"], L, p["D"]) or y.dtype != DT[p["dtype"]]:
            c.fail("shape", f"{what}: result {tuple(y.shape)} {y.dtype}")
        if not 1 <= k <= it:
            c.fail("iterations", f"{what}: {k} iterations of at most {it}")
        Y = self.Y[:, pos:pos + n]
        m = min(k, n)
        e = fam.err(y[:, :m], Y[:, :m])
        if not e <= self.tol:
            c.fail("prefix", f"{what}: after {k} iterations the first {m} samples are off by {e:.3g}")
        for i, (yi, ri) in enumerate(res[2] if o.get("mid") else []):
            if tuple(yi.shape)[:1] != (p["B"],) or tuple(ri.shape) != (p["B"],):
                c.fail("shape", f"{what}: intermediate {i}: {tuple(yi.shape)}, {tuple(ri.shape)}")
            e = fam.err(yi[:, :min(i + 1, n)], Y[:, :min(i + 1, n)])
            if not e <= self.tol:
                c.fail("prefix", f"{what}: intermediate {i}: prefix off by {e:.3g}")
        # stopped early: it claims to have converged
        conv = k < it
        loose = 50 * (kw["atol"] + kw["rtol"] * 10) + self.tol
        if conv:
            e = fam.err(y[:, :n], Y)
            if not e <= loose:
                c.fail("converged", f"{what}: stopped after {k} iterations but is off by {e:.3g}")
            c.count("converged")
        if not conv and p["kind"] == "linear":       # one step solves a linear recursion
            e = fam.err(y[:, :n], Y)
            if not e <= max(loose, self.tol * 100):
                c.fail("linear", f"{what}: linear recursion off by {e:.3g}")
        if not conv and k < it:
            c.fail("iterations", f"{what}: {k}")
        c.count("iterations", k)
        # what the consumer may accept as exact
        if conv and kw["atol"] < 1e-12:
            m = n
        return m, y

    def block(self, o, pos, z, grad):
        c, p = self.ctx, self.p
        call, a, th, L, n, it, kw = self.prepare(o, pos, z, grad)
        what = self.desc(o, pos, L, it)
        before = {k: t.detach().clone() for k, t in a.items()}
        res = c.lib(what, call)
        self.unchanged(before, a, what)
        m, y = self.check(o, pos, res, L, n, it, kw, what)
        c.count("blocks")
        c.vtime += m
        c.state(p["kind"], p["D"], o["u"], o["fp"], o["guess"], o["noext"], L, res[1])
        if grad and p["dtype"] == "f64":
            self.grad(o, pos, y, a, th, n, m, conv=res[1] < it and kw["atol"] < 1e-12, what=what)
        return m, y

    def unchanged(self, before, a, what):
        for k, t in a.items():
            if not torch.equal(torch.nan_to_num(before[k]), torch.nan_to_num(t.detach())):
                self.ctx.fail("argument-changed", f"{what}: argument {k} changed")

    def grad(self, o, pos, y, a, th, n, m, conv, what):
        """gradients of what was promised: the exact prefix, or all of a converged block"""
        c = self.ctx
        m = n if conv else m
        g = cot(y[:, :m].detach(), torch.Generator().manual_seed(o["seed"]), "n")
        leaves = [a["x"], a["init"], *th.values()]
        got = torch.autograd.grad((y[:, :m] * g).sum(), leaves, allow_unused=True)
        a2 = {k: t.detach().clone().requires_grad_(True) for k, t in a.items()}
        th2 = self.F.tensors(True)
        w = sequential(self.F.f(th2), a2["x"], a2["init"], m)
        want = torch.autograd.grad((w * g).sum(), [a2["x"], a2["init"], *th2.values()], allow_unused=True)
        for nme, u, v in zip(["x", "init", *th], got, want):
            u = torch.zeros_like(v) if u is None and v is not None else u
            v = torch.zeros_like(u) if v is None and u is not None else v
            if u is None:
                continue
            e = fam.err(u, v)
            if not e <= 1e-5:
                c.fail("gradient", f"{what}: gradient of the first {m} samples for {nme} is off by {e:.3g}")
        c.count("gradients")

    def fault(self, o, pos, z):
        c, p = self.ctx, self.p
        call, a, th, L, n, it, kw = self.prepare(o, pos, z, False)
        what = self.desc(o, pos, L, it)
        before = {k: t.detach().clone() for k, t in a.items()}
        want = c.lib(what, call)
        self.check(o, pos, want, L, n, it, kw, what)
        kind = o["kind"]
        if kind in ("callback", "cancel"):
            cnt = [0]

            def hook(w):
                cnt[0] += 1
            self.F.hook = hook
            c.lib(what, call)
            total, at = cnt[0], o["at"] % max(1, cnt[0])
            cnt[0] = 0
            exc = CallbackFailure if kind == "callback" else KeyboardInterrupt

            def hook(w):
                cnt[0] += 1
                if cnt[0] == at + 1:
                    raise exc("callback")
            self.F.hook = hook
            r = e = None
            try:
                r = call()
            except BaseException as x:
                e = x
            self.F.hook = None
            if not isinstance(e, exc):
                c.fail("swallowed", f"{what}: the callback's {exc.__name__} at call {at} of {total} became {type(e).__name__}")
        else:
            _, e, k = faulty(kind, -5 if kind not in ("alloc",) else 10 ** 9, call)
            if e is not None:
                c.fail("raised", f"{what} under observation ({kind}): {type(e).__name__}: {str(e)[:200]}")
            if not k:
                return
            at = o["at"] % k
            r, e, _ = faulty(kind, at, call)
            if e is not None and kind.startswith("intr") and not isinstance(e, KeyboardInterrupt):
                c.fail("interrupt-lost", f"{what}: the interrupt surfaced as {type(e).__name__}: {str(e)[:200]}")
            if r is not None:
                self.check(o, pos, r, L, n, it, kw, what + f" surviving a {kind} fault")
        c.count("hit_" + kind if e is not None else "survived_" + kind)
        e = None
        self.unchanged(before, a, what + f" after a {kind} fault")
        r = c.lib(what + f" repeated after a {kind} fault", call)
        self.check(o, pos, r, L, n, it, kw, what + f" repeated after a {kind} fault")
        if r[1] != want[1] or not fam.err(r[0], want[0]) <= self.tol:
            c.fail("retry", f"{what}: repeating after a {kind} fault gives another result ({r[1]} vs {want[1]} iterations, "
                            f"error {fam.err(r[0], want[0]):.3g})")
        c.log("fault", kind, at)
        c.vtime += 3 * n
        c.state(p["kind"], o["u"], o["fp"], kind, at)


PROP = P()
