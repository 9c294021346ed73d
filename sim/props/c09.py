"""Gradients through chains of blocks: every way of running backward over every
cutting, against autograd through the defining recurrence."""
import numpy as np
import torch
from torch.utils.checkpoint import checkpoint
from .. import core, env, fam, stream

GTOL = {"f64": 1e-9, "c128": 1e-9, "f32": 1e-2, "c64": 1e-2}
MODES = ["graph", "accum", "manual", "ckpt", "tuc", "tucr", "fwd", "second"]


def cot(t, g, kind):
    """an incoming gradient in one of the layouts autograd really produces"""
    n = torch.randn(t.shape, generator=g, dtype=torch.float64)
    if t.is_complex():
        n = torch.complex(n, torch.randn(t.shape, generator=g, dtype=torch.float64))
    n = n.to(t.dtype)
    if kind == "one" and t.numel():
        return torch.full((), 0.75, dtype=t.dtype).expand(t.shape)
    if kind == "t" and t.dim() >= 2:
        return n.transpose(0, 1).contiguous().transpose(0, 1)
    if kind == "row" and t.dim() >= 2 and t.numel():
        return n[:, :1].expand(t.shape)
    if kind == "j" and t.is_complex():
        return n.conj()
    return n


class Chain:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        p = self.p = plan["fp"]
        self.spec = s = fam.make(p)
        self.N = s.N
        self.names = [k for k in s.T if (s.T[k][0].is_floating_point() or s.T[k][0].is_complex())]
        sub = [k for k in self.names if k not in plan["skip"]] or list(self.names)
        self.sub = sub
        self.leaf = {k: self.own(s.T[k][0]).requires_grad_(k in sub) for k in s.T}
        self.tol = GTOL[s.dt] * (1e3 if p.get("diag") or p.get("eig") else 1)
        self.g = torch.Generator().manual_seed(plan["seed"])
        # blocks
        self.blocks, pos = [], 0
        cfg = {"u": 1, "be": "ssm"}
        for n, cfg in list(plan["ops"]) + [[s.N, {"u": 1, "be": "ssm"}]]:
            n = self.fit(pos, n)
            if not n:
                continue
            self.blocks.append((pos, n, cfg))
            pos += n
            if pos >= s.N:
                break
        self.end = pos
        # a diagonal system given by its eigenvalues: only the diagonal is an argument
        self.diag = p.get("diag") == 2
        self.W, self.V = [], []
        if not self.blocks:
            return
        Y, Z = s.ref()
        for pos, n, cfg in self.blocks:
            self.W.append(cot(Y[:, pos:pos + n].to(fam.DT[s.dt]), self.g, plan["wk"]))
            self.V.append(cot(Z[pos + n].to(fam.DT[s.dt]), self.g, plan["vk"]))
        # which terms enter the loss
        rs = np.random.RandomState(plan["seed"] & 0xffffffff)
        nb = len(self.blocks)
        self.usey = [bool(rs.uniform() < plan["py"]) for _ in range(nb)]
        self.usez = [bool(rs.uniform() < plan["pz"]) for _ in range(nb)]
        if not any(self.usey) and not any(self.usez):
            self.usey[-1] = True
        if plan["last_only"]:
            self.usey = [False] * (nb - 1) + [True]
            self.usez = [False] * (nb - 1) + [self.usez[-1]]

    def own(self, t):
        return t.detach().clone()

    def fit(self, pos, n):
        n = min(n, self.N - pos)
        for m in [n] + list(range(n - 1, 0, -1)) + list(range(n + 1, self.N - pos + 1)):
            if m > 0 and self.spec.ok(self.spec.B, m):
                return m
        return 0

    def z0(self, leaf=None):
        return self.spec.zi_rows(zi=(leaf or self.leaf)["zi"])

    def raw_block(self, b, z):
        pos, n, c = self.blocks[b]
        return tuple(self.spec.call(self.spec.block(None, pos, n, self.leaf), z, c))

    def block(self, b, z, leaf=None, cfg=None):
        pos, n, c = self.blocks[b]
        c = cfg or c
        ts = self.spec.block(None, pos, n, leaf or self.leaf)
        return self.ctx.lib(f"{self.spec.fam} block [{pos},{pos + n}) cfg {c}", self.spec.call, ts, z, c)

    def terms(self, b, y, zf):
        o, g = [], []
        if self.usey[b]:
            o.append(y), g.append(self.W[b])
        if self.usez[b]:
            o.append(zf), g.append(self.V[b])
        o2 = [(x, w) for x, w in zip(o, g) if x.requires_grad]
        return [x for x, _ in o2], [w for _, w in o2]

    def reference(self):
        s = self.spec
        hi = {k: fam.hi(self.own(v[0])).requires_grad_(k in self.sub) for k, v in s.T.items()}
        Y, Z = s.ref(tensors=hi, zi=hi["zi"], n=self.end)
        o, g = [], []
        for b, (pos, n, _) in enumerate(self.blocks):
            if self.usey[b]:
                o.append(Y[:, pos:pos + n]), g.append(fam.hi(self.W[b]))
            if self.usez[b]:
                o.append(Z[pos + n]), g.append(fam.hi(self.V[b]))
        k = [i for i, x in enumerate(o) if x.requires_grad]
        G = torch.autograd.grad([o[i] for i in k], [hi[n] for n in self.sub], [g[i] for i in k], allow_unused=True) if k \
            else [None] * len(self.sub)
        return dict(zip(self.sub, G))

    def compare(self, got, want, what):
        for k in self.sub:
            u, v = got.get(k), want[k]
            t = self.leaf[k]
            z = torch.zeros(t.shape, dtype=fam.hi(t).dtype)
            v = z if v is None else v
            if u is not None and (tuple(u.shape) != tuple(t.shape) or u.dtype != t.dtype):
                self.ctx.fail("gradient-shape", f"{self.spec.fam} {what}: gradient of {k} is {tuple(u.shape)} {u.dtype} for {tuple(t.shape)} {t.dtype}")
            u = z if u is None else u
            if k == "A" and self.diag:
                u, v = torch.diagonal(u), torch.diagonal(v)
            e = fam.err(u, v)
            if not e <= self.tol:
                self.ctx.fail("gradient", f"{self.spec.fam} {self.desc()} {what}: gradient of {k} differs from the whole recurrence by {e:.3g}, "
                              f"blocks {[(n, c) for _, n, c in self.blocks]}")

    def desc(self):
        return str({k: self.p.get(k) for k in ("form", "transpose", "delay", "out_idx", "diag", "dtype", "B", "M", "Ak", "Bk", "Ck", "Dk", "F", "O", "na", "nb", "bk", "ak", "zk")
                    if self.p.get(k) is not None})

    def fault(self, fn, what):
        """an attempt hit by a fault; complete results only"""
        kind, k = self.plan["fault"]
        r = None
        try:
            if kind == "alloc":
                env.RT.L.sim_alloc_fail_at(k)
                try:
                    r = fn()
                finally:
                    env.RT.L.sim_alloc_fail_at(-1)
            else:
                r = stream.interrupted_call(fn, k)
        except KeyboardInterrupt:
            self.ctx.count("backward_interrupted")
        except Exception as e:
            if kind != "alloc":
                self.ctx.fail("interrupt", f"{what}: an interrupt surfaced as {type(e).__name__}: {str(e)[:200]}")
            self.ctx.count("backward_alloc_failed")
        return r

    # -- ways of running backward
    def forward(self, ck=None):
        z = self.z0()
        outs = []
        for b in range(len(self.blocks)):
            if ck is None:
                y, z = self.block(b, z)
            else:
                y, z = checkpoint(lambda zz, b=b: self.raw_block(b, zz), z, use_reentrant=ck)
            outs.append((y, z))
            self.ctx.vtime += self.blocks[b][1]
        return outs

    def grad(self, o, g, leaves, retain=False, what="backward"):
        return self.ctx.lib(f"{self.spec.fam} {self.desc()} {what}", torch.autograd.grad, o, leaves, g, retain_graph=retain, allow_unused=True)

    def run_graph(self, ck=None):
        outs = self.forward(ck)
        o, g = [], []
        for b, (y, zf) in enumerate(outs):
            oo, gg = self.terms(b, y, zf)
            o += oo
            g += gg
        if not o:
            return
        want = self.reference()
        L = [self.leaf[k] for k in self.sub]
        reps = self.plan["reps"] if ck is None else 1
        for j in range(reps):
            last = j == reps - 1
            if self.plan["fault"] and ck is None:
                r = self.fault(lambda: torch.autograd.grad(o, L, g, retain_graph=True, allow_unused=True), "backward")
                if r is not None:
                    self.compare(dict(zip(self.sub, r)), want, "under a fault")
            if ck:
                self.ctx.lib("backward through reentrant checkpoints", torch.autograd.backward, o, g)
                r = [t.grad for t in L]
            else:
                r = self.grad(o, g, L, retain=not last, what=f"backward {j}")
            self.compare(dict(zip(self.sub, r)), want, f"backward {j} of {reps} on one graph" + (" with checkpoint()" if ck is not None else ""))
            self.ctx.logt(*[t for t in r if t is not None])

    def run_accum(self):
        outs = self.forward()
        rs = np.random.RandomState(self.plan["seed"] & 0xffffffff)
        jobs = []
        for b, (y, zf) in enumerate(outs):
            oo, gg = self.terms(b, y, zf)
            jobs += [([x], [w]) for x, w in zip(oo, gg)]
        if not jobs:
            return
        rs.shuffle(jobs)
        want = self.reference()
        for t in self.leaf.values():
            t.grad = None
        for j, (o, g) in enumerate(jobs):
            self.ctx.lib("accumulating backward", torch.autograd.backward, o, g, retain_graph=j < len(jobs) - 1,
                         inputs=[self.leaf[k] for k in self.sub])
            self.ctx.count("accumulated_backward")
        self.compare({k: self.leaf[k].grad for k in self.sub}, want, f"accumulated over {len(jobs)} backward passes")

    def run_manual(self, recompute):
        """each block has a graph of its own; the client carries the state gradient back"""
        ctx = self.ctx
        nb = len(self.blocks)
        zs, outs = [self.z0().detach().clone()], []
        for b in range(nb):
            zl = zs[b].clone().requires_grad_(True)
            if recompute:
                with torch.no_grad():
                    y, zf = self.block(b, zl)
                outs.append(None)
            else:
                y, zf = self.block(b, zl)
                outs.append((y, zf, zl))
            zs.append(zf.detach().clone())
            ctx.vtime += self.blocks[b][1]
        want = self.reference()
        tot = {k: None for k in self.sub}
        gz = None
        for b in reversed(range(nb)):
            if recompute:
                zl = zs[b].clone().requires_grad_(True)
                cfg = self.plan["recfg"] if self.plan.get("recfg") else None
                y, zf = self.block(b, zl, cfg=cfg)
                ctx.count("blocks_recomputed")
            else:
                y, zf, zl = outs[b]
            o, g = self.terms(b, y, zf)
            if gz is not None and zf.requires_grad:
                o.append(zf), g.append(gz)
            names = [k for k in self.sub if k != "zi"]
            L = [self.leaf[k] for k in names] + [zl]
            if not o:
                gz = torch.zeros_like(zl)
                continue
            if self.plan["fault"]:
                self.fault(lambda: torch.autograd.grad(o, L, g, retain_graph=True, allow_unused=True), "block backward")
            r = self.grad(o, g, L, what=f"backward of block {b}")
            for k, v in zip(names, r):
                if v is not None:
                    tot[k] = v if tot[k] is None else tot[k] + v
            gz = r[-1] if r[-1] is not None else torch.zeros_like(zl)
        if "zi" in self.sub:
            t = self.leaf["zi"]
            tot["zi"] = torch.autograd.grad(self.z0(), t, gz.reshape(self.z0().shape))[0]
        self.compare(tot, want, "carried back block by block" + (" with recomputation" if recompute else ""))

    def run_second(self):
        """a backward pass that is itself differentiated (gradient penalties, Hessian products)"""
        s, ctx = self.spec, self.ctx
        hi = {k: fam.hi(self.own(v[0])).requires_grad_(k in self.sub) for k, v in s.T.items()}
        Y, Z = s.ref(tensors=hi, zi=hi["zi"], n=self.end)
        outs = self.forward()
        U = {k: cot(self.leaf[k], self.g, "n") for k in self.sub}
        if self.diag and "A" in U:
            U["A"] = torch.diag(torch.diagonal(U["A"]))
        o, g, oh, gh = [], [], [], []
        for b, (pos, n, _) in enumerate(self.blocks):
            oo, gg = self.terms(b, *outs[b])
            o, g = o + oo, g + gg
            oo, gg = self.terms(b, Y[:, pos:pos + n], Z[pos + n])
            oh, gh = oh + oo, gh + [fam.hi(x) for x in gg]
        if not o or len(o) != len(oh):
            return
        # a non-linear loss, so that the state and input enter the second derivative
        sq = lambda o, g: [w.detach() * (1 + 0.5 * (x.real if x.is_complex() else x)) for x, w in zip(o, g)]

        def first(o, g, leaf):
            L = [leaf[k] for k in self.sub]
            G = torch.autograd.grad(o, L, sq(o, g), create_graph=True, allow_unused=True)
            return L, G

        def second(L, G):
            pairs = [(x, U[k].to(x.dtype)) for k, x in zip(self.sub, G) if x is not None and x.requires_grad]
            if not pairs:
                return None
            return torch.autograd.grad([p for p, _ in pairs], L, [u for _, u in pairs], allow_unused=True)

        L, G = ctx.lib(f"{s.fam} {self.desc()} backward with create_graph", first, o, g, self.leaf)
        Lh, Gh = first(oh, gh, hi)
        self.compare(dict(zip(self.sub, G)), dict(zip(self.sub, Gh)), "first backward with create_graph")
        r, rh = ctx.lib(f"{s.fam} {self.desc()} second backward", second, L, G), second(Lh, Gh)
        if rh is None:
            rh = [None] * len(L)
        if r is None:
            r = [None] * len(L)
        self.tol *= 100
        self.compare(dict(zip(self.sub, r)), dict(zip(self.sub, rh)), "second backward")
        ctx.count("second_backward")
        ctx.logt(*[t for t in r if t is not None])

    def run_fwd(self):
        import torch.autograd.forward_ad as F
        s, ctx = self.spec, self.ctx
        tan = {k: cot(self.leaf[k], self.g, "n") * 0.5 for k in self.sub}
        if self.diag and "A" in tan:
            tan["A"] = torch.diag(torch.diagonal(tan["A"]))
        with F.dual_level():
            hi = {}
            for k, v in s.T.items():
                t = fam.hi(self.own(v[0]))
                hi[k] = F.make_dual(t, fam.hi(tan[k])) if k in tan else t
            Y, Z = s.ref(tensors=hi, zi=hi["zi"], n=self.end)
            dY = F.unpack_dual(Y).tangent
            dZ = [F.unpack_dual(z).tangent for z in Z]
            leaf = {k: F.make_dual(self.own(v[0]), tan[k]) if k in tan else self.own(v[0]) for k, v in s.T.items()}
            z = self.z0(leaf)
            for b, (pos, n, cfg) in enumerate(self.blocks):
                cfg = dict(cfg, raw=2 if cfg.get("raw") == 2 else 0)      # the bare operators define reverse mode only
                try:
                    y, z = s.call(s.block(None, pos, n, leaf), z, cfg)
                except (NotImplementedError, RuntimeError) as e:
                    ctx.fail("raised", f"{s.fam} {self.desc()} forward-mode block [{pos},{pos + n}) cfg {cfg}: {type(e).__name__}: {str(e)[:300]}")
                for got, want, what in ((F.unpack_dual(y).tangent, None if dY is None else dY[:, pos:pos + n], "output"),
                                        (F.unpack_dual(z).tangent, dZ[pos + n], "state")):
                    zero = torch.zeros((), dtype=torch.float64)
                    if got is None and want is None:
                        continue
                    got = torch.zeros_like(fam.hi(want)) if got is None else got
                    want = torch.zeros_like(fam.hi(got)) if want is None else want
                    e = fam.err(got, want)
                    if not e <= self.tol:
                        ctx.fail("forward-mode", f"{s.fam} {self.desc()} block [{pos},{pos + n}) cfg {cfg}: forward derivative of the {what} differs "
                                 f"from that of the recurrence by {e:.3g} (tangents on {sorted(tan)})")
                    ctx.logt(got)
                ctx.vtime += n
                ctx.count("forward_ad_blocks")


class P(core.Prop):
    id = "C09"
    quick, thorough = 28000, 200000
    measure = "distinct (function, form, differentiation history, configuration) situations"
    rule = ("Each run cuts one signal into seeded blocks with per-block unrolling/backends and computes the gradient of a random loss "
            "over outputs and boundary states by one of: one graph with repeated backward on it, shuffled accumulated backward passes, "
            "block graphs linked by hand, recomputation from checkpoints (also under another configuration), torch.utils.checkpoint, "
            "or forward mode; some backward attempts are hit by a failing allocation or an interrupt first. Non-trivial: at least two blocks.")
    real = ["philtorch Python code and autograd formulas", "compiled kernels (instrumented build)", "torch autograd, torchlpc"]
    stubs = ["CPU allocator (simrt)", "OpenMP runtime (simrt, one worker)", "the training client", "helion back end absent"]
    assumptions = ["gradients are compared with autograd through the sample-by-sample recurrence in double precision (1e-9 relative; 1e-6 with an eigendecomposition; 1e-2 in single)",
                   "forward mode is not asked of the bare torch.ops operators"]

    def gen(self, i, r, tier):
        fams = list(fam.FAMS)
        big = r.p(0.06)
        fp = fam.gen_params(r, fams[i % len(fams)], nmax=18 if tier == "quick" else 40, dtype=r.pick(["f64", "c128", "f32", "c64"], [6, 4, 1, 1]),
                            **({"N": r.rint(260, 600), "B": r.rint(1, 2)} if big and r.p(0.2) else {"N": r.rint(40, 120), "B": r.pick([1, 5, 17])} if big else {}))
        if r.p(0.05):       # real signals with complex coefficients and the like; a call may refuse them
            fp["mix"] = r.pick(["rx", "rz", "rc", "hx", "hc", "hz"])
            fp["dtype"] = "c128" if fp["mix"][0] == "r" else r.pick(["f64", "c128"])
        if r.p(0.1):        # a stream at rest: gradients must still reach its initial state
            fp["vals"] = dict(fp.get("vals", {}), zi="zero")
        spec = fam.make(fp)
        ops, left = [], fp["N"]
        style = r.pick(["ones", "mix", "whole", "two"], [2 if left < 30 else 0, 5, 1, 3])
        sticky = spec.config(r)
        sw = r.pick([0, 0.5, 1])
        while left > 0:
            n = {"ones": 1, "mix": r.pick([1, 2, 3, 4, 5, r.rint(1, left)]), "whole": left, "two": max(1, r.rint(1, left))}[style]
            n = min(n, left)
            ops.append([n, spec.config(r) if r.p(sw) else sticky])
            left -= n
        names = list(spec.T)
        skip = [k for k in names if r.p(0.35)] if r.p(0.5) else []
        if r.p(0.2):
            keep = r.pick(names)
            skip = [k for k in names if k != keep]
        return {"fp": fp, "ops": ops, "skip": skip, "mode": r.pick(MODES, [3, 2, 2, 2, 1, 1, 3, 2]), "reps": r.rint(1, 3),
                "py": r.pick([1.0, 0.6, 0.0], [4, 2, 1]), "pz": r.pick([0.0, 0.5, 1.0]), "last_only": int(r.p(0.15)),
                "wk": r.pick(["n", "one", "t", "row", "j"], [4, 2, 1, 1, 1]), "vk": r.pick(["n", "one", "t", "j"], [4, 1, 1, 1]),
                "fault": [r.pick(["alloc", "intr"]), r.rint(0, 60)] if r.p(0.2) else None,
                "recfg": spec.config(r) if r.p(0.5) else None, "seed": r.rint(0, 2 ** 31 - 1), "fill": r.pick([1, 2, 5])}

    def run(self, plan, ctx):
        env.RT.fill(plan["fill"], 3)
        env.RT.L.sim_alloc_recycle(plan["seed"] % 3 == 0)
        c = Chain(plan, ctx)
        if not c.blocks:
            return
        m = plan["mode"]
        if plan["fp"].get("mix"):
            c.tol = 1e-6 if plan["fp"]["mix"][0] == "r" else 1e-2
            try:
                c.run_graph()
                ctx.count("mixed_dtype_runs")
            except core.Violation as e:
                if e.kind != "raised":
                    raise
                ctx.count("mixed_dtype_refused")
            return
        ctx.log(m, [(n, cf) for _, n, cf in c.blocks])
        {"graph": c.run_graph, "accum": c.run_accum, "manual": lambda: c.run_manual(False), "ckpt": lambda: c.run_manual(True),
         "tuc": lambda: c.run_graph(False), "tucr": lambda: c.run_graph(True), "fwd": c.run_fwd, "second": c.run_second}[m]()
        ctx.count("mode_" + m)
        ctx.count("runs_" + c.spec.fam)
        for pos, n, cfg in c.blocks:
            ctx.state(c.spec.fam, plan["fp"].get("form"), plan["fp"].get("transpose"), m, n, str(cfg), tuple(c.sub))
        ctx.nontrivial = len(c.blocks) >= 2


PROP = P()
