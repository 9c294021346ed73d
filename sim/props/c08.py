"""A multiplexing server: independent streams processed in changing batches,
some of them corrupted; every other stream must not notice."""
import numpy as np
import torch
from .. import core, env, fam, calls
from .c09 import GTOL, cot

BAD = [float("nan"), float("inf"), float("-inf"), 1e300, -1e38]
ONE = ["df1", "filtfilt", "spline", "lfiltic", "lfilter_zi", "diaglong", "mat"]


def refused(e):
    """a decomposition or solve declined non-finite coefficients"""
    return isinstance(e, torch.linalg.LinAlgError) or "linalg" in str(e)


def poison(t, kind, rs, where):
    """the tensor with one row's values spoiled"""
    v = BAD[kind % len(BAD)]
    if kind % len(BAD) == 3 and t.dtype in (torch.float32, torch.complex64):
        v = 1e30
    if t.numel() == 0:
        return
    if where == "all":
        t.fill_(v)
    else:
        f = t.reshape(-1)
        i = int(rs.randint(0, f.numel()))
        idx = np.unravel_index(i, tuple(t.shape)) if t.dim() else ()
        t[idx] = v


class Server:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.p = plan["fp"]
        self.s = s = fam.make(self.p)
        self.K = s.B
        self.T = {k: t.clone() for k, (t, _) in s.T.items()}    # what is really fed
        self.Y, self.Z = s.ref()
        self.pos = [0] * self.K
        self.z = [self.zrow(s.T["zi"][0], k) for k in range(self.K)]
        self.bad = set()
        self.rs = np.random.RandomState(plan["seed"] & 0xffffffff)
        self.g = torch.Generator().manual_seed(plan["seed"])
        self.tol = s.tol(None)
        self.gtol = GTOL[s.dt] * (1e4 if self.p.get("diag") else 1)
        self.aligned = any("t" in tags and "b" not in tags for k, (t, tags) in s.T.items() if k != "zi")

    def zrow(self, t, k):
        return t[k].clone() if "b" in self.s.T["zi"][1] else t.clone()

    def fit(self, rows, n):
        n = min([n] + [self.s.N - self.pos[k] for k in rows])
        for m in range(n, 0, -1):
            if self.s.ok(len(rows), m) and self.s.ok(1, m):
                return m
        return 0

    def feed(self, rows, starts, n, T=None):
        T = T or self.T
        return {k: fam.slice_rows(T[k], tags, rows, starts, n, self.K) for k, (t, tags) in self.s.T.items() if k != "zi"}

    def zin(self, rows):
        return torch.stack([self.z[k] for k in rows])

    def run(self, rows, starts, n, z, cfg, grad):
        ts = self.feed(rows, starts, n)
        if grad:
            ts = {k: v.detach().clone().requires_grad_(True) for k, v in ts.items()}
            z = z.detach().clone().requires_grad_(True)
        y, zf = self.s.call(ts, z, cfg)
        return ts, z, y, zf

    def batch(self, rows, n, cfg, grad):
        ctx, s = self.ctx, self.s
        rows = [k for k in dict.fromkeys(x % self.K for x in rows) if self.pos[k] < s.N]
        if not rows:
            return
        if self.aligned:
            rows = [k for k in rows if self.pos[k] == self.pos[rows[0]]]
        n = self.fit(rows, n)
        if not n:
            return
        starts = [self.pos[k] for k in rows]
        good = [k for k in rows if k not in self.bad]
        tag = f"{s.fam} {cfg} streams {rows} (corrupted {sorted(set(rows) - set(good))}) at {starts} for {n} samples"
        z = self.zin(rows)
        before = {k: calls.bits(v) for k, v in self.T.items()}
        try:
            ts, zl, y, zf = self.run(rows, starts, n, z, cfg, grad)
        except Exception as e:
            if set(rows) != set(good) and refused(e):
                ctx.count("non_finite_coefficients_rejected")
                rows = good
                if not rows:
                    return
                return self.batch(rows, n, cfg, grad)
            ctx.fail("raised", f"{tag}: {type(e).__name__}: {str(e)[:300]}")
        if {k: calls.bits(v) for k, v in self.T.items()} != before:
            ctx.fail("changed", f"{tag}: an argument changed")
        if tuple(y.shape[:2]) != (len(rows), n):
            ctx.fail("shape", f"{tag}: output {tuple(y.shape)}")
        for i, k in enumerate(rows):
            if k in self.bad:
                continue
            for what, got, want in (("output", y[i], self.Y[k, self.pos[k]:self.pos[k] + n]), ("state", zf[i], self.Z[self.pos[k] + n][k])):
                if tuple(got.shape) != tuple(want.shape):
                    ctx.fail("shape", f"{tag}: {what} of stream {k} has shape {tuple(got.shape)}, alone {tuple(want.shape)}")
                e = fam.err(got, want)
                if not e <= self.tol:
                    ctx.fail("leak" if len(good) < len(rows) else "mixed", f"{tag}: {what} of stream {k} differs by {e:.3g} from the stream processed alone")
        if grad and good:
            self.gradient(rows, good, starts, n, ts, zl, y, zf, cfg, tag)
        for i, k in enumerate(rows):
            self.z[k] = zf[i].detach().clone()
            self.pos[k] += n
            ctx.vtime += n
        ctx.count("batches")
        ctx.count("batch_rows", len(rows))
        if len(good) < len(rows):
            ctx.count("batches_with_corrupted_stream")
        ctx.log(rows, starts, n, cfg)
        for i, k in enumerate(rows):
            if k in good:
                ctx.logt(y[i])
        ctx.state(s.fam, self.p.get("form"), self.p.get("transpose"), tuple(rows), tuple(k in self.bad for k in rows), n, str(cfg), grad)

    def gradient(self, rows, good, starts, n, ts, zl, y, zf, cfg, tag):
        """gradients of the good streams, whatever arrives for the others"""
        ctx, s = self.ctx, self.s
        w, v = cot(y, self.g, "n").clone(), cot(zf, self.g, "n").clone()
        full = len(good) == len(rows)
        for i, k in enumerate(rows):
            if k in self.bad:
                # a client stops listening to a broken stream, or passes its NaN gradient on
                kind = self.plan["badgrad"]
                if kind == 0:
                    w[i].zero_(), v[i].zero_()
                elif kind == 1:
                    w[i].fill_(float("nan")), v[i].fill_(float("nan"))
        names = list(ts)
        try:
            G = torch.autograd.grad([y, zf], [ts[k] for k in names] + [zl], [w, v], allow_unused=True)
        except Exception as e:
            if not full and refused(e):
                ctx.count("non_finite_coefficients_rejected")
                return
            ctx.fail("raised", f"{tag}: backward: {type(e).__name__}: {str(e)[:300]}")
        shared = {}
        for i, k in enumerate(rows):
            if k in self.bad:
                continue
            ts1, z1, y1, zf1 = self.run([k], [starts[i]], n, self.zin([k]), cfg, True)
            G1 = torch.autograd.grad([y1, zf1], [ts1[m] for m in names] + [z1], [w[i:i + 1].clone(), v[i:i + 1].clone()], allow_unused=True)
            for m, a, b in zip(names + ["zi"], G, G1):
                tags = s.T[m][1] if m != "zi" else "b"
                if "b" not in tags:
                    if b is not None:
                        shared[m] = b if m not in shared else shared[m] + b
                    continue
                a = torch.zeros_like(ts[m] if m != "zi" else zl) if a is None else a
                b = torch.zeros_like(ts1[m] if m != "zi" else z1) if b is None else b
                e = fam.err(a[i:i + 1], b)
                if not e <= self.gtol:
                    ctx.fail("gradient-leak" if not full else "gradient-mixed", f"{tag}: gradient of {m} of stream {k} differs by {e:.3g} from that of the stream alone")
        if full:
            for m, b in shared.items():
                a = G[names.index(m)]
                e = fam.err(torch.zeros_like(b) if a is None else a, b)
                if not e <= self.gtol * 10:
                    ctx.fail("gradient-mixed", f"{tag}: gradient of the shared {m} differs by {e:.3g} from the sum over the streams alone")
        ctx.count("gradient_batches")

    def corrupt(self, k, what, kind, where):
        s = self.s
        own = [m for m, (t, tags) in s.T.items() if "b" in tags and m not in ("zi",)]
        m = {"x": "x", "zi": "zi"}.get(what) or (own[what % len(own)] if own else "x")
        if m == "zi":
            if "b" in s.T["zi"][1] or True:
                poison(self.z[k], kind, self.rs, where)
        else:
            if "t" in s.T[m][1] and where != "all":
                row = self.T[m][k][self.pos[k]:] if self.pos[k] < s.N else self.T[m][k]
            else:
                row = self.T[m][k]
            poison(row, kind, self.rs, where)
        self.bad.add(k)
        self.ctx.count(f"corrupted_{m}_{['nan', 'inf', 'minf', 'huge', 'mhuge'][kind % 5]}")

    def rejoin(self, k):
        """the stream is repaired and starts again from a clean checkpoint"""
        s = self.s
        self.bad.discard(k)
        for m, (t, tags) in s.T.items():
            if m != "zi" and "b" in tags:
                self.T[m][k] = t[k]
        self.pos[k] = 0
        self.z[k] = self.zrow(s.T["zi"][0], k)
        self.ctx.count("stream_rejoined")

    def finish(self):
        """faults stop: every remaining stream completes"""
        for _ in range(3 * self.s.N + 10):
            todo = [k for k in range(self.K) if self.pos[k] < self.s.N and k not in self.bad and not self.stuck(k)]
            if not todo:
                return
            p0 = list(self.pos)
            self.batch(todo, self.s.N, {"u": 1, "be": "ssm"}, 0)
            if p0 == self.pos:
                for k in todo:
                    self.batch([k], self.s.N, {"u": 1, "be": "ssm"}, 0)
                if p0 == self.pos:
                    return
        self.ctx.fail("liveness", "streams do not finish")

    def stuck(self, k):
        return not self.fit([k], self.s.N)


# -------------------------------------------------------------- single calls
def batched(c, k):
    """is the leading axis of argument k the stream axis?"""
    if isinstance(c, calls.FamCall):
        return "b" in c.spec.T[k][1]
    p = c.p
    if c.name.startswith("mat"):
        return bool(p["bo"])
    if k == "x" and p["call"] != "lfiltic":
        return True
    if p["call"] == "df1":
        return bool(p["bo"] if k == "b" else p["ao"])
    if p["call"] == "diaglong":
        return True
    return bool(p.get("ao", p["bo"]) if k in ("a", "y") else p["bo"])


class P(core.Prop):
    id = "C08"
    quick, thorough = 28000, 200000
    measure = "distinct (function, group composition, corruption, block) situations"
    rule = ("Each run multiplexes 2-7 (sometimes up to 40) streams: at each step a seeded subset in seeded order is processed as one batch from the "
            "streams' own positions and states; streams join, stall, become NaN/Inf/huge in samples, state or coefficients, and rejoin after repair. "
            "Outputs, states and gradients of every healthy stream are compared with the recurrence and with the stream processed alone. "
            "Functions without streaming state are called once on a batch with corrupted rows. Non-trivial: a batch of at least two streams ran.")
    real = ["philtorch Python code", "compiled kernels (instrumented build)", "torch, torchlpc"]
    stubs = ["OpenMP runtime (simrt, 1-4 workers)", "CPU allocator (simrt)", "the multiplexing server and its clients", "helion back end absent"]
    assumptions = ["equality up to rounding (1e-10 double, 5e-5 single; 1e-8 with an eigendecomposition)",
                   "a call may reject non-finite coefficients of an eigendecomposition or linear solve with LinAlgError"]

    def gen(self, i, r, tier):
        if i % 4 == 3:
            c = calls.gen(r, kinds=ONE, B=r.rint(2, 6), nmax=20, own_only=r.p(0.7), lay=r.p(0.3))
            return {"one": c, "rows": [r.rint(0, 5) for _ in range(r.rint(1, 3))], "kind": r.rint(0, 4), "arg": r.rint(0, 3),
                    "where": r.pick(["all", "one"]), "seed": r.rint(0, 2 ** 31 - 1), "perm": r.rint(0, 2 ** 31 - 1), "ops": [],
                    "grad": int(r.p(0.5)), "fill": r.pick([1, 2, 5])}
        fams = list(fam.FAMS)
        K, N = r.rint(2, 7) if not r.p(0.05) else r.rint(16, 40), r.rint(4, 24)
        long = r.p(0.025)
        if long:
            K, N = r.pick([(r.rint(2, 4), r.rint(260, 1100)), (r.rint(100, 300), r.rint(2, 6))], [2, 1])
        fp = fam.gen_params(r, fams[(i // 4 * 3 + i % 4) % len(fams)], B=K, N=N, own_only=r.p(0.55))
        for k in list(fp):
            if k == "zk" and fp[k] != "own":
                fp[k] = "own"
        fp.pop("x1d", None)
        fp.pop("lay", None)
        spec = fam.make(fp)
        ops = []
        for _ in range(r.rint(3, 14)):
            k = r.pick(["grp", "bad", "rejoin"], [6, 2, 1])
            if k == "grp":
                rows = list(range(K))
                r.r.shuffle(rows)
                rows = rows[:r.pick([K, K, r.rint(1, K), 2])]
                n = r.pick([1, 2, 3, r.rint(1, 8), K])
                if long and N > 100 and r.p(0.6):
                    n = r.pick([r.rint(100, N), (1 << r.rint(5, 9)) - r.rint(-1, 5)])
                ops.append(["grp", rows, n, spec.config(r), int(r.p(0.3))])
            elif k == "bad":
                ops.append(["bad", r.rint(0, K - 1), r.pick(["x", "zi", 0, 1, 2]), r.rint(0, 4), r.pick(["one", "all"])])
            else:
                ops.append(["rejoin", r.rint(0, K - 1)])
        return {"fp": fp, "ops": ops, "badgrad": r.rint(0, 2), "omp": r.rint(1, 4), "seed": r.rint(0, 2 ** 31 - 1), "fill": r.pick([1, 2, 5])}

    def run(self, plan, ctx):
        env.RT.fill(plan["fill"], 9)
        env.RT.L.sim_alloc_recycle(plan["seed"] % 3 == 0)
        if "one" in plan:
            return self.one(plan, ctx)
        env.RT.omp(plan["omp"], 1, plan["seed"])
        s = Server(plan, ctx)
        if "b" not in s.s.T["zi"][1]:
            return
        for o in plan["ops"]:
            if o[0] == "grp":
                s.batch(*o[1:])
            elif o[0] == "bad":
                s.corrupt(o[1] % s.K, *o[2:])
            else:
                s.rejoin(o[1] % s.K)
        s.finish()
        ctx.count("runs_" + s.s.fam)
        ctx.nontrivial = ctx.counts.get("batch_rows", 0) >= 2

    def one(self, plan, ctx):
        """one call on a batch, against each stream alone"""
        c = calls.make(plan["one"])
        B = c.p["B"]
        a = c.args()
        names = [k for k in a if batched(c, k)]
        if not names or c.name == "lfilter_zi" and not c.p["tr"] and "a" not in names:
            return      # (direct form II: the steady state depends on the denominator alone)
        rs = np.random.RandomState(plan["seed"] & 0xffffffff)
        bad = {r % B for r in plan["rows"]}
        if len(bad) == B:
            bad.pop()
        perm = np.random.RandomState(plan["perm"] & 0xffffffff).permutation(B)
        clean = {k: t.clone() for k, t in a.items()}
        m = names[plan["arg"] % len(names)]
        for k in bad:
            poison(a[m][k], plan["kind"], rs, plan["where"])
        joint = {k: a[k][list(perm)] if k in names else a[k] for k in a}
        grad = plan["grad"]
        tag = f"{c.desc()} rows {list(perm)} with {m} of {sorted(bad)} corrupted"
        leaf = lambda d: {k: t.detach().clone().requires_grad_(True) for k, t in d.items()} if grad else {k: t.clone() for k, t in d.items()}
        joint = leaf(joint)
        try:
            R = c.run(joint)
        except Exception as e:
            if refused(e):
                ctx.count("non_finite_coefficients_rejected")
                return
            ctx.fail("raised", f"{tag}: {type(e).__name__}: {str(e)[:300]}")
        alone = {}
        for i, k in enumerate(perm):
            if k in bad:
                continue
            one = leaf({n: clean[n][k:k + 1] if n in names else clean[n] for n in clean})
            r1 = ctx.lib(tag + f" stream {k} alone", c.run, one)
            alone[i] = (one, r1)
            if len(r1) != len(R):
                ctx.fail("shape", f"{tag}: {len(R)} results, {len(r1)} alone")
            for j, (x, y) in enumerate(zip(R, r1)):
                if x.dim() != y.dim() or x.shape[0] != B:
                    ctx.fail("shape", f"{tag}: result {j} has shape {tuple(x.shape)}, alone {tuple(y.shape)}")
                e = fam.err(x[i:i + 1], y)
                if not e <= 3 * c.tol():
                    ctx.fail("leak", f"{tag}: result {j} of stream {k} differs by {e:.3g} from the stream processed alone")
                ctx.logt(y)
        if grad and any(t.requires_grad for t in R):
            g = torch.Generator().manual_seed(plan["seed"])
            o = [t for t in R if t.requires_grad]
            W = [cot(t, g, "n").clone() for t in o]
            for i, k in enumerate(perm):
                if k in bad:
                    for w in W:
                        w[i].zero_()
            L = [joint[k] for k in names]
            try:
                G = torch.autograd.grad(o, L, W, allow_unused=True)
            except Exception as e:
                if refused(e):
                    ctx.count("non_finite_coefficients_rejected")
                    return
                ctx.fail("raised", f"{tag}: backward: {type(e).__name__}: {str(e)[:300]}")
            for i, (one, r1) in alone.items():
                G1 = torch.autograd.grad([t for t in r1 if t.requires_grad], [one[k] for k in names], [w[i:i + 1].clone() for w in W], allow_unused=True)
                for k, x, y in zip(names, G, G1):
                    if x is None or y is None:
                        continue
                    e = fam.err(x[i:i + 1], y)
                    if not e <= max(c.tol() * 1e3, 1e-7):
                        ctx.fail("gradient-leak", f"{tag}: gradient of {k} of row {i} differs by {e:.3g} from the stream alone")
            ctx.count("gradient_batches")
        ctx.count("single_calls_" + c.p["call"])
        ctx.state(c.name, c.p.get("form"), c.p.get("k"), c.p.get("u"), B, plan["kind"], m, len(bad))
        ctx.vtime += 1
        ctx.nontrivial = B >= 2

    def cleanup(self):
        env.RT.omp(1)


PROP = P()
