"""Clients that reuse their buffers: no call changes an argument, no result
shares memory with anything else."""
import contextlib
import numpy as np
import torch
import torch.autograd.forward_ad as fwad
from .. import core, env, fam, calls

KINDS = ["fam", "df1", "diaglong", "filtfilt", "spline", "lfiltic", "lfilter_zi", "mat"]


def version(t):
    return 0 if t.is_inference() else t._version


class Cell:
    """a tensor somebody holds, and the value they believe it has"""
    __slots__ = ("t", "tag", "what", "want")

    def __init__(self, t, tag, what):
        self.t, self.tag, self.what = t, tag, what
        self.want = calls.bits(t)


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.calls = [calls.make(p) for p in plan["calls"]]
        self.cells = []
        self.recs = []
        self.ring = {}
        self.g = torch.Generator().manual_seed(plan["seed"])
        self.ntag = 0

    # -- argument construction
    def plain(self, c):
        return {k: (t, self.tag()) for k, t in c.args().items()}

    def tag(self):
        self.ntag += 1
        return self.ntag

    def args(self, c, mode, seed):
        a = self.plain(c)
        rs = np.random.RandomState(seed & 0xffffffff)
        if mode == "ring":
            out = {}
            for k, (t, _) in a.items():
                key = (k, str(t.dtype))
                n = t.numel()
                if key not in self.ring or self.ring[key].numel() < n:
                    self.ring[key] = torch.zeros(max(n, 64) * 2, dtype=t.dtype)
                    self.ring[key + ("tag",)] = self.tag()
                v = self.ring[key][:n].view(t.shape)
                self.write(v, self.ring[key + ("tag",)], lambda: v.copy_(t))
                out[k] = (v, self.ring[key + ("tag",)])
            return out
        if mode == "same":
            ks = list(a)
            rs.shuffle(ks)
            for i in ks:
                for j in ks:
                    if i != j and a[i][0].shape == a[j][0].shape and a[i][0].dtype == a[j][0].dtype:
                        # the better-behaved one (coefficients) serves as both
                        s, d = (i, j) if i in ("a", "A") else (j, i) if j in ("a", "A") else (i, j)
                        a[d] = a[s]
                        self.ctx.count("same_tensor_twice")
                        return a
            return a
        if mode == "overlap":
            by = {}
            for k, (t, _) in a.items():
                by.setdefault(t.dtype, []).append(k)
            for dt, ks in by.items():
                n = max(a[k][0].numel() for k in ks)
                v = rs.standard_normal(n + 6) * 0.12
                if dt.is_complex:
                    v = v + 1j * rs.standard_normal(n + 6) * 0.12
                buf = torch.as_tensor(v).to(dt)
                tag = self.tag()
                for k in ks:
                    t = a[k][0]
                    s = int(rs.randint(0, n + 7 - t.numel()))
                    a[k] = (buf[s:s + t.numel()].view(t.shape), tag)
            self.ctx.count("overlapping_arguments")
            return a
        if mode == "expand":
            for k, (t, tag) in list(a.items()):
                if t.dim() >= 1 and rs.uniform() < 0.6:
                    d = int(rs.randint(0, t.dim()))
                    if k in ("a", "A") and d == t.dim() - 1:
                        d = 0
                    if k in ("a", "A") and (t.dim() < 2 or (k == "A" and t.dim() < 3)):
                        continue
                    a[k] = (t.narrow(d, 0, 1).expand(t.shape) if t.shape[d] else t, tag)
            self.ctx.count("expanded_arguments")
            return a
        if mode == "state":
            for r in reversed(self.recs):
                if r["call"] is c and "zi" in a and len(r["res"]) == 2 and r["grad"] != 3 and r["res"][1].t.shape == a["zi"][0].shape \
                        and r["res"][1].t.dtype == a["zi"][0].dtype:
                    a["zi"] = (r["res"][1].t.detach(), r["res"][1].tag)
                    self.ctx.count("state_passed_on")
                    break
        return a

    # -- checks
    def write(self, t, tag, f):
        """the client writes to t: cells under the same tag change with it"""
        with torch.inference_mode() if t.is_inference() else torch.no_grad():
            f()
        for c in self.cells:
            if c.tag == tag:
                c.want = calls.bits(c.t)

    def verify(self, when):
        for c in self.cells:
            if calls.bits(c.t) != c.want:
                self.ctx.fail("changed", f"{c.what} changed {when}")

    def run_call(self, ci, mode, seed, grad):
        ctx = self.ctx
        c = self.calls[ci]
        at = self.args(c, mode, seed)
        if grad == 3:
            with torch.inference_mode():
                at = {k: (t.clone(), self.tag()) for k, (t, _) in at.items()}
            ctx.count("inference_mode_calls")
        what = f"call {len(self.recs)} ({c.desc()}, {mode} arguments)"
        args = {k: t for k, (t, _) in at.items()}
        if grad == 1:
            seen = {}
            for k, t in args.items():
                if id(t) not in seen:
                    seen[id(t)] = t.detach().requires_grad_(True) if (t.is_floating_point() or t.is_complex()) else t
                args[k] = seen[id(t)]
        snap = {k: (version(t), tuple(t.shape), t.stride(), t.storage_offset(), t.requires_grad, t.data_ptr()) for k, t in args.items()}
        stor = {k: calls.storage_bits(t) for k, t in args.items()}
        acells = [Cell(t.detach(), at[k][1], f"argument {k} of {what}") for k, t in args.items()]
        ref_args = {k: t.detach().clone() for k, t in args.items()} if mode in ("same", "overlap", "expand", "ring") else None
        try:
            with torch.inference_mode() if grad == 3 else torch.no_grad() if grad == 2 else contextlib.nullcontext():
                res = c.run(args)
        except Exception as e:
            if mode in ("overlap", "same", "expand"):
                # values of such arguments may be unsuitable (singular matrices): the same call on copies must fail as well
                try:
                    c.run({k: v.clone() for k, v in ref_args.items()})
                except Exception:
                    ctx.count("call_rejected")
                    for k, t in args.items():
                        if calls.storage_bits(t) != stor[k]:
                            ctx.fail("argument-changed", f"{what}: argument {k} was modified by a call that raised")
                    return
            ctx.fail("raised", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        self.check_args(what, args, snap, stor)
        if ref_args is not None:
            r2 = ctx.lib(what + " on copies", c.run, ref_args)
            fin = all(torch.isfinite(t).all() for t in r2)
            tol = max(c.tol() * 100, 1e-7) if c.dt in ("f64", "c128") else 3e-2
            big = max([float(t.detach().abs().max()) for t in r2 if t.numel()] + [0.0])
            if len(res) != len(r2):
                ctx.fail("aliased-arguments", f"{what}: {len(res)} results, {len(r2)} on copies of the arguments")
            if fin and big < 1e3:
                for i, (u, v) in enumerate(zip(res, r2)):
                    e = fam.err(u, v)
                    if not e <= tol:
                        ctx.fail("aliased-arguments", f"{what}: result {i} differs by {e:.3g} from the same call on copies of the arguments")
        if grad == 1 and c.diff and any(r.requires_grad for r in res):
            gs = [torch.randn(r.shape, generator=self.g, dtype=torch.float64).to(r.dtype) for r in res if r.requires_grad]
            gb = [calls.storage_bits(g) for g in gs]
            rb = [calls.bits(r) for r in res]
            leaves = list({id(t): t for t in args.values() if t.requires_grad}.values())
            try:
                torch.autograd.grad([r for r in res if r.requires_grad], leaves, gs, allow_unused=True)
            except Exception as e:
                if "linalg_eig_backward" not in str(e):     # torch's own conditioning test on overwritten values
                    ctx.fail("raised", f"{what} backward: {type(e).__name__}: {str(e)[:300]}")
            self.check_args(what + " (backward)", args, snap, stor)
            if [calls.storage_bits(g) for g in gs] != gb:
                ctx.fail("argument-changed", f"{what}: backward changed the incoming gradient")
            if [calls.bits(r) for r in res] != rb:
                ctx.fail("changed", f"{what}: backward changed a result")
            ctx.count("backward")
        if grad == 1 and c.diff and mode in ("plain", "state", "ring") and seed % 2:
            self.forward_mode(c, what, {k: t.detach() for k, t in args.items()}, seed)
            self.check_args(what + " (forward-mode differentiation)", args, snap, stor)
        tags = [self.tag() for _ in res]
        rcells = [Cell(r.detach(), tg, f"result {i} of {what}") for i, (r, tg) in enumerate(zip(res, tags))]
        self.cells += acells + rcells
        self.recs.append({"call": c, "args": acells, "res": rcells, "mode": mode, "what": what,
                          "orig": [r.detach().clone() for r in res], "grad": grad})
        ctx.logt(*res)

    def forward_mode(self, c, what, args, seed):
        """one directional derivative; the client keeps the direction"""
        fl = [k for k in sorted(args) if args[k].is_floating_point() or args[k].is_complex()]
        on = [k for j, k in enumerate(fl) if (seed >> (j + 1)) & 1] or fl
        tan = {k: torch.randn(args[k].shape, generator=self.g, dtype=torch.float64).to(args[k].dtype) for k in on}
        tb = {k: calls.storage_bits(t) for k, t in tan.items()}
        try:
            with fwad.dual_level():
                res = c.run({k: fwad.make_dual(t, tan[k]) if k in tan else t for k, t in args.items()})
                out = [fwad.unpack_dual(r) for r in res]
                keep = [(i, calls.bits(o.tangent), o.tangent) for i, o in enumerate(out) if o.tangent is not None]
        except Exception:
            self.ctx.count("forward_mode_rejected")     # an operation without a forward derivative
            keep = []
        else:
            self.ctx.count("forward_mode")
        for k in tan:
            if calls.storage_bits(tan[k]) != tb[k]:
                self.ctx.fail("argument-changed", f"{what}: forward-mode differentiation changed the tangent of {k}")
        for k in tan:
            with torch.no_grad():
                tan[k].fill_(float("nan"))
        for i, b, t in keep:
            if calls.bits(t) != b:
                self.ctx.fail("changed", f"{what}: the tangent of result {i} changed when the tangents of the arguments were overwritten")

    def check_args(self, what, args, snap, stor):
        for k, t in args.items():
            now = (version(t), tuple(t.shape), t.stride(), t.storage_offset(), t.requires_grad, t.data_ptr())
            if calls.storage_bits(t) != stor[k]:
                self.ctx.fail("argument-changed", f"{what}: argument {k} (or memory around it) was modified")
            if now != snap[k]:
                names = ("version", "shape", "stride", "offset", "requires_grad", "pointer")
                self.ctx.fail("argument-changed", f"{what}: argument {k}: {[n for n, a, b in zip(names, now, snap[k]) if a != b]} changed")

    def garble(self, t, kind):
        if t.dtype.is_complex or t.dtype.is_floating_point:
            t.fill_(float("nan") if kind == 0 else 1e30 if kind == 1 else 0.0)
        else:
            t.fill_(7)

    def op(self, o):
        ctx, R = self.ctx, self.recs
        if o[0] == "call":
            self.run_call(o[1] % len(self.calls), o[2], o[3], o[4])
            ctx.count("calls_" + o[2])
            when = f"during {R[-1]['what']}" if R else ""
        elif not R:
            return
        elif o[0] == "warg":
            r = R[o[1] % len(R)]
            if not r["args"]:
                return
            c = r["args"][o[2] % len(r["args"])]
            try:
                self.write(c.t, c.tag, lambda: self.garble(c.t, o[3]))
            except RuntimeError:        # expanded memory cannot be written through this view
                with torch.inference_mode(c.t.is_inference()):
                    base = torch.empty(0, dtype=c.t.dtype).set_(c.t.untyped_storage())
                self.write(base, c.tag, lambda: self.garble(base, o[3]))
            ctx.count("argument_overwritten")
            when = f"when {c.what} was overwritten"
        elif o[0] == "wres":
            r = R[o[1] % len(R)]
            c = r["res"][o[2] % len(r["res"])]
            try:
                self.write(c.t, c.tag, lambda: self.garble(c.t, o[3]))
            except RuntimeError:
                ctx.count("unwritable_result")
                return
            ctx.count("result_overwritten")
            when = f"when {c.what} was overwritten"
        else:
            r = R[o[1] % len(R)]
            if r["mode"] != "plain":
                return
            c = r["call"]
            res = ctx.lib(r["what"] + " again", c.run, c.args())
            if len(res) != len(r["orig"]) or not all(fam.err(u, v) <= 3 * c.tol() for u, v in zip(res, r["orig"])):
                ctx.fail("later-result", f"{r['what']}: the same call later, after buffers were overwritten, returns something else")
            ctx.count("call_repeated")
            when = f"when {r['what']} was repeated"
        self.verify(when)
        ctx.vtime += 1
        ctx.log(*o)


class P(core.Prop):
    id = "C06"
    quick, thorough = 45000, 400000
    measure = "distinct (function, argument sharing, operation) situations"
    time_unit = "client operations"
    rule = ("Each run simulates a client that makes 1-3 different calls several times with arguments that are plain, strided, lazily "
            "conjugated, expanded, overlapping, the same tensor twice, views of a reused ring buffer or an earlier result, runs backward "
            "passes and directional derivatives, and overwrites arguments and results at seeded moments. Every tensor the client holds is compared byte for byte "
            "after every step. Non-trivial: at least one overwrite happened after a call.")
    real = ["philtorch Python code", "compiled kernels (instrumented build)", "torch, torchlpc"]
    stubs = ["CPU allocator (simrt)", "OpenMP runtime (simrt, one worker)", "the client"]
    assumptions = ["a result may overlap itself; only sharing between different tensors is forbidden"]

    def gen(self, i, r, tier):
        n = r.rint(1, 3)
        cs = []
        fams = list(fam.FAMS)
        for k in range(n):
            c = calls.gen(r, kinds=KINDS if (i + k) % 3 else ["fam"], fams=[fams[(i // 3 + k) % len(fams)]] if not (i + k) % 3 else None,
                          nmax=14)
            if c["call"] == "mat" and c["k"] not in ("companion", "eigvec"):
                c["k"] = "polydiv"      # the other matrix helpers are internal
            if r.p(0.2):
                c.setdefault("lay", {})
                for nme in ("x", "a", "b", "y", "zi", "A", "B", "C", "D"):
                    if r.p(0.5):
                        c["lay"][nme] = r.pick(["j", "s", "t", "o"])
            cs.append(c)
        ops = []
        for _ in range(r.rint(2, 9)):
            k = r.pick(["call", "warg", "wres", "again"], [5, 2, 2, 1]) if ops else "call"
            if k == "call":
                ops.append(["call", r.rint(0, n - 1), r.pick(["plain", "ring", "same", "overlap", "expand", "state"], [4, 2, 2, 2, 2, 2]),
                            r.rint(0, 2 ** 31), r.pick([0, 1, 2], [5, 3, 2])])
                if ops[-1][2] == "plain" and r.p(0.25):
                    ops[-1][4] = 3
            elif k == "again":
                ops.append(["again", r.rint(0, 9)])
            else:
                ops.append([k, r.rint(0, 9), r.rint(0, 5), r.rint(0, 2)])
        return {"calls": cs, "ops": ops, "seed": r.rint(0, 2 ** 31), "fill": r.pick([1, 2, 5])}

    def run(self, plan, ctx):
        env.RT.fill(plan["fill"], 5)
        w = World(plan, ctx)
        for o in plan["ops"]:
            w.op(o)
            for c in w.calls:
                ctx.state(c.name, o[0], o[2] if o[0] == "call" else o[3] if len(o) > 3 else 0, len(w.recs))
        # epilogue: every argument buffer goes away, then every result in turn
        for j in range(len(w.recs)):
            for i in range(len(w.recs[j]["args"])):
                w.op(["warg", j, i, 0])
        for j in range(len(w.recs)):
            for i in range(len(w.recs[j]["res"])):
                w.op(["wres", j, i, 1])
        for j in range(len(w.recs)):
            w.op(["again", j])
        ctx.nontrivial = bool(w.recs)

    def cleanup(self):
        pass


PROP = P()
