"""A training client that reuses and edits its tensors between forward and
backward: the gradient is that of the computation as performed, or an error."""
import numpy as np
import torch
from .. import core, env, fam, calls
from .c09 import cot

HOW = ["mul", "nan", "zero", "copy", "slice", "restore", "twice", "other"]


class Client:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.c = calls.make(plan["call"])
        if self.c.name == "mat.vandermonde":    # torch.vander cannot be differentiated from order 4 on
            plan = self.plan = dict(plan, kinds={"a": "const"})

    # -- the computation: `blocks` calls chained by their states
    def build(self):
        """fresh tensors; returns (leaves, blocks' argument dicts, everything the client holds)"""
        plan, c = self.plan, self.c
        g = torch.Generator().manual_seed(plan["seed"])
        leaves, held, blocks = {}, [], []
        chain = plan["chain"] if isinstance(c, calls.FamCall) and "zi" in c.base else 1
        for b in range(chain):
            a = c.args()
            d = {}
            for k, t in a.items():
                if b and k == "zi":
                    continue
                if b and plan["reuse"] and k != "x":
                    d[k] = blocks[0][k]
                    continue
                if not (t.is_floating_point() or t.is_complex()):
                    d[k] = t
                    continue
                if b and k == "x":
                    t = t * 0.5 + 0.1
                kind = plan["kinds"].get(k, "leaf")
                if kind == "const":
                    d[k] = t
                elif kind == "view":
                    base = torch.zeros((2,) + tuple(t.shape), dtype=t.dtype)
                    base[1].copy_(t)
                    base.requires_grad_(True)
                    leaves[f"{k}{b}"] = base
                    held.append((f"base of {k}", base))
                    d[k] = base[1]
                elif kind == "nonleaf":
                    l = t.detach().requires_grad_(True)
                    leaves[f"{k}{b}"] = l
                    d[k] = l * 1.0
                else:
                    d[k] = t.detach().requires_grad_(True)
                    leaves[f"{k}{b}"] = d[k]
                held.append((f"argument {k} of call {b}", d[k]))
            blocks.append(d)
        return leaves, blocks, held, g

    def forward(self, blocks, held, rec=None):
        outs = []
        z = None
        for b, d in enumerate(blocks):
            d = dict(d)
            if b:
                d["zi"] = z
            r = self.c.run(d)
            if b < len(blocks) - 1:
                z = r[1] if len(r) > 1 else r[0][:, -1]
            for j, t in enumerate(r):
                held.append((f"result {j} of call {b}", t))
            outs += list(r)
        return outs

    def weights(self, outs, g):
        return [cot(t, g, "n") for t in outs]

    # -- one in-place change
    def edit(self, t, how, i):
        if not (t.is_floating_point() or t.is_complex()) or t.numel() == 0:
            return
        with torch.no_grad():
            w = t if how % 2 == 0 or t._is_view() else t.detach()
            k = HOW[how % len(HOW)]
            try:
                if k == "mul":
                    w.mul_(3.0)
                elif k == "nan":
                    w.fill_(float("nan"))
                elif k == "zero":
                    w.zero_()
                elif k == "copy":
                    w.copy_(torch.randn(w.shape, generator=torch.Generator().manual_seed(i), dtype=torch.float64))
                elif k == "slice":
                    if w.dim():
                        w[..., -1:].add_(1.5)
                    else:
                        w.add_(1.5)
                elif k == "restore":
                    s = w.clone()
                    w.fill_(7.0)
                    w.copy_(s)
                elif k == "twice":
                    w.add_(1.0)
                    w.mul_(-2.0)
                else:
                    w.reshape(-1)[0:1].copy_(torch.full((1,), 5.0, dtype=w.dtype)) if w.is_contiguous() else w.neg_()
            except RuntimeError:        # a tensor that cannot be written at all (expanded memory)
                self.ctx.count("unwritable")
                return
        self.ctx.count("edits")
        self.ctx.count("edit_" + k)

    def go(self):
        plan, ctx, c = self.plan, self.ctx, self.c
        # the computation as performed, undisturbed
        leaves, blocks, held, g = self.build()
        outs = ctx.lib(c.desc(), self.forward, blocks, held)
        use = [j for j, t in enumerate(outs) if t.requires_grad]
        if not use or not leaves:
            return
        names = sorted(leaves)
        W = self.weights([outs[j] for j in use], g)
        drop = set(plan["drop"])
        keep = [j for j in range(len(use)) if j not in drop] or list(range(len(use)))
        scale = {}
        if plan["rec"] is not None:
            scale = {keep[plan["rec"] % len(keep)]: 2.0}
        G0 = ctx.lib(c.desc() + " backward", torch.autograd.grad, [outs[use[j]] for j in keep], [leaves[n] for n in names],
                     [W[j] * scale.get(j, 1.0) for j in keep], allow_unused=True)
        tol = {"f64": 1e-9, "c128": 1e-9}.get(c.dt, 1e-4)
        # the same, with edits
        leaves, blocks, held, _ = self.build()
        outs = ctx.lib(c.desc(), self.forward, blocks, held)
        o = [outs[use[j]] for j in keep]
        if plan["rec"] is not None:
            j = plan["rec"] % len(o)
            try:
                o[j].mul_(2.0)          # recorded: part of the computation
                ctx.count("recorded_edit")
            except RuntimeError:
                ctx.count("recorded_edit_refused")
                return
        edits = [e for e in plan["ops"]]
        hooked = []
        when = plan["when"]
        edited = []

        def apply():
            for who, how in edits:
                name, t = held[who % len(held)]
                if name not in edited:
                    edited.append(name)
                self.edit(t, how, who)

        if when == "hook":
            cand = [t for n, t in held if t.requires_grad and not t.is_leaf]
            if cand:
                fired = []
                h = cand[plan["hook"] % len(cand)]

                def hook(gr):
                    if not fired:
                        fired.append(1)
                        ctx.count("edits_during_backward")
                        apply()
                h.register_hook(hook)
        reps = 2 if when == "between" else 1
        for rep in range(reps):
            if when == "before" or (when == "between" and rep == 1):
                apply()
            what = f"{c.desc()} backward {rep} after in-place changes of {edited} ({when})"
            try:
                G = torch.autograd.grad(o, [leaves[n] for n in names], [W[j] for j in keep], allow_unused=True, retain_graph=True)
            except RuntimeError as e:
                ctx.count("raised_version" if "inplace" in str(e) or "in-place" in str(e) else "raised_other")
                if when == "between" and rep == 0 and plan["rec"] is None:
                    ctx.fail("raised", f"{c.desc()} first backward: {type(e).__name__}: {str(e)[:200]}")
                ctx.log("raised", type(e).__name__)
                continue
            ctx.count("gradient_returned")
            for n, x, y in zip(names, G, G0):
                if x is None and y is None:
                    continue
                x = torch.zeros_like(leaves[n]) if x is None else x
                y = torch.zeros_like(x) if y is None else y
                e = fam.err(x, y)
                if not e <= tol:
                    ctx.fail("corrupted", f"{what}: gradient of {n} differs by {e:.3g} from that of the computation as performed, and nothing was raised")
            ctx.logt(*[x for x in G if x is not None])
        ctx.state(c.name, c.p.get("form"), str(c.p.get("cfg")), when, tuple(sorted(edited)))
        ctx.vtime += 1
        ctx.nontrivial = bool(edited)


class P(core.Prop):
    id = "C10"
    quick, thorough = 60000, 500000
    measure = "distinct (function, configuration, edited tensors, moment) situations"
    time_unit = "training steps"
    rule = ("Each run performs one call or a chain of 2-3 calls linked by states, changes a seeded set of its tensors in place (arguments, their base "
            "buffers, results, states; before backward, between two backward passes, or from a hook while backward runs), then runs backward. "
            "An error is accepted; a returned gradient must be that of the undisturbed computation. Non-trivial: something was changed.")
    real = ["philtorch Python code and autograd formulas", "compiled kernels (instrumented build)", "torch autograd, torchlpc"]
    stubs = ["CPU allocator (simrt)", "OpenMP runtime (simrt, one worker)", "the training client"]
    assumptions = ["changes go through operations autograd can see (no_grad or detached in-place operations), not .data or numpy"]

    def gen(self, i, r, tier):
        fams = list(fam.FAMS)
        if i % 3:
            c = calls.gen(r, kinds=["fam"], fams=fams, i=i, nmax=10)
        else:
            c = calls.gen(r, nmax=10)
        if isinstance(c.get("cfg"), dict) and c["cfg"].get("fn", "").startswith("diagLV"):
            c["cfg"]["fn"] = "diagA"
        kinds = {k: r.pick(["leaf", "const", "view", "nonleaf"], [4, 2, 1, 2]) for k in ("x", "a", "b", "zi", "A", "B", "C", "D", "y")}
        return {"call": c, "kinds": kinds, "chain": r.pick([1, 2, 3], [3, 2, 1]), "reuse": int(r.p(0.6)),
                "ops": [[r.rint(0, 40), r.rint(0, 15)] for _ in range(r.pick([1, 2, 4], [5, 2, 1]))],
                "when": r.pick(["before", "between", "hook"], [4, 2, 2]), "hook": r.rint(0, 9), "drop": [j for j in range(4) if r.p(0.2)],
                "rec": r.rint(0, 3) if r.p(0.12) else None, "seed": r.rint(0, 2 ** 31 - 1), "fill": r.pick([1, 2, 5])}

    def run(self, plan, ctx):
        env.RT.fill(plan["fill"], 13)
        Client(plan, ctx).go()
        ctx.count("runs_" + plan["call"]["call"])


PROP = P()
