from .. import core, fam, stream


class P(core.Prop):
    id = "C01"
    fams = fam.LTI_FAMS
    quick, thorough = 24000, 250000
    measure = "distinct (entry point, form, position, operation) states"
    rule = ("Each run simulates 1-3 streams of one or more time-invariant entry points: packets cut, lost, duplicated, "
            "reordered and delayed by a seeded network, consumer crashes with restart from a checkpoint store that loses or "
            "tears writes, failed attempts, backend/unroll switches, reused capture buffers. Non-trivial: at least two blocks "
            "were processed.")
    real = ["philtorch Python code (all of it that the calls reach)", "compiled kernels (instrumented build of csrc/*.cpp)", "torch, torchlpc"]
    stubs = ["OpenMP runtime (simrt)", "CPU allocator (simrt)", "network, checkpoint storage, producer and consumer processes (models)",
             "helion back end absent"]
    assumptions = ["agreement to 1e-10 (double; 1e-8 when an eigendecomposition is involved) or 5e-5 (single) is taken as equality",
                   "signals are random, filters stable; search, not proof"]

    def gen(self, i, r, tier):
        return stream.generate(r, self.fams, nmax=40 if tier == "quick" else 80, i=i)

    def run(self, plan, ctx):
        stream.World(plan, ctx).run()
        ctx.count("runs_" + plan["streams"][0]["fam"]) if plan["streams"] else None

    def known(self, ctx_factory):
        import torch
        import philtorch.lti as L
        b, a = torch.tensor([0.5, 0.25, -0.3, 0.2], dtype=torch.double), torch.tensor([0.3], dtype=torch.double)
        x, zi = torch.ones(1, 6, dtype=torch.double), torch.ones(1, 1, dtype=torch.double)
        try:
            r = L.lfilter(b[None], a[None], x, zi, backend="diag_ssm")
            bad = not isinstance(r, tuple)
        except Exception:
            bad = False       # refusing the state is not ignoring it
        return [("diag-long-numerator", bad, "")]


PROP = P()
