"""Stream-processing world: producers, a lossy network, a consumer that filters
what has arrived, checkpoint storage, crashes.  `generate` runs the discrete
event simulation and emits an operation trace (the plan); `World` executes a
trace against the real library and checks it as it goes."""
import heapq, io, sys, zlib
import torch
from . import core, fam, env


# ------------------------------------------------------------------ generation
def des(r, N, style):
    """one stream of N samples -> (op list, virtual end time)

    style: mean packet size etc.  Every delay, loss, duplication, crash and disk
    outcome is drawn from r."""
    t, seq, ops = 0.0, 0, []
    ev = []      # (time, tiebreak, kind, data)
    tie = 0

    def at(dt, kind, data=None):
        nonlocal tie
        tie += 1
        heapq.heappush(ev, (t + dt, tie, kind, data))

    # producer cuts the signal into packets
    cuts, p = [], 0
    while p < N:
        if style == "ones":
            n = 1
        elif style == "tiny":
            n = r.rint(1, 3)
        elif style == "big":
            n = r.rint(max(1, N // 4), N)
        elif style == "whole":
            n = N
        else:
            n = r.pick([1, 2, 3, 4, 5, 7, 8, r.rint(1, max(1, N))])
        if N >= 100 and style in ("mix", "big", "pow2") and r.p(0.2 if style != "pow2" else 0.7):
            n = max(1, (1 << r.rint(4, 10)) - r.rint(-1, 5))    # sizes at which algorithms change
        n = min(n, N - p)
        cuts.append((p, n))
        p += n
    loss, dup, jitter = r.pick([0.0, 0.1, 0.3]), r.pick([0.0, 0.1, 0.3]), r.pick([0.0, 2.0, 20.0])
    crash_rate = r.pick([0.0, 0.05, 0.15])
    abort_rate = r.pick([0.0, 0.1])
    ckpt_every = r.pick([1, 2, 4, 10 ** 6])
    split = r.pick([0, 0, 0.3])
    arrived = {}
    pos, nproc = 0, 0
    saved = 0
    faults_until = N * 4.0

    def send(i):
        p, n = cuts[i]
        lossy = t < faults_until
        if lossy and r.p(loss):
            ops.append(["net", "loss"])
            at(n + 5.0, "resend", i)
            return
        at(0.1 + r.random() * jitter, "recv", i)
        if lossy and r.p(dup):
            at(0.1 + r.random() * jitter * 3, "recv", i)

    for i, (p, n) in enumerate(cuts):
        at(float(p + n), "send", i)
    index = {p: i for i, (p, n) in enumerate(cuts)}
    guard = 0
    while ev and guard < 5000:
        guard += 1
        t, _, kind, i = heapq.heappop(ev)
        if kind in ("send", "resend"):
            send(i)
        elif kind == "recv":
            p, n = cuts[i]
            if p + n <= pos:
                ops.append(["dup", r.rint(0, 30), n])
                continue
            if i in arrived:
                ops.append(["net", "dup"])
            elif p > pos:
                ops.append(["net", "reorder"])
            arrived[i] = 1
            # process everything contiguous
            while pos in index and index[pos] in arrived:
                n = cuts[index[pos]][1]
                pos += n
                if r.p(abort_rate):
                    ops.append(["abort", n, r.pick(["alloc", "intr"]), r.rint(1, 60)])
                if n > 1 and r.p(split):
                    k = r.rint(1, n - 1)
                    ops.append(["blk", k])
                    ops.append(["blk", n - k])
                else:
                    ops.append(["blk", n])
                nproc += 1
                if nproc % ckpt_every == 0:
                    m = r.pick(["ok", "lost", "torn"], [6, 1, 1])
                    ops.append(["ckpt", m])
                    if m == "ok":
                        saved = pos
                if t < faults_until and r.p(crash_rate):
                    ops.append(["crash"])
                    pos = saved
                    for j in list(arrived):
                        if cuts[j][0] >= pos:
                            del arrived[j]
                    for j, (p2, n2) in enumerate(cuts):
                        if p2 >= pos:
                            at(1.0 + n2 + r.random() * jitter, "resend", j)
                    # a checkpoint may fall inside a packet when blocks were split
                    if pos not in index:
                        pos = max(p2 for p2, _ in cuts if p2 <= pos)
                    break
                if r.p(0.05):
                    ops.append(["scribble"])
    return ops, t


VAST = 0.006


def generate(r, fams, nmax=40, big=0.06, i=None):
    f = fams[i % len(fams)] if i is not None else r.pick(fams)
    large = r.p(big)
    ns = r.pick([1, 2, 3], [6, 3, 2])
    vast = r.p(VAST)        # beyond the sizes at which implementations like to switch
    if vast:
        ns = 1
    streams, traces, vt = [], [], 0.0
    for k in range(ns):
        if k and r.p(0.6):
            p = dict(streams[0])       # same shapes, other numbers
            p["seed"] = r.rint(0, 2 ** 31 - 1)
        else:
            kw = {}
            if large:
                kw = {"N": r.rint(100, 400), "B": r.pick([1, 2, 3, 9, 17, 33])}
                if r.p(0.25):
                    kw = {"N": r.pick([r.rint(250, 600), r.rint(250, 600), r.rint(600, 1100), r.rint(900, 2100)], [6, 6, 3, 1]), "B": r.rint(1, 2)}
            if vast:
                kw = r.pick([{"N": r.rint(16300, 17500), "B": 1}, {"N": r.rint(260, 600), "B": r.rint(33, 64)}, {"N": r.rint(1, 5), "B": r.rint(3000, 9000)}])
            p = fam.gen_params(r, f if k == 0 else r.pick(fams), nmax=nmax, **kw)
        if r.p(0.06):       # real signal, complex coefficients and the like; a call may refuse it
            p["mix"] = r.pick(["rx", "rz", "rc", "hx", "hc", "hz"])
            p["dtype"] = "c128" if p["mix"][0] == "r" else r.pick(["f64", "c128"])
        p["mode"] = r.pick(["plain", "nograd", "inference", "grad"], [6, 2, 1, 2])
        streams.append(p)
        style = r.pick(["mix", "ones", "tiny", "big", "whole", "pow2"], [5, 2 if p["N"] <= 60 else 0, 2 if p["N"] <= 60 else 0, 2, 1, 3 if p["N"] > 60 else 0])
        if vast:
            style = r.pick(["big", "whole"])
        ops, t = des(r, p["N"], style)
        vt = max(vt, t)
        spec = fam.make(p)
        sticky = spec.config(r)
        switch = r.pick([0.0, 0.3, 1.0])
        out = []
        for o in ops:
            if o[0] in ("blk", "dup", "abort"):
                cfg = spec.config(r) if r.p(switch) else sticky
                o = o + [cfg]
            out.append([k] + o)
        if r.p(0.3):
            out.insert(r.rint(0, len(out)), [k, "cold", r.rint(1, min(p["N"], 12)), spec.config(r)])
        traces.append(out)
    # interleave the streams
    ops = []
    while any(traces):
        j = r.pick([k for k in range(ns) if traces[k]])
        n = r.rint(1, 4)
        ops += traces[j][:n]
        traces[j] = traces[j][n:]
    return {"streams": streams, "ops": ops, "ring": r.pick([0, 1, 2]), "share": int(ns > 1 and r.p(0.5)),
            "vt": round(vt, 2), "fill": r.pick([0, 1, 2, 3, 5])}


# ------------------------------------------------------------------ execution
class Interrupt(KeyboardInterrupt):
    pass


def interrupted_call(fn, k):
    """run fn, raising KeyboardInterrupt at the k-th traced philtorch line"""
    n = [0]

    def tr(frame, event, arg):
        if "/philtorch/" not in frame.f_code.co_filename:
            return None
        if event == "line":
            n[0] += 1
            if n[0] == k:
                raise Interrupt()
        return tr

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(old)


class Stream:
    def __init__(self, w, k, p):
        self.w, self.k, self.p = w, k, p
        self.spec = fam.make(p)
        self.Y, self.Z = self.spec.ref()
        self.tol = self.spec.tol(None)
        if p.get("mix"):
            self.tol = 1e-7 if p["mix"][0] == "r" else 5e-5
        self.z0 = self.spec.zi_rows()
        self.pos, self.z = 0, self.z0.clone()
        self.hist = {0: self.z0.clone()}     # boundary -> state object the library returned
        self.ck = []
        self.outs = []                       # (pos, n, y, zf): results already handed out
        self.bufs = {}
        self.done = False

    # -- data delivery
    def deliver(self, pos, n):
        ts = self.spec.block(None, pos, n)
        out = {}
        ring = self.w.plan["ring"]
        for name, t in ts.items():
            tags = self.spec.T[name][1]
            if ring and ("t" in tags or ring == 2):
                out[name] = self.buffer(name, t, tags)
            else:
                out[name] = t
        if self.p["mode"] == "grad":
            out = {k: v.detach().clone().requires_grad_(True) if v.numel() else v for k, v in out.items()}
        return out

    def buffer(self, name, t, tags):
        """preallocated capture buffer, reused for every block (and, if shared,
        by every stream of the same shape)"""
        dim = None
        shape = list(t.shape)
        if "t" in tags:
            dim = 1 if "b" in tags else 0
            shape[dim] = self.spec.N
        key = (name, tuple(shape), str(t.dtype), self.spec.fam)
        store = self.w.bufs if self.w.plan["share"] else self.bufs
        if key not in store:
            with torch.inference_mode(False):
                store[key] = torch.empty(shape, dtype=t.dtype)
        b = store[key]
        v = b if dim is None else b.narrow(dim, 0, t.shape[dim])
        v.copy_(t)
        return v

    def scribble(self):
        for b in list(self.bufs.values()) + list(self.w.bufs.values()):
            b.fill_(float("nan"))

    # -- one call
    def call(self, pos, n, z, cfg):
        ts = self.deliver(pos, n)
        return self.spec.call(ts, z, cfg)

    def check(self, what, pos, n, y, zf, cfg):
        c = self.w.ctx
        Y, Z = self.Y[:, pos:pos + n], self.Z[pos + n]
        tag = f"stream {self.k} {self.spec.fam} {what} samples [{pos},{pos + n}) cfg {cfg}"
        if not isinstance(y, torch.Tensor) or tuple(y.shape) != tuple(Y.shape):
            c.fail("output-shape", f"{tag}: output {tuple(getattr(y, 'shape', ()))} instead of {tuple(Y.shape)}")
        if y.dtype != fam.DT[self.spec.dt] if not self.p.get("mix") else y.is_complex() != Y.is_complex():
            c.fail("output-dtype", f"{tag}: output {y.dtype} for {fam.DT[self.spec.dt]} input")
        e = fam.err(y, Y)
        if not e <= self.tol:
            c.fail("output", f"{tag}: output differs from the recurrence by {e:.3g}")
        if zf is not None or what != "cold":
            if not isinstance(zf, torch.Tensor) or tuple(zf.shape) != tuple(Z.shape):
                c.fail("state-shape", f"{tag}: state {tuple(getattr(zf, 'shape', ()))} instead of {tuple(Z.shape)}")
            e = fam.err(zf, Z)
            if not e <= self.tol:
                c.fail("state", f"{tag}: final state differs from the recurrence by {e:.3g}")

    def fit(self, pos, n):
        n = min(n, self.spec.N - pos)
        B = self.spec.B
        if n <= 0:
            return 0
        for m in [n] + list(range(n - 1, 0, -1)) + list(range(n + 1, self.spec.N - pos + 1)):
            if self.spec.ok(B, m):
                return m
        return 0

    def blk(self, n, cfg):
        n = self.fit(self.pos, n)
        if not n:
            self.done = True
            return
        c = self.w.ctx
        y, zf = c.lib(f"stream {self.k} {self.spec.fam} block [{self.pos},{self.pos + n}) cfg {cfg}", self.call, self.pos, n, self.z, cfg)
        self.check("block", self.pos, n, y, zf, cfg)
        c.log(self.k, "blk", self.pos, n, cfg)
        c.logt(y, zf)
        self.outs.append((self.pos, n, y.detach(), zf.detach()))
        if len(self.outs) > 12:
            self.outs.pop(0)
        self.pos += n
        self.z = zf.detach() if self.p["mode"] == "grad" else zf
        self.hist[self.pos] = self.z
        c.vtime += n

    def op(self, o):
        if not self.p.get("mix"):
            return self.op1(o)
        try:
            if not self.done:
                self.op1(o)
                self.w.ctx.count("mixed_dtype_ops")
        except core.Violation as e:
            if e.kind not in ("raised", "interrupt"):
                raise
            self.done = True            # refused
            self.w.ctx.count("mixed_dtype_refused")

    def op1(self, o):
        c = self.w.ctx
        kind = o[0]
        if kind == "blk":
            self.blk(o[1], o[2])
            c.count("blocks")
        elif kind == "net":
            c.count("network_" + o[1])
        elif kind == "cold":
            n = min(o[1], self.spec.N)
            if self.spec.fam.endswith(("recurrence", "recursion")) or not self.spec.ok(self.spec.B, n):
                return
            z = torch.zeros_like(self.z0)
            Y, _ = self.spec.ref(zi=z, n=n)
            y, zf = c.lib(f"stream {self.k} {self.spec.fam} call without state, {n} samples", self.call, 0, n, None, o[2])
            if zf is not None or tuple(y.shape) != tuple(Y.shape) or not fam.err(y, Y) <= self.tol:
                c.fail("cold", f"stream {self.k} {self.spec.fam} without zi is not the zero-state response (n={n}, cfg {o[2]})")
            c.count("cold_calls")
        elif kind == "dup":
            bs = sorted(self.hist)
            b = bs[o[1] % len(bs)]
            n = self.fit(b, o[2])
            if n:
                y, zf = c.lib(f"stream {self.k} {self.spec.fam} reprocessing [{b},{b + n})", self.call, b, n, self.hist[b], o[3])
                self.check("reprocessed", b, n, y, zf, o[3])
                c.logt(y, zf)
            c.count("redelivered_blocks")
        elif kind == "ckpt":
            bio = io.BytesIO()
            torch.save({"pos": self.pos, "z": self.z.detach().clone()}, bio)
            data = bio.getvalue()
            crc = zlib.crc32(data)
            if o[1] == "torn":
                data = data[: len(data) // 2]
            if o[1] != "lost":
                self.ck.append((data, crc))
            c.count("checkpoint_" + o[1])
        elif kind == "crash":
            # only durable state survives; the node restarts with fresh buffers
            self.bufs = {}
            self.pos, self.z = 0, self.spec.zi_rows().clone()
            for data, crc in reversed(self.ck):
                if zlib.crc32(data) == crc:
                    d = torch.load(io.BytesIO(data))
                    self.pos, self.z = d["pos"], d["z"]
                    break
            self.hist[self.pos] = self.z
            c.log(self.k, "restart", self.pos)
            c.count("crash_restart")
        elif kind == "scribble":
            self.scribble()
            c.count("buffer_reuse")
        elif kind == "abort":
            n = self.fit(self.pos, o[1])
            if not n:
                return
            fn = lambda: self.call(self.pos, n, self.z, o[4])
            r = None
            if o[2] == "alloc":
                ts = self.deliver(self.pos, n)
                env.RT.L.sim_alloc_fail_at(o[3])
                try:
                    r = self.spec.call(ts, self.z, o[4])
                except Exception as e:
                    c.count("aborted_alloc")
                finally:
                    env.RT.L.sim_alloc_fail_at(-1)
            else:
                try:
                    r = interrupted_call(fn, o[3])
                except KeyboardInterrupt:
                    c.count("aborted_interrupt")
                except Exception as e:
                    c.fail("interrupt", f"an interrupt surfaced as {type(e).__name__}: {str(e)[:200]}")
            if r is not None:
                self.check("after fault", self.pos, n, r[0], r[1], o[4])
            c.log(self.k, "abort", o[2], r is None)

    def finish(self):
        """faults have stopped: everything not yet processed must complete"""
        guard = 0
        cfg = {"u": 1, "be": "ssm"}
        while self.pos < self.spec.N and not self.done:
            guard += 1
            if guard > self.spec.N + 5:
                self.w.ctx.fail("liveness", f"stream {self.k} does not finish")
            self.op(["blk", self.spec.N, cfg])
        self.scribble()
        for pos, n, y, zf in self.outs:
            self.check("earlier result of", pos, n, y, zf, "re-examined at the end")


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.bufs = {}

    def run(self):
        plan, c = self.plan, self.ctx
        if env.RT:
            env.RT.fill(plan.get("fill", 1), 7)
            env.RT.L.sim_alloc_recycle(plan["fill"] in (2, 5))      # freed addresses come back at once
        c.vtime += 0
        modes = {p["mode"] for p in plan["streams"]}
        S = [Stream(self, k, p) for k, p in enumerate(plan["streams"])]
        guards = {"plain": None, "grad": None, "nograd": torch.no_grad, "inference": torch.inference_mode}

        def within(s, fn, *a):
            g = guards[s.p["mode"]]
            if g is None:
                return fn(*a)
            with g():
                return fn(*a)

        for o in plan["ops"]:
            if o[0] < len(S):
                s = S[o[0]]
                within(s, s.op, o[1:])
                c.state(s.spec.fam, s.p.get("form"), s.p.get("transpose"), s.pos, o[1], str(o[2:])[:80])
        for s in S:
            within(s, s.finish)
        blocks = c.counts.get("blocks", 0)
        c.nontrivial = blocks >= 2
