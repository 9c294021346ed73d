"""Streams whose running state is volatile: only a (torn, truncated, lossy) log
of past inputs and outputs survives a crash, and the state is rebuilt from it;
and streams started from the computed steady state."""
import numpy as np
import torch
from .. import core, env, fam, calls
from ..fam import P as PH, DT, hi, rnd

MODES = ["lfiltic", "lfiltic_fir", "fir_x", "comb", "allpole_y", "df2_allpole_y", "df2_fir_x", "lpv_fir_x", "lpv_df2_allpole_y",
         "lpv_df2_fir_x", "rec", "lpv_rec", "ssrec", "lpv_ssrec", "steady"]
WEIGHTS = [8, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1, 8]
EVENTS = ["ok", "crash_before_log", "crash_after_log", "torn_log", "failed_attempt", "handover", "log_tail_lost"]


def newest(log, n, lead, dtype):
    """the n most recent samples, newest first, zeros before the log begins"""
    k = min(n, log.shape[-1])
    v = log[..., log.shape[-1] - k:].flip(-1)
    if k < n:
        v = torch.cat([v, torch.zeros(v.shape[:-1] + (n - k,), dtype=dtype)], -1)
    return v


class Stream:
    def __init__(self, p):
        self.p = p
        self.m, self.B, self.N, self.dt = p["mode"], p["B"], p["N"], p["dtype"]
        rs = np.random.RandomState(p["seed"] & 0xffffffff)
        m, B, N, dt = self.m, self.B, self.N, self.dt
        na, nb = p["na"], p["nb"]
        own = lambda k: (B,) if p[k] == "own" else ()
        ones = lambda *s: torch.ones(s, dtype=DT[dt])
        self.vec = m.endswith("ssrec")
        self.b = self.a = None
        if m in ("lfiltic", "steady"):
            self.b = rnd(rs, own("bk") + (nb + 1,), dt)
            self.a = fam.stable_polys(rs, B if p["ak"] == "own" else None, na, dt)
        elif m in ("lfiltic_fir", "fir_x"):
            na = 0
            self.b = rnd(rs, (B, nb + 1), dt)
        elif m == "df2_fir_x":
            na = 0
            self.b = rnd(rs, own("bk") + (nb + 1,), dt)
            self.a = torch.zeros(own("ak") + (0,), dtype=DT[dt])
        elif m == "comb":
            nb, na = 0, p["delay"]
            c = torch.as_tensor(np.asarray(rs.uniform(-0.9, 0.9, own("ak")))).to(DT[dt])
            self.c = c * (0.6 + 0.7j) if dt.startswith("c") else c
        elif m == "allpole_y":
            nb = 0
            self.a = fam.small_last(rs, (B, N, na), dt)
        elif m == "df2_allpole_y":
            nb = 0
            self.b = ones(1) if p["bk"] == "shared" else ones(B, 1)
            self.a = fam.stable_polys(rs, B if p["ak"] == "own" else None, na, dt)
        elif m == "lpv_fir_x":
            na = 0
            self.b = rnd(rs, (B, N, nb + 1), dt)
        elif m == "lpv_df2_allpole_y":
            nb = 0
            self.b = ones(N, 1)
            self.a = fam.small_last(rs, own("ak") + (N, na), dt)
        elif m == "lpv_df2_fir_x":
            na = 0
            self.b = rnd(rs, own("bk") + (N, nb + 1), dt)
            self.a = torch.zeros(own("ak") + (N, 0), dtype=DT[dt])
        elif m == "rec":
            na, nb = 1, 0
            c = torch.as_tensor(np.asarray(rs.uniform(-0.95, 0.95, own("ak")))).to(DT[dt])
            self.c = c * (0.8 - 0.5j) if dt.startswith("c") else c
        elif m == "lpv_rec":
            na, nb = 1, 0
            c = torch.as_tensor(rs.uniform(-0.95, 0.95, own("ak") + (N,))).to(DT[dt])
            self.c = c * (0.8 - 0.5j) if dt.startswith("c") else c
        elif m == "ssrec":
            na, nb = 1, 0
            self.A = fam.contraction(rs, own("ak") + (p["M"], p["M"]), dt)
        elif m == "lpv_ssrec":
            na, nb = 1, 0
            self.A = fam.contraction(rs, own("ak") + (N, p["M"], p["M"]), dt)
        self.na, self.nb = na, nb
        self.x1 = bool(p.get("x1d"))
        T = (p["M"],) if self.vec else ()
        if m == "steady":
            v = rnd(rs, (B, 1), dt, 3.0)
            self.x = v.expand(B, N).contiguous() if p["lay"] != "e" else v.expand(B, N)
            self.px = self.py = torch.zeros(B, 0, dtype=DT[dt])
        else:
            self.x = rnd(rs, (B, N) + T, dt)
            L = p["past"]
            self.px = rnd(rs, (B, L) + T, dt)
            self.py = rnd(rs, (B, L) + T, dt)
        v = p.get("vals")
        if v and m != "steady":
            b0 = None if self.b is None else self.b
            if "b" in v and b0 is not None and b0.shape[-1] > 1:
                self.b = b0.clone()
                if v["b"] == "delay":           # a pure delay: nothing passes at once
                    self.b[..., :-1] = 0
                elif v["b"] == "delay1":
                    self.b[..., :1] = 0
                else:
                    self.b[..., -1:] = 0
            if "a" in v and self.a is not None and self.a.shape[-1] > 1:
                self.a = self.a.clone()
                self.a[..., {"last": slice(-1, None), "silent": slice(None)}[v["a"]]] = 0
            L = self.px.shape[1]
            whole = torch.cat([self.px, self.x], 1)
            k = v["at"] % max(1, whole.shape[1])
            if v.get("x") == "late":            # silence, then signal
                whole[:, :k] = 0
            elif v.get("x") == "burst":         # signal, then silence
                whole[:, k:] = 0
            elif v.get("x") == "row":
                whole[k % B] = 0
            elif v.get("x") == "held":
                whole[:] = whole[:, :1].clone()
            self.px, self.x = whole[:, :L].clone(), whole[:, L:].clone()
            if v.get("y") == "zero":
                self.py = torch.zeros_like(self.py)
        if p["lay"] in ("t", "s", "o"):
            self.x = fam.relayout(self.x, p["lay"], rs)

    # -------------------------------------------------------------- reference
    def reference(self):
        """sample-by-sample difference equation over (past, signal)"""
        B, N, m = self.B, self.N, self.m
        xs = [hi(self.px[:, i]) for i in range(self.px.shape[1])]
        ys = [hi(self.py[:, i]) for i in range(self.py.shape[1])]
        L = len(xs)
        at = lambda s, k: s[k] if k >= 0 else torch.zeros_like(hi(self.x[:, 0]))
        for n in range(N):
            xs.append(hi(self.x[:, n]))
            t = L + n
            if self.vec:
                A = hi(self.A if m == "ssrec" else self.A[..., n, :, :])
                y = fam.mv(A, at(ys, t - 1)) + xs[t]
            elif m == "rec":
                y = xs[t] + hi(self.c) * at(ys, t - 1)
            elif m == "lpv_rec":
                y = xs[t] + hi(self.c[..., n]) * at(ys, t - 1)
            elif m == "comb":
                y = xs[t] - hi(self.c) * at(ys, t - self.na)
            else:
                lpv = m.startswith("lpv") or m == "allpole_y"
                b = None if self.b is None else hi(self.b[..., n, :] if lpv else self.b)
                a = None if self.a is None else hi(self.a[..., n, :] if lpv else self.a)
                y = xs[t] if b is None else sum(b[..., k] * at(xs, t - k) for k in range(b.shape[-1]))
                if a is not None:
                    for k in range(a.shape[-1]):
                        y = y - a[..., k] * at(ys, t - 1 - k)
            ys.append(y)
        self.ref = torch.stack([v.expand(xs[L].shape) for v in ys[L:]], 1)

    # ---------------------------------------------------------------- library
    def sq(self, t):
        return t[0] if self.x1 and t.dim() > 1 else t

    def rebuild(self, xl, yl):
        """state from logs (oldest first), None when the log is still empty and a cold start is meant"""
        m, d = self.m, DT[self.dt]
        if m in ("lfiltic", "steady", "lfiltic_fir"):
            b = self.b
            a = self.a if self.a is not None else torch.zeros(self.B, 0, dtype=d)
            y, x = newest(yl, self.na, self.B, d), newest(xl, self.nb, self.B, d)
            if self.x1:
                y, x = y[0], x[0]
            if self.p["lay"] == "s":
                y, x = fam.relayout(y, "s", None), fam.relayout(x, "s", None)
            if not self.p["wx"] and not x.abs().sum() > 0:
                return PH().lti.lfiltic(b, a, y)
            return PH().lti.lfiltic(b, a, y, x)
        if m in ("rec", "lpv_rec", "ssrec", "lpv_ssrec"):
            return yl[:, -1] if yl.shape[1] else torch.zeros_like(self.x[:, 0])
        if m in ("fir_x", "df2_fir_x", "lpv_fir_x", "lpv_df2_fir_x"):
            return self.sq(newest(xl, self.nb, self.B, d))
        return self.sq(newest(yl, self.na, self.B, d))

    def block(self, t, n, zi, cfg):
        m, u = self.m, cfg["u"]
        x = self.x[:, t:t + n]
        if self.x1:
            x = x[0]
        s = lambda v: v[..., t:t + n, :]
        L, V = PH().lti, PH().lpv
        if m in ("lfiltic", "steady"):
            k = {"unroll_factor": u}
            r = L.lfilter(self.b, self.a, x, zi, form=self.p["form"], backend=cfg["be"], **k)
        elif m in ("df2_allpole_y", "df2_fir_x"):
            r = L.lfilter(self.b, self.a, x, zi, form="df2", unroll_factor=u)
        elif m == "lfiltic_fir":
            r = L.fir(self.b, x, zi, transpose=True)
        elif m == "fir_x":
            r = L.fir(self.b, x, zi, transpose=False)
        elif m == "comb":
            r = L.comb_filter(self.c, self.na, x, zi, **({} if u is None else {"unroll_factor": u}))
        elif m == "allpole_y":
            r = V.allpole(s(self.a), x, zi, transpose=False)
        elif m == "lpv_fir_x":
            r = V.fir(s(self.b), x, zi, transpose=False)
        elif m in ("lpv_df2_allpole_y", "lpv_df2_fir_x"):
            if cfg["be"] == "torchlpc" and self.na:
                r = V.lfilter(s(self.b), s(self.a), x, zi, form="df2", backend="torchlpc")
            else:
                r = V.lfilter(s(self.b), s(self.a), x, zi, form="df2", unroll_factor=u)
        elif m == "rec":
            y = L.linear_recurrence(self.c, zi, x, unroll_factor=u or 1)
            r = y, y[:, -1]
        elif m == "lpv_rec":
            y = V.linear_recurrence(self.c[..., t:t + n], zi, x, unroll_factor=u or 1)
            r = y, y[:, -1]
        elif m == "ssrec":
            y = L.state_space_recursion(self.A, zi, x, unroll_factor=u or 1)
            r = y, y[:, -1]
        else:
            y = V.state_space_recursion(self.A[..., t:t + n, :, :], zi, x, unroll_factor=u or 1)
            r = y, y[:, -1]
        y, z = r
        if self.x1:
            y = y.unsqueeze(0)
        return y, z

    def tol(self, be):
        if self.dt in ("f64", "c128"):
            return 1e-7 if be == "diag_ssm" else 1e-9
        return 1e-3 if self.m == "steady" else 2e-4


class P(core.Prop):
    id = "C12"
    quick, thorough = 60000, 600000
    measure = "distinct (way of rebuilding, structure, crash kind, log length) states"
    rule = ("Each run simulates a stream whose state lives in volatile memory while its inputs and outputs go to a log with exactly as many samples "
            "as the order needs (or fewer, right after the start): the process crashes before, after or during the append, loses the unsynced tail, "
            "fails an attempt for lack of memory, hands over to another process; the state is rebuilt from the log and compared with the running state "
            "and the outputs with the difference equation. Steady-state runs start from lfilter_zi and must stay constant. Non-trivial: a state was "
            "rebuilt or a steady start cut into two blocks or more.")
    real = ["philtorch Python code", "compiled kernels (instrumented build)", "torch, torchlpc"]
    stubs = ["log storage, processes, crashes (models)", "CPU allocator (simrt)", "OpenMP runtime (simrt)"]
    assumptions = ["log samples are stored without rounding", "agreement to 1e-9 (double), 1e-7 (diagonalised), 2e-4 (single) is taken as equality"]
    time_unit = "sample periods"

    def gen(self, i, r, tier):
        mode = r.pick(MODES, WEIGHTS)
        big = r.p(0.1)
        p = {"mode": mode, "B": r.pick([1, 2, 3, 4, 6], [3, 3, 3, 1, 1]), "dtype": r.pick(["f64", "c128", "f32", "c64"], [6, 3, 1, 1]),
             "N": r.rint(1, 120 if big else 28), "seed": r.rint(0, 2 ** 31 - 1), "na": r.pick([1, 2, 3, 4, 6], [3, 4, 3, 2, 1]),
             "nb": r.pick([0, 1, 2, 3, 4, 6], [2, 3, 3, 3, 2, 1]), "delay": r.pick([1, 2, 3, 5, 8]), "M": r.pick([1, 2, 3, 5]),
             "bk": r.pick(["own", "shared"]), "ak": r.pick(["own", "shared"]), "lay": r.pick(["c", "t", "s", "o", "e"], [4, 1, 1, 1, 1]),
             "form": "tdf2", "wx": int(r.p(0.7)), "past": r.pick([0, r.rint(1, 12)])}
        if mode == "lfiltic" and r.p(0.06):
            p["na"] = 0
            p["nb"] = max(1, p["nb"])
        if mode.endswith("df2_fir_x"):
            p["nb"] = max(1, p["nb"])
        if mode == "steady":
            p["form"] = r.pick(["tdf2", "df2"])
            p["bnone"] = int(p["form"] == "df2" and p["nb"] <= p["na"] and r.p(0.5))
        if p["B"] == 1 and mode in ("lfiltic", "steady", "df2_allpole_y", "df2_fir_x") and r.p(0.4):
            p["x1d"] = 1
            p["bk"] = p["ak"] = "shared"
        if r.p(0.25) and mode != "steady":
            v = p["vals"] = {"at": r.rint(0, p["N"] + p["past"]), "x": r.pick(["late", "burst", "row", "held", "n"])}
            if r.p(0.5):
                v["y"] = "zero"
            if r.p(0.6):
                v["b"] = r.pick(["delay", "delay1", "last"])
            if r.p(0.2):
                v["a"] = r.pick(["last", "silent"]) if mode.startswith("lpv") or mode == "allpole_y" else "silent"
        diag = mode in ("lfiltic", "steady") and p["nb"] <= p["na"] and p["dtype"] in ("f64", "c128") and not p.get("vals", {}).get("a")
        ops, left = [], p["N"]
        while left > 0:
            n = min(left, r.pick([1, 2, r.rint(1, 6), r.rint(1, left)]))
            be = "diag_ssm" if diag and r.p(0.25) else "torchlpc" if mode.startswith("lpv_df2") and r.p(0.3) else "ssm"
            ev = r.pick(EVENTS, [4, 2, 4, 2, 1, 2, 1])
            ops.append([n, r.choice_u(), be, ev, r.rint(0, 1000)])
            left -= n
            if ev in ("torn_log", "crash_before_log", "log_tail_lost", "failed_attempt"):
                left = min(p["N"], left + n)      # later blocks may come again
                if len(ops) > 60:
                    break
        p["retain"] = r.pick([0, 0, 3, 50])
        return {"s": p, "ops": ops}

    def run(self, plan, ctx):
        env.RT.fill(2, 5)
        s = Stream(plan["s"])
        s.reference()
        L = env.RT.L
        m, d = s.m, DT[s.dt]
        need = max(s.na, s.nb, 1) + plan["s"]["retain"]
        # durable: log and its position.  volatile: state
        cut = lambda v: v[:, max(0, v.shape[1] - need):].clone()
        xl, yl = cut(s.px), cut(s.py)
        pos, state = 0, None
        rebuilt = False
        what0 = f"{m} {plan['s']['form']} B={s.B} na={s.na} nb={s.nb} {s.dt} bk={plan['s']['bk']} ak={plan['s']['ak']}" + (" 1-D" if s.x1 else "")
        scale = 1 + s.ref.abs().max().item()
        if m == "steady":
            z = ctx.lib(what0 + " lfilter_zi", PH().lti.lfilter_zi, s.a, None if plan["s"]["bnone"] else s.b,
                        transpose=plan["s"]["form"] == "tdf2")
            k = s.x[:, :1]
            state = z * (k[0] if s.x1 else k)
            want = hi(k) * hi(s.b).sum(-1).reshape(-1, 1) / (1 + hi(s.a).sum(-1)).reshape(-1, 1)
            s.ref = want.expand(s.B, s.N)
            scale = 1 + s.ref.abs().max().item()
        blocks = 0
        for n, u, be, ev, arg in plan["ops"]:
            n = min(n, s.N - pos)
            if n < 1:
                break
            cfg = {"u": u, "be": be}
            what = f"{what0}, sample {pos}, block of {n} ({be}, unroll {u})"
            if state is None:
                known = yl.shape[1]
                state = ctx.lib(f"{what}: rebuilding from {known} logged samples", s.rebuild, xl, yl)
                ctx.count("rebuilt")
                ctx.count("rebuilt_short_log", int(known < max(s.na, s.nb)))
                rebuilt = rebuilt or True
                ctx.state(m, plan["s"]["form"], s.na, s.nb, s.x1, min(known, need), ev)
            if ev == "failed_attempt":
                ckpt = state
                L.sim_alloc_fail_at(arg % 7)
                try:
                    s.block(pos, n, state, cfg)
                except Exception:
                    ctx.count("failed_attempts")
                    state = None if arg % 2 else state
                finally:
                    L.sim_alloc_fail_at(-1)
                if state is None and (m != "steady" or plan["s"]["form"] == "tdf2" and yl.shape[1] >= max(s.na, s.nb)):
                    state = ctx.lib(f"{what}: rebuilding after a failed attempt", s.rebuild, xl, yl)
                elif state is None:
                    state = ckpt
            y, z = ctx.lib(what, s.block, pos, n, state, cfg)
            blocks += 1
            ctx.vtime += n
            if tuple(y.shape) != tuple(s.x[:, pos:pos + n].shape):
                ctx.fail("shape", f"{what}: output of shape {tuple(y.shape)}")
            e = (hi(y) - s.ref[:, pos:pos + n]).abs().max().item() / scale
            tol = s.tol(be)
            if not e <= tol:
                ctx.fail("output", f"{what}{' after rebuilding the state' if rebuilt else ''}: error {e:.3g}")
            ctx.logt(y, z)
            if ev == "crash_before_log" and m != "steady":
                state = None
                ctx.count("crash_before_log")
                continue
            k = n
            if ev == "torn_log" and m != "steady":
                k = arg % (n + 1)
                ctx.count("torn_log")
            nx = torch.cat([xl, s.x[:, pos:pos + k].to(d)], 1)
            ny = torch.cat([yl, y[:, :k].to(d)], 1)
            if m in ("lfiltic", "steady") and plan["s"]["form"] == "tdf2" and k == n and (m != "steady" or nx.shape[1] >= max(s.na, s.nb)):
                # the rebuilt state equals the running one at any time
                w = ctx.lib(f"{what}: rebuilding", s.rebuild, nx, ny)
                e = fam.err(w.reshape(z.shape) if w.numel() == z.numel() else w, z)
                if not e <= s.tol(be) * 30:
                    ctx.fail("state", f"{what}: state rebuilt from {ny.shape[1]} logged samples differs from the running state by {e:.3g}")
            xl, yl = cut(nx), cut(ny)
            pos += k
            if ev == "log_tail_lost" and m != "steady" and plan["s"]["retain"] and k > 0:
                j = min(k, plan["s"]["retain"], 1 + arg % 3)
                xl, yl = xl[:, :xl.shape[1] - j], yl[:, :yl.shape[1] - j]
                pos -= j
                state = None
                ctx.count("log_tail_lost")
                continue
            if ev in ("crash_after_log", "torn_log", "handover"):
                state = None
                ctx.count(ev)
                if m == "steady" and (plan["s"]["form"] != "tdf2" or yl.shape[1] < max(s.na, s.nb)):
                    state = z     # nothing to rebuild from yet: checkpointed state
            else:
                state = z
        ctx.count("mode_" + m)
        ctx.nontrivial = rebuilt or blocks > 1


PROP = P()
