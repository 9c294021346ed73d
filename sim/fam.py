"""Stream families: every stateful public entry point of philtorch, how a block
is fed to it, and its defining recurrence written sample by sample.

A Spec is built from a JSON-able parameter dict; everything in it (coefficients,
signal, initial state) is a function of that dict.  Each tensor carries tags:
'b' = leading axis is the stream (batch) axis, 't' = next axis is time.
"""
import math
import numpy as np
import torch

DT = {"f64": torch.float64, "f32": torch.float32, "c128": torch.complex128, "c64": torch.complex64}
REAL = {"f64": "f64", "f32": "f32", "c128": "f64", "c64": "f32"}
TOL = {"f64": 1e-10, "c128": 1e-10, "f32": 5e-5, "c64": 5e-5}
MIXH = {"f64": torch.float32, "f32": torch.float16, "c128": torch.complex64, "c64": torch.complex64}
UNROLLS = [None, 1, 2, 3, 4, 5, 7, 64]


def P():
    import philtorch.lti, philtorch.lpv
    return philtorch


# ------------------------------------------------------------------ data
def rnd(rs, shape, dtype, scale=1.0):
    a = rs.standard_normal(shape)
    if dtype.startswith("c"):
        a = (a + 1j * rs.standard_normal(shape)) / math.sqrt(2)
    return torch.as_tensor(np.asarray(a) * scale).to(DT[dtype])


def stable_poly(rs, n, dtype, rmax=0.9, separated=True):
    """monic polynomial with roots inside the unit circle, returns a_1..a_n"""
    if n == 0:
        return np.zeros(0)
    if dtype.startswith("c"):
        ang = (np.arange(n) + rs.uniform(0.2, 0.8, n)) * (2 * math.pi / n)
        r = np.exp(1j * ang) * rs.uniform(0.3, rmax, n)
        return np.poly(r)[1:]
    roots = []
    k = n
    if n % 2:
        roots.append(rs.uniform(0.2, rmax) * (1 if rs.uniform() < 0.5 else -1))
        k -= 1
    m = k // 2
    for j in range(m):
        th = (j + rs.uniform(0.25, 0.75)) * math.pi / m
        r = rs.uniform(0.4, rmax)
        roots += [r * np.exp(1j * th), r * np.exp(-1j * th)]
    return np.poly(np.array(roots))[1:].real


def stable_polys(rs, batch, n, dtype, **k):
    if batch is None:
        v = stable_poly(rs, n, dtype, **k)
    else:
        v = np.stack([stable_poly(rs, n, dtype, **k) for _ in range(batch)])
    return torch.as_tensor(np.asarray(v)).to(DT[dtype])


def small_last(rs, shape, dtype, bound=0.85):
    """coefficients whose absolute sum over the last axis is <= bound"""
    t = rnd(rs, shape, dtype)
    if shape[-1] == 0:
        return t
    s = t.abs().sum(-1, keepdim=True).clamp_min(1e-3)
    return t / s * torch.as_tensor(rs.uniform(0.2, bound, tuple(shape[:-1]) + (1,))).to(t.abs().dtype)


def contraction(rs, shape, dtype, bound=0.9):
    t = rnd(rs, shape, dtype)
    nrm = torch.linalg.matrix_norm(t.to(DT["c128"] if dtype.startswith("c") else DT["f64"]), ord=2)
    t = t / nrm[..., None, None].to(t.dtype) * bound
    return t


def relayout(t, kind, rs):
    """same values, another memory layout"""
    if kind == "c" or t.dim() == 0:
        return t.contiguous()
    if kind == "t":  # reversed axis order in memory
        perm = list(range(t.dim()))[::-1]
        return t.permute(perm).contiguous().permute(perm)
    if kind == "s":  # strided slice inside a larger buffer, with offset
        shp = list(t.shape)
        shp[-1] = shp[-1] * 2 + 3
        buf = torch.full(shp, 7.5, dtype=t.dtype)
        v = buf[..., 1: 1 + 2 * t.shape[-1]: 2] if t.shape[-1] else buf[..., :0]
        v.copy_(t)
        return v
    if kind == "o":  # contiguous rows with row gap
        shp = list(t.shape)
        shp[0] = shp[0] + 2
        buf = torch.full(shp, -3.25, dtype=t.dtype)
        v = buf[1: 1 + t.shape[0]]
        v.copy_(t)
        return v
    if kind == "j":   # lazily conjugated view
        return t.contiguous().conj().resolve_conj().conj() if t.is_complex() else t.contiguous()
    raise KeyError(kind)


def special(t, kind, tags, seed):
    """the same tensor with structure that random numbers never have"""
    t = t.clone()
    rs = np.random.RandomState(seed % (2 ** 32 - 7))
    dim = (1 if "b" in tags else 0) if "t" in tags else None
    if kind == "zero":
        t.zero_()
    elif kind == "runs" and dim is not None:       # silence / held coefficients for stretches of time
        n = t.shape[dim]
        for _ in range(rs.randint(1, 4)):
            a = rs.randint(0, n)
            t.narrow(dim, a, min(n - a, rs.randint(1, n + 1))).zero_()
    elif kind == "held" and dim is not None:       # constant over time
        t.copy_(t.narrow(dim, 0, 1).expand_as(t).clone())
    elif kind == "cycle" and dim is not None:      # periodic over time
        m = min(t.shape[dim], rs.randint(2, 6))
        t = t.narrow(dim, 0, m).index_select(dim, torch.arange(t.shape[dim], device="cpu") % m).contiguous()
    elif kind == "impulse" and dim is not None:
        v = t.narrow(dim, 0, 1).clone()
        t.zero_()
        t.narrow(dim, 0, 1).copy_(v)
    elif kind == "first" and t.dim():              # leading entry zero
        t[..., 0] = 0
    elif kind == "last" and t.dim():               # trailing entry zero
        t[..., -1] = 0
    elif kind == "row" and "b" in tags:            # one stream zero
        t[rs.randint(0, t.shape[0])] = 0
    elif kind == "same" and "b" in tags:           # all streams alike
        t.copy_(t[:1].expand_as(t).clone())
    elif kind == "one":
        t.fill_(1.0)
    elif kind == "negone":
        t.fill_(-1.0)
    elif kind == "rowone" and t.dim():
        t[rs.randint(0, t.shape[0])] = 1.0
    elif kind == "eye":
        t.copy_(torch.eye(t.shape[-1], dtype=t.dtype, device="cpu").expand_as(t).clone())
    elif kind == "tri":                            # triangular / diagonal matrices
        t = torch.triu(t)
    elif kind == "dia":
        t = torch.diag_embed(torch.diagonal(t, dim1=-2, dim2=-1))
    elif kind == "tiny":
        t *= 1e-9
    elif kind == "big":
        t *= 1e4
    elif kind == "faint":                          # a low power of it is a subnormal number
        lo, hi = (308, 323) if t.dtype in (torch.float64, torch.complex128) else (38, 45)
        t *= 10.0 ** -(rs.uniform(lo, hi) / rs.choice([1, 2, 3, 4, 5, 7, 8, 9]))
    elif kind == "real" and t.is_complex():
        t = t.real + 0j
    return t


def diffable(t):
    return t.detach().clone().requires_grad_(True)


# ------------------------------------------------------------------ helpers
def hi(t):
    return t.to(torch.complex128 if t.is_complex() else torch.float64)


def mv(A, h):
    return torch.einsum("...ij,...j->...i", A, h)


def pad_last(t, n):
    if t.shape[-1] >= n:
        return t
    return torch.cat([t, t.new_zeros(t.shape[:-1] + (n - t.shape[-1],))], -1)


def companion(a):
    M = a.shape[-1]
    top = -a.unsqueeze(-2)
    if M == 1:
        return top
    eye = torch.eye(M, dtype=a.dtype)[:-1].expand(a.shape[:-1] + (M - 1, M))
    return torch.cat([top, eye], -2)


def two(r):
    """(y, zf) from a call that returns y alone when no state was passed"""
    if isinstance(r, (tuple, list)):
        return r[0], r[1]
    return r, None


def up(t):
    return None if t is None else t.unsqueeze(0)


class noext:
    """the compiled extension as good as not there: philtorch's own flag is down
    (C07 covers processes in which it really failed to load)"""

    def __enter__(self):
        import sys
        self.old = []
        for n, m in list(sys.modules.items()):
            if (n == "philtorch" or n.startswith("philtorch.")) and getattr(m, "EXTENSION_LOADED", None) is True:
                self.old.append(m)
                m.EXTENSION_LOADED = False
        return self

    def __exit__(self, *e):
        for m in self.old:
            m.EXTENSION_LOADED = True


def _noext_call(f):
    def call(self, ts, zi, cfg):
        if cfg.get("noext"):
            with noext():
                return f(self, ts, zi, cfg)
        return f(self, ts, zi, cfg)
    return call


class Spec:
    """Base: subclasses fill self.T (name -> [tensor, tags]) and implement
    call(ts, zi, cfg) and refstep(cur, z)."""
    fam = ""

    def __init_subclass__(cls, **k):
        if "call" in vars(cls):
            cls.call = _noext_call(vars(cls)["call"])

    def config(self, rs):
        """cfgs(), possibly without the extension"""
        c = self.cfgs(rs)
        if not c.get("raw") and rs.p(0.12):
            c["noext"] = 1
        return c

    log_state = None        # how the state follows from past samples (C12)

    def __init__(self, p):
        self.p = p
        self.B, self.N = p["B"], p["N"]
        self.dt = p["dtype"]
        rs = np.random.RandomState(p["seed"] & 0xffffffff)
        self.rs = rs
        self.T = {}
        self.build(rs)
        for k, kind in p.get("vals", {}).items():
            if k in self.T and self.T[k][0].numel():
                self.T[k][0] = special(self.T[k][0], kind, self.T[k][1], p["seed"])
        mix = p.get("mix")      # tensors of another precision or field than the rest
        for k, v in self.T.items():
            if mix and {"x": k == "x", "z": k == "zi", "c": k not in ("x", "zi")}[mix[1]]:
                v[0] = v[0].real.clone() if v[0].is_complex() and mix[0] == "r" else v[0].to(MIXH[self.dt]) if mix[0] == "h" else v[0]
        lay = p.get("lay", {})
        for k, kind in lay.items():
            if k in self.T and kind:
                self.T[k][0] = relayout(self.T[k][0], kind, rs)

    # -- data selection
    def put(self, name, t, tags):
        self.T[name] = [t, tags]

    def sl(self, name, rows, starts, n):
        if name not in self.T:
            return None
        t, tags = self.T[name]
        return slice_rows(t, tags, rows, starts, n, self.B)

    def block(self, rows=None, starts=0, n=None, tensors=None):
        if n is None:
            n = self.N
        out = {}
        for k, (t, tags) in self.T.items():
            if k == "zi":
                continue
            if tensors is not None:
                t = tensors[k]
            out[k] = slice_rows(t, tags, rows, starts, n, self.B)
        return out

    def zi_rows(self, rows=None, zi=None):
        """initial state as the caller would pass it"""
        t, tags = self.T["zi"]
        if zi is not None:
            t = zi
        if "b" in tags and rows is not None:
            return t[list(rows)]
        return t

    def ok(self, batch, n):
        return True

    def cfgs(self, rs):
        """a random configuration (backend/unroll) for one block"""
        return {"u": rs.choice_u()}

    # -- running
    def step(self, rows, starts, n, zi, cfg, tensors=None):
        return self.call(self.block(rows, starts, n, tensors), zi, cfg)

    # -- reference
    def ref(self, tensors=None, zi=None, n=None, high=True):
        """(Y, states): Y[:, t], states[t] = state before sample t (t=0..N)"""
        f = hi if high else (lambda t: t)
        if self.p.get("mix") and self.dt.startswith("c"):
            f = lambda t: t.to(torch.complex128)
        src = {k: f(tensors[k] if tensors is not None and k in tensors else v[0]) for k, v in self.T.items()}
        z = f(zi) if zi is not None else src["zi"]
        z = self.zfull(z)
        N = self.N if n is None else n
        ys, zs = [], [z]
        for t in range(N):
            cur = {}
            for k, (tt, tags) in self.T.items():
                if k == "zi":
                    continue
                v = src[k]
                if "t" in tags:
                    v = v.select(1 if "b" in tags else 0, t)
                cur[k] = v
            y, z = self.refstep(cur, z)
            ys.append(y)
            zs.append(z)
        return torch.stack(ys, 1), zs

    def zfull(self, z):
        """state in (batch, M) form"""
        if z.dim() == 1:
            z = z.unsqueeze(0)
        if z.shape[0] != self.B:
            z = z.expand(self.B, *z.shape[1:])
        return z

    def tol(self, cfg):
        return TOL[self.dt]

    def leaves(self):
        return [k for k in self.T]

    def fix_state(self, zf, cfg):
        """what the caller passes on to the next block"""
        return zf


def slice_rows(t, tags, rows, starts, n, B):
    same = not isinstance(starts, (list, tuple))
    if not same and len(set(starts)) == 1:
        starts, same = starts[0], True
    if "b" in tags and rows is not None and (list(rows) != list(range(B)) or not same):
        rows = list(rows)
        if "t" in tags:
            if same:
                return t[rows][:, starts:starts + n]
            return torch.stack([t[r, s:s + n] for r, s in zip(rows, starts)])
        return t[rows]
    if "t" in tags:
        assert same, "time-varying shared coefficients need aligned streams"
        return t[:, starts:starts + n] if "b" in tags else t[starts:starts + n]
    return t


def close(a, b, tol):
    if a is None or b is None:
        return a is b
    if tuple(a.shape) != tuple(b.shape):
        return False
    return err(a, b) <= tol


def err(a, b):
    """max abs difference relative to 1 + max|b|; inf on shape/NaN mismatch"""
    if tuple(a.shape) != tuple(b.shape):
        return float("inf")
    if a.numel() == 0:
        return 0.0
    a, b = a.detach(), b.detach()
    if a.is_complex() or b.is_complex():
        a, b = a.to(torch.complex128), b.to(torch.complex128)
    else:
        a, b = a.to(torch.float64), b.to(torch.float64)
    d = (a - b).abs().max().item()
    s = 1.0 + b.abs().max().item()
    if not (d == d) or not (s < float("inf")):
        return float("inf")
    return d / s


# =================================================================== LTI
class LtiLfilter(Spec):
    fam = "lti.lfilter"

    def build(self, rs):
        p = self.p
        self.form = p["form"]
        B, dt = self.B, self.dt
        na, nb = p["na"], p["nb"]
        self.M = max(na, nb)
        self.put("b", rnd(rs, ((B,) if p["bk"] == "own" else ()) + (nb + 1,), dt), "b" if p["bk"] == "own" else "")
        self.put("a", stable_polys(rs, B if p["ak"] == "own" else None, na, dt), "b" if p["ak"] == "own" else "")
        self.put("x", rnd(rs, (B, self.N), dt), "bt")
        if p["zk"] == "1d" or p.get("x1d"):
            self.put("zi", rnd(rs, (self.M,), dt), "")
        else:
            self.put("zi", rnd(rs, (B, self.M), dt), "b")

    def cfgs(self, rs):
        c = {"u": rs.choice_u(), "be": "ssm"}
        if self.p["nb"] <= self.p["na"] and not self.p.get("nodiag") and self.dt in ("f64", "c128") and rs.random() < 0.35:
            c["be"] = "diag_ssm"
        return c

    def tol(self, cfg):
        if self.dt in ("f64", "c128"):
            return 1e-8 if cfg is None or cfg.get("be") == "diag_ssm" else TOL[self.dt]
        return TOL[self.dt]

    def call(self, ts, zi, cfg):
        x = ts["x"]
        x1 = self.p.get("x1d")
        if x1:
            x = x[0]
            if zi is not None and zi.dim() == 2:
                zi = zi[0]
        y, zf = two(P().lti.lfilter(ts["b"], ts["a"], x, zi, form=self.form, backend=cfg.get("be", "ssm"), unroll_factor=cfg["u"]))
        return (up(y), up(zf)) if x1 else (y, zf)

    def refstep(self, cur, z):
        b, a, x = cur["b"], cur["a"], cur["x"]
        b, a = pad_last(b, self.M + 1), pad_last(a, self.M)
        if self.form == "df2":
            w = x - (a * z).sum(-1)
            y = b[..., 0] * w + (b[..., 1:] * z).sum(-1)
            z = torch.cat([w.unsqueeze(-1), z[:, :-1]], -1)
        else:
            y = b[..., 0] * x + z[:, 0]
            zz = torch.cat([z[:, 1:], torch.zeros_like(z[:, :1])], -1)
            z = zz + b[..., 1:] * x.unsqueeze(-1) - a * y.unsqueeze(-1)
        return y, z


class LtiFir(Spec):
    fam = "lti.fir"

    def build(self, rs):
        p = self.p
        self.tr = p["transpose"]
        M = self.M = p["nb"]
        self.put("b", rnd(rs, (self.B, M + 1), self.dt), "b")
        self.put("x", rnd(rs, (self.B, self.N), self.dt), "bt")
        self.put("zi", rnd(rs, (self.B, M), self.dt), "b")

    def cfgs(self, rs):
        return {"u": 1}

    def call(self, ts, zi, cfg):
        return two(P().lti.fir(ts["b"], ts["x"], zi, transpose=self.tr))

    def refstep(self, cur, z):
        b, x = cur["b"], cur["x"]
        if self.tr:
            if self.M == 0:
                return b[..., 0] * x, z
            y = b[..., 0] * x + z[:, 0]
            z = torch.cat([z[:, 1:], torch.zeros_like(z[:, :1])], -1) + b[..., 1:] * x.unsqueeze(-1)
            return y, z
        y = b[..., 0] * x + (b[..., 1:] * z).sum(-1)
        z = torch.cat([x.unsqueeze(-1), z], -1)[:, : self.M]
        return y, z


class LtiComb(Spec):
    fam = "lti.comb_filter"

    def build(self, rs):
        p = self.p
        d = self.M = p["delay"]
        B = self.B
        a = rs.uniform(-0.9, 0.9, (B,) if p["ak"] == "own" else ())
        a = torch.as_tensor(np.asarray(a)).to(DT[self.dt])
        if self.dt.startswith("c"):
            a = a * (0.6 + 0.7j)
        self.put("a", a, "b" if p["ak"] == "own" else "")
        self.put("x", rnd(rs, (B, self.N), self.dt), "bt")
        if p["zk"] == "1d":
            self.put("zi", rnd(rs, (d,), self.dt), "")
        else:
            self.put("zi", rnd(rs, (B, d), self.dt), "b")

    def call(self, ts, zi, cfg):
        k = {} if cfg["u"] in (None,) else {"unroll_factor": cfg["u"]}
        return two(P().lti.comb_filter(ts["a"], self.M, ts["x"], zi, **k))

    def refstep(self, cur, z):
        y = cur["x"] - cur["a"] * z[:, -1]
        return y, torch.cat([y.unsqueeze(-1), z[:, :-1]], -1)


class LtiLinRec(Spec):
    fam = "lti.linear_recurrence"

    def build(self, rs):
        p = self.p
        B = self.B
        shp = {"own": (B,), "shared": (), "one": (1,)}[p["ak"]]
        a = torch.as_tensor(np.asarray(rs.uniform(-0.95, 0.95, shp))).to(DT[self.dt])
        if self.dt.startswith("c"):
            a = a * (0.8 - 0.5j)
        self.put("a", a, "b" if p["ak"] == "own" else "")
        self.put("x", rnd(rs, (B, self.N), self.dt), "bt")
        shp = {"own": (B,), "shared": (), "one": (1,)}[p["zk"]]
        self.put("zi", rnd(rs, shp, self.dt), "b" if p["zk"] == "own" else "")

    def cfgs(self, rs):
        return {"u": rs.choice_u() or 1, "raw": rs.pick([0, 1, 2], [6, 2, 2])}

    def call(self, ts, zi, cfg):
        if cfg.get("raw"):
            z = zi
            if z.dim() == 0:
                z = z.expand(ts["x"].shape[0])
            elif z.shape[0] != ts["x"].shape[0]:
                z = z.expand(ts["x"].shape[0])
            f = torch.ops.philtorch.lti_recur
            if cfg["raw"] == 2:         # the differentiable wrapper, as the spline and first-order paths use it
                f = getattr(getattr(P().lti.recur, "LTIRecurrence", None), "apply", f)
            y = f(ts["a"], z, ts["x"])
        else:
            y = P().lti.linear_recurrence(ts["a"], zi, ts["x"], unroll_factor=cfg["u"] or 1)
        return y, y[:, -1]

    def zfull(self, z):
        if z.dim() == 0:
            z = z.unsqueeze(0)
        return z.expand(self.B)

    def refstep(self, cur, z):
        y = cur["a"] * z + cur["x"]
        return y, y


class LtiSS(Spec):
    """state_space / diag_state_space"""
    fam = "lti.state_space"

    def build(self, rs):
        p = self.p
        B, dt = self.B, self.dt
        M = self.M = p["M"]
        F, O = p.get("F"), p.get("O")
        own = lambda k: p.get(k) == "own"
        if p.get("diag") == 2:
            l = rs.uniform(-0.9, 0.9, M) * (np.exp(1j * rs.uniform(0, 3, M)) if dt.startswith("c") else 1)
            A = torch.diag(torch.as_tensor(l).to(DT[dt]))
        elif p.get("diag"):
            a = stable_polys(rs, B if own("Ak") else None, M, dt)
            A = companion(a)
            if rs.uniform() < 0.5:
                A = A.mT.contiguous()
        else:
            A = contraction(rs, ((B,) if own("Ak") else ()) + (M, M), dt)
        self.put("A", A, "b" if own("Ak") else "")
        self.put("x", rnd(rs, (B, self.N) + ((F,) if F else ()), dt), "bt")
        if p.get("Bk"):
            shp = ((B,) if own("Bk") else ()) + (M,) + ((F,) if F else ())
            self.put("B", rnd(rs, shp, dt), "b" if own("Bk") else "")
        if p.get("Ck"):
            shp = ((B,) if own("Ck") else ()) + ((O,) if O else ()) + (M,)
            self.put("C", rnd(rs, shp, dt), "b" if own("Ck") else "")
        if p.get("Dk"):
            if p["Dk"] == "scalar":
                shp = ()
            elif p["Dk"] == "one":
                shp = (1,)
            else:
                out = (O or (M if not p.get("Ck") and p.get("out_idx") is None else None))
                shp = ((B,) if own("Dk") else ()) + ((out,) if out else ()) + ((F,) if F else ())
            self.put("D", rnd(rs, shp, dt), "b" if own("Dk") else "")
        if p["zk"] == "1d":
            self.put("zi", rnd(rs, (M,), dt), "")
        else:
            self.put("zi", rnd(rs, (B, M), dt), "b")

    def ok(self, batch, n):
        return lti_ss_ok(self.p, batch)

    def cfgs(self, rs):
        c = {"u": rs.choice_u(), "fn": "ss"}
        if self.p.get("diag") and self.dt in ("f64", "c128") and rs.random() < 0.5:
            c["fn"] = "diagL" if self.p["diag"] == 2 else rs.pick(["diagA", "diagLV", "diagLVi", "diagLVV", "diagLVA", "diagLA"], [3, 3, 3, 3, 1, 1])
            if c["fn"] == "diagLA" and self.p.get("Ak") == "own":
                c["fn"] = "diagLVA"
        return c

    def tol(self, cfg):
        return 1e-8 if self.p.get("diag") and self.dt in ("f64", "c128") else TOL[self.dt]

    def call(self, ts, zi, cfg):
        lti = P().lti
        k = dict(B=ts.get("B"), C=ts.get("C"), D=ts.get("D"), zi=zi, unroll_factor=cfg["u"], out_idx=self.p.get("out_idx"))
        fn = cfg.get("fn", "ss")
        if fn == "ss":
            return two(lti.state_space(ts["A"], ts["x"], **k))
        if fn == "diagA":
            y, zf = two(lti.diag_state_space(ts["x"], A=ts["A"], **k))
        elif fn == "diagL":
            y, zf = two(lti.diag_state_space(ts["x"], L=torch.diagonal(ts["A"]), **k))
        else:
            L, V = torch.linalg.eig(ts["A"])
            d = {"diagLV": lambda: {"V": V}, "diagLVi": lambda: {"Vinv": torch.linalg.inv(V)},
                 "diagLVV": lambda: {"V": V, "Vinv": torch.linalg.inv(V)},
                 "diagLVA": lambda: {"V": V, "A": ts["A"]}, "diagLA": lambda: {"A": ts["A"]}}[fn]()
            y, zf = two(lti.diag_state_space(ts["x"], L=L, **d, **k))
        if not self.dt.startswith("c"):
            y = y.real if y.is_complex() else y
            zf = zf.real if zf is not None and zf.is_complex() else zf
        return y, zf

    def refstep(self, cur, z):
        return ss_refstep(self.p, cur, z, self.M)


def ss_refstep(p, cur, h, M):
    A, x = cur["A"], cur["x"]
    F = p.get("F")
    Bm, C, D = cur.get("B"), cur.get("C"), cur.get("D")
    if Bm is None:
        Bx = x if F else torch.cat([x.unsqueeze(-1), x.new_zeros(x.shape + (M - 1,))], -1)
    elif F:
        Bx = mv(Bm, x)
    else:
        Bx = Bm * x.unsqueeze(-1)
    if C is None:
        y = h if p.get("out_idx") is None else h[:, p["out_idx"]]
    elif p.get("O"):
        y = mv(C, h)
    else:
        y = (C * h).sum(-1)
    if D is not None:
        vec = y.dim() == 2
        if p["Dk"] in ("scalar", "one"):
            Dx = D * x
        elif F:
            Dx = mv(D, x) if vec else (D * x).sum(-1)
        elif vec:
            Dx = D * x.unsqueeze(-1)
        else:
            Dx = D * x
        y = y + Dx
    return y, mv(A, h) + Bx


def lti_ss_ok(p, batch):
    M, F, O = p["M"], p.get("F"), p.get("O")
    vec = O or (M if not p.get("Ck") and p.get("out_idx") is None else None)
    if p.get("Ck") == "shared" and O and batch == O:
        return False
    if p.get("Dk") == "shared" and vec and batch == vec:
        return False
    if p.get("Dk") == "shared" and F and vec == batch:
        return False
    if p.get("Dk") == "one" and F == 1:
        return False
    if p.get("Dk") == "shared" and vec == 1 and not F:
        return False    # shape (1,) is also the documented scalar
    return True


def put_column(h, i, col):
    """the selected-component result takes the place of that column of the full one"""
    i = min(i, h.shape[-1] - 1)
    assert col.shape == h.shape[:-1], f"out_idx result has shape {tuple(col.shape)}"
    return torch.cat([h[..., :i], col.unsqueeze(-1), h[..., i + 1:]], -1)


class LtiSSRec(Spec):
    fam = "lti.state_space_recursion"

    def build(self, rs):
        p = self.p
        B, M = self.B, p["M"]
        self.M = M
        own = p["Ak"] == "own"
        self.put("A", contraction(rs, ((B,) if own else ()) + (M, M), self.dt), "b" if own else "")
        self.put("x", rnd(rs, (B, self.N) + ((M,) if p["x3"] else ()), self.dt), "bt")
        self.put("zi", rnd(rs, (B, M), self.dt), "b")

    def cfgs(self, rs):
        c = {"u": rs.choice_u() or 1, "raw": int(self.p["x3"] and self.M >= 2 and rs.random() < 0.35)}
        if not c["raw"] and rs.random() < 0.2:
            c["oi"] = rs.rint(0, self.M - 1)
        return c

    def call(self, ts, zi, cfg):
        if cfg.get("raw"):
            f = torch.ops.philtorch.lti_recur2 if self.M == 2 else torch.ops.philtorch.lti_recurN
            h = f(ts["A"], zi, ts["x"])
        else:
            h = P().lti.state_space_recursion(ts["A"], zi, ts["x"], unroll_factor=cfg["u"] or 1)
            if cfg.get("oi") is not None:
                h = put_column(h, cfg["oi"], P().lti.state_space_recursion(ts["A"], zi, ts["x"], unroll_factor=cfg["u"] or 1, out_idx=cfg["oi"]))
        return h, h[:, -1]

    def refstep(self, cur, z):
        x = cur["x"]
        if not self.p["x3"]:
            x = torch.cat([x.unsqueeze(-1), x.new_zeros(x.shape + (self.M - 1,))], -1)
        h = mv(cur["A"], z) + x
        return h, h


# =================================================================== LPV
class LpvLfilter(Spec):
    fam = "lpv.lfilter"

    def build(self, rs):
        p = self.p
        self.form = p["form"]
        B, N, dt = self.B, self.N, self.dt
        na, nb = p["na"], p["nb"]
        self.M = max(na, nb)
        bo, ao = p["bk"] == "own", p["ak"] == "own"
        self.put("b", rnd(rs, ((B,) if bo else ()) + (N, nb + 1), dt), "bt" if bo else "t")
        self.put("a", small_last(rs, ((B,) if ao else ()) + (N, na), dt), "bt" if ao else "t")
        self.put("x", rnd(rs, (B, N), dt), "bt")
        if p["zk"] == "1d" or p.get("x1d"):
            self.put("zi", rnd(rs, (self.M,), dt), "")
        else:
            self.put("zi", rnd(rs, (B, self.M), dt), "b")

    def cfgs(self, rs):
        c = {"u": rs.choice_u(), "be": "ssm"}
        if self.form == "df2" and self.p["na"] >= 1 and rs.random() < 0.35:
            c["be"] = "torchlpc"
        return c

    def call(self, ts, zi, cfg):
        x = ts["x"]
        x1 = self.p.get("x1d")
        if x1:
            x = x[0]
            if zi is not None and zi.dim() == 2:
                zi = zi[0]
        k = {} if cfg.get("be") == "torchlpc" else {"unroll_factor": cfg["u"]}
        y, zf = two(P().lpv.lfilter(ts["b"], ts["a"], x, zi, form=self.form, backend=cfg.get("be", "ssm"), **k))
        return (up(y), up(zf)) if x1 else (y, zf)

    refstep = LtiLfilter.refstep


class LpvFir(Spec):
    fam = "lpv.fir"

    def build(self, rs):
        p = self.p
        self.tr = p["transpose"]
        M = self.M = p["nb"]
        self.put("b", rnd(rs, (self.B, self.N, M + 1), self.dt), "bt")
        self.put("x", rnd(rs, (self.B, self.N), self.dt), "bt")
        self.put("zi", rnd(rs, (self.B, M), self.dt), "b")

    def cfgs(self, rs):
        return {"u": 1}

    def call(self, ts, zi, cfg):
        return two(P().lpv.fir(ts["b"], ts["x"], zi, transpose=self.tr))

    refstep = LtiFir.refstep


class LpvAllpole(Spec):
    fam = "lpv.allpole"

    def build(self, rs):
        p = self.p
        self.tr = p["transpose"]
        M = self.M = p["na"]
        self.put("a", small_last(rs, (self.B, self.N, M), self.dt), "bt")
        self.put("x", rnd(rs, (self.B, self.N), self.dt), "bt")
        self.put("zi", rnd(rs, (self.B, M), self.dt), "b")

    def cfgs(self, rs):
        return {"u": 1}

    def call(self, ts, zi, cfg):
        return two(P().lpv.allpole(ts["a"], ts["x"], zi, transpose=self.tr))

    def refstep(self, cur, z):
        a, x = cur["a"], cur["x"]
        if self.tr:
            y = x + z[:, 0]
            z = torch.cat([z[:, 1:], torch.zeros_like(z[:, :1])], -1) - a * y.unsqueeze(-1)
            return y, z
        y = x - (a * z).sum(-1)
        return y, torch.cat([y.unsqueeze(-1), z[:, :-1]], -1)


class LpvLinRec(Spec):
    fam = "lpv.linear_recurrence"

    def build(self, rs):
        p = self.p
        B, N = self.B, self.N
        own = p["ak"] == "own"
        a = torch.as_tensor(rs.uniform(-0.95, 0.95, (B, N) if own else (N,))).to(DT[self.dt])
        if self.dt.startswith("c"):
            a = a * (0.8 - 0.5j)
        self.put("a", a, "bt" if own else "t")
        self.put("x", rnd(rs, (B, N), self.dt), "bt")
        shp = {"own": (B,), "shared": (), "one": (1,)}[p["zk"]]
        self.put("zi", rnd(rs, shp, self.dt), "b" if p["zk"] == "own" else "")

    def cfgs(self, rs):
        return {"u": rs.choice_u() or 1}

    def call(self, ts, zi, cfg):
        y = P().lpv.linear_recurrence(ts["a"], zi, ts["x"], unroll_factor=cfg["u"] or 1)
        return y, y[:, -1]

    zfull = LtiLinRec.zfull
    refstep = LtiLinRec.refstep


class LpvSS(Spec):
    fam = "lpv.state_space"

    def _shape(self, kind, tail):
        B, N = self.B, self.N
        return {"const": (), "step": (N,), "stream": (B,), "both": (B, N)}[kind] + tail

    _tags = {"const": "", "step": "t", "stream": "b", "both": "bt"}

    def build(self, rs):
        p = self.p
        B, N, dt = self.B, self.N, self.dt
        M = self.M = p["M"]
        F, O = p.get("F"), p.get("O")
        tF = (F,) if F else ()
        tO = (O,) if O else ()
        self.put("A", contraction(rs, self._shape(p["Ak"], (M, M)), dt), self._tags[p["Ak"]])
        self.put("x", rnd(rs, (B, N) + tF, dt), "bt")
        if p.get("Bk"):
            self.put("B", rnd(rs, self._shape(p["Bk"], (M,) + tF), dt), self._tags[p["Bk"]])
        if p.get("Ck"):
            self.put("C", rnd(rs, self._shape(p["Ck"], tO + (M,)), dt), self._tags[p["Ck"]])
        if p.get("Dk"):
            if p["Dk"] == "scalar":
                self.put("D", rnd(rs, (), dt), "")
            elif p["Dk"] == "one":
                self.put("D", rnd(rs, (1,), dt), "")
            else:
                vec = O or (M if not p.get("Ck") and p.get("out_idx") is None else None)
                self.put("D", rnd(rs, self._shape(p["Dk"], ((vec,) if vec else ()) + tF), dt), self._tags[p["Dk"]])
        if p["zk"] == "1d":
            self.put("zi", rnd(rs, (M,), dt), "")
        else:
            self.put("zi", rnd(rs, (B, M), dt), "b")

    def ok(self, batch, n):
        return lpv_ss_ok(self.p, batch, n)

    def call(self, ts, zi, cfg):
        return two(P().lpv.state_space(ts["A"], ts["x"], B=ts.get("B"), C=ts.get("C"), D=ts.get("D"), zi=zi,
                                       unroll_factor=cfg["u"], out_idx=self.p.get("out_idx")))

    def refstep(self, cur, z):
        return ss_refstep(self.p, cur, z, self.M)


def _readings(which, F):
    pre = {"const": (), "step": ("N",), "stream": ("B",), "both": ("B", "N")}
    tails = {"B": [("M",) + (("F",) if F else ())],
             "C": [("M",), ("O", "M")],
             "D": [(("F",) if F else ()), ("O",) + (("F",) if F else ())]}[which]
    return {(k, t): pre[k] + t for k in pre for t in tails}


def lpv_ss_ok(p, batch, n):
    """False if the shape of B, C or D at this block length and batch size has a
    second documented reading of the same standing (inherent API ambiguity)."""
    M, F, O = p["M"], p.get("F"), p.get("O")
    vec = O or (M if not p.get("Ck") and p.get("out_idx") is None else None)
    val = {"N": n, "B": batch, "M": M, "F": F, "O": None}
    for which, kk in (("B", "Bk"), ("C", "Ck"), ("D", "Dk")):
        k = p.get(kk)
        if not k or k in ("scalar",):
            continue
        if k == "one":
            if F == 1:
                return False
            continue
        if which == "D" and k == "const" and vec == 1 and not F:
            return False    # shape (1,) is also the documented scalar
        if which == "B":
            tail = ("M",) + (("F",) if F else ())
        elif which == "C":
            tail = (("O",) if O else ()) + ("M",)
        else:
            tail = (("O",) if vec else ()) + (("F",) if F else ())
        R = _readings(which, F)
        me = R[(k, tail)]
        ov = O if which == "C" else vec
        shp = tuple(ov if s == "O" else val[s] for s in me)
        for key, r in R.items():
            if key == (k, tail) or len(r) != len(shp):
                continue
            m = all(s == "O" or val[s] == v for s, v in zip(r, shp))
            if m and r.count("O") <= me.count("O"):
                return False
    return True


class LpvSSRec(Spec):
    fam = "lpv.state_space_recursion"

    def build(self, rs):
        p = self.p
        B, N, M = self.B, self.N, p["M"]
        self.M = M
        own = p["Ak"] == "own"
        self.put("A", contraction(rs, ((B,) if own else ()) + (N, M, M), self.dt), "bt" if own else "t")
        self.put("x", rnd(rs, (B, N) + ((M,) if p["x3"] else ()), self.dt), "bt")
        self.put("zi", rnd(rs, (B, M), self.dt), "b")

    def cfgs(self, rs):
        c = {"u": rs.choice_u() or 1, "raw": int(self.p["x3"] and self.M >= 2 and rs.random() < 0.35)}
        if not c["raw"] and rs.random() < 0.2:
            c["oi"] = rs.rint(0, self.M - 1)
        return c

    def call(self, ts, zi, cfg):
        if cfg.get("raw"):
            f = torch.ops.philtorch.recur2 if self.M == 2 else torch.ops.philtorch.recurN
            h = f(ts["A"], zi, ts["x"])
        else:
            h = P().lpv.state_space_recursion(ts["A"], zi, ts["x"], unroll_factor=cfg["u"] or 1)
            if cfg.get("oi") is not None:
                h = put_column(h, cfg["oi"], P().lpv.state_space_recursion(ts["A"], zi, ts["x"], unroll_factor=cfg["u"] or 1, out_idx=cfg["oi"]))
        return h, h[:, -1]

    refstep = LtiSSRec.refstep


FAMS = {c.fam: c for c in [LtiLfilter, LtiFir, LtiComb, LtiLinRec, LtiSS, LtiSSRec,
                           LpvLfilter, LpvFir, LpvAllpole, LpvLinRec, LpvSS, LpvSSRec]}
LTI_FAMS = [f for f in FAMS if f.startswith("lti")]
LPV_FAMS = [f for f in FAMS if f.startswith("lpv")]


def make(p):
    return FAMS[p["fam"]](p)


# ----------------------------------------------------------- random parameters
class R:
    """small wrapper around random.Random with helpers used in generators"""

    def __init__(self, rng):
        self.r = rng

    def random(self):
        return self.r.random()

    def pick(self, seq, w=None):
        if w is None:
            return seq[self.r.randrange(len(seq))]
        return self.r.choices(seq, weights=w)[0]

    def rint(self, a, b):
        return self.r.randint(a, b)

    def choice_u(self):
        return self.pick(UNROLLS)

    def p(self, x):
        return self.r.random() < x


def gen_params(R_, fam, B=None, N=None, dtype=None, nmax=40, own_only=False):
    """random parameters of a family"""
    r = R_
    p = {"fam": fam, "B": B or r.pick([1, 2, 3, 4, 5], [3, 4, 4, 2, 2]), "N": N or r.rint(1, nmax),
         "dtype": dtype or r.pick(["f64", "c128", "f32", "c64"], [6, 2, 2, 1]), "seed": r.rint(0, 2 ** 31 - 1)}
    ks = lambda: "own" if own_only or r.p(0.5) else "shared"
    zk = lambda: "own" if own_only or r.p(0.75) else "1d"
    lay = lambda: r.pick(["c", "t", "s", "o"], [5, 1, 1, 1])
    if fam.endswith("lfilter"):
        p["form"] = r.pick(["df2", "tdf2"])
        p["na"] = r.pick([0, 1, 2, 3, 4], [1, 3, 5, 4, 2])
        p["nb"] = r.pick([0, 1, 2, 3, 4], [2, 3, 4, 3, 2])
        if max(p["na"], p["nb"]) == 0:
            p["na"] = 1
        p["bk"], p["ak"], p["zk"] = ks(), ks(), zk()
        if not own_only and p["B"] == 1 and r.p(0.5):
            p["x1d"] = 1
            p["bk"] = p["ak"] = "shared"
            p["zk"] = "1d"
    elif fam.endswith("fir"):
        p["transpose"] = int(r.p(0.5))
        p["nb"] = r.pick([0, 1, 2, 3, 5])
        p["zk"] = "own"
    elif fam.endswith("allpole"):
        p["transpose"] = int(r.p(0.5))
        p["na"] = r.pick([1, 2, 3, 5])
        p["zk"] = "own"
    elif fam.endswith("comb_filter"):
        p["delay"] = r.pick([1, 2, 3, 5, 8])
        p["ak"], p["zk"] = ks(), zk()
    elif fam.endswith("linear_recurrence"):
        p["ak"] = "own" if own_only else r.pick(["own", "shared", "one"] if fam.startswith("lti") else ["own", "shared"])
        p["zk"] = "own" if own_only else r.pick(["own", "shared", "one"], [3, 1, 1])
    elif fam.endswith("state_space_recursion"):
        p["M"] = r.pick([1, 2, 3, 4], [1, 3, 3, 2])
        p["x3"] = int(r.p(0.6))
        p["Ak"] = ks()
        p["zk"] = "own"
    elif fam.endswith("state_space"):
        lpv = fam.startswith("lpv")
        for _ in range(50):
            q = dict(p)
            kk = (lambda: r.pick(["both"] if own_only else ["const", "step", "stream", "both"])) if lpv else ks
            q["M"] = r.pick([1, 2, 3, 4], [1, 4, 4, 2])
            q["Ak"] = ("both" if own_only else r.pick(["step", "both"])) if lpv else ks()
            if not lpv and r.p(0.45) and q["M"] >= 1:
                q["diag"] = 1
                if q["Ak"] == "shared" and r.p(0.25):
                    q["diag"] = 2
            x3 = r.p(0.45)
            hasB = r.p(0.6)
            if x3:
                q["F"] = r.pick([1, 2, 3, 4]) if hasB else q["M"]
            if hasB:
                q["Bk"] = kk()
            mode = r.pick(["C", "Cvec", "none", "idx"])
            if mode in ("C", "Cvec"):
                q["Ck"] = kk()
                if mode == "Cvec":
                    q["O"] = r.pick([1, 2, 3, 4])
            elif mode == "idx":
                q["out_idx"] = r.rint(0, q["M"] - 1)
            if r.p(0.6):
                ch = ["k"]
                if not q.get("F") and mode in ("C", "idx"):
                    ch += ["scalar", "one"]
                if q.get("F") and q["F"] == (q.get("O") or (q["M"] if mode == "none" else None)):
                    ch += ["scalar"] + ["one"] * (q["F"] > 1)
                c = r.pick(ch)
                q["Dk"] = kk() if c == "k" else c
            q["zk"] = zk()
            okf = (lambda b, n: lpv_ss_ok(q, b, n)) if lpv else (lambda b, n: lti_ss_ok(q, b))
            # most block lengths must be unambiguous
            if sum(okf(q["B"], n) for n in range(1, 9)) >= 5:
                p = q
                break
        else:
            raise RuntimeError("no unambiguous parameters")
    if r.p(0.4):
        p["lay"] = {"x": lay(), "A": lay(), "a": lay(), "b": lay(), "zi": lay()}
    if r.p(0.06):           # high orders, double precision, without eigendecompositions
        g = dict(p, nodiag=1, dtype=dtype or ("c128" if p["dtype"].startswith("c") else "f64"))
        for k, lo, hi_ in (("na", 5, 9), ("nb", 5, 9), ("M", 5, 9), ("delay", 9, 40)):
            if k in g and r.p(0.7):
                g[k] = r.rint(lo, hi_)
        if "nb" in g and fam.endswith("fir") and r.p(0.3):
            g["nb"] = r.rint(10, 70)
        for k in ("F", "O"):
            if g.get(k) and r.p(0.4):
                g[k] = r.rint(5, 9)
        if "M" in g and "F" in g and not g.get("Bk"):
            g["F"] = g["M"]
        if g.get("Dk") in ("scalar", "one") and g.get("F"):
            g["F"] = g.get("O") or g["M"]       # scaled feed-through: as many inputs as outputs
            if not g.get("Bk") and g["F"] != g["M"]:
                g["O"] = g["F"] = g["M"]
        g.pop("diag", None)
        if g.get("out_idx") is not None:
            g["out_idx"] = r.rint(0, g["M"] - 1)
        if not fam.endswith("state_space") or \
                sum((lpv_ss_ok(g, g["B"], n) if fam.startswith("lpv") else lti_ss_ok(g, g["B"])) for n in range(1, 9)) >= 5:
            p = g
    if r.p(0.2):
        v = {"x": r.pick(["zero", "runs", "held", "cycle", "impulse", "row", "same", "one", "big", "tiny", "real"])}
        for k in ("zi", "b", "B", "C", "D"):
            if r.p(0.35):
                v[k] = r.pick({"zi": ["zero", "first", "last", "row", "same", "big", "tiny"], "b": ["zero", "first", "last", "held", "cycle", "row", "same", "one", "one", "runs", "real"]}.get(
                    k, ["zero", "first", "last", "held", "cycle", "row", "same", "one", "real"]))
        if r.p(0.4) and not p.get("diag"):
            v["A" if fam.endswith(("state_space", "state_space_recursion")) else "a"] = r.pick(
                ["zero", "last", "held", "cycle", "row", "same", "runs", "tiny", "real"])
            if "A" in v and r.p(0.35):
                v["A"] = r.pick(["dia", "eye"]) if fam.startswith("lpv") else r.pick(["tri", "dia", "eye"])
            if "a" in v and (fam.endswith(("linear_recurrence", "comb_filter")) or p.get("na") == 1) and r.p(0.5):
                v["a"] = r.pick(["one", "negone", "rowone", "faint"], [1, 1, 1, 2])
            if fam == "lti.lfilter" and v.get("a") in ("last", "real"):     # would not stay stable
                v["a"] = "zero"
            if "a" in v and v["a"] not in ("held", "same", "cycle") or v.get("A") == "eye":
                p["nodiag"] = 1
        if r.p(0.2):
            v.pop("x")
        p["vals"] = v
    elif fam.endswith(("linear_recurrence", "comb_filter")) and r.p(0.06):
        p["vals"] = {"a": "faint"}
    return p
