"""Single public calls as data: parameters (JSON) -> argument tensors -> call.
Used wherever a property quantifies over all public functions (C03, C05..C07,
C10, C11)."""
import math
import numpy as np
import torch
from . import fam
from .fam import DT, P, rnd, stable_polys, relayout, TOL, two


class Call:
    """args(): fresh argument tensors by name; run(args) -> list of result tensors"""
    diff = True        # differentiable
    pure_args = True   # listed among the functions whose arguments C06 protects

    def __init__(self, p):
        self.p = p
        self.dt = p.get("dtype", "f64")
        self.name = p["call"]
        self.base = {}
        rs = np.random.RandomState(p["seed"] & 0xffffffff)
        self.make(rs)
        for k, kind in p.get("vals", {}).items():
            if k in self.base and self.base[k].numel():
                self.base[k] = fam.special(self.base[k], kind, {"x": "bt"}.get(k, "") if self.base[k].dim() > 1 else "", p["seed"])
        for k, kind in p.get("lay", {}).items():
            if k in self.base and kind and self.base[k].dim():
                self.base[k] = relayout(self.base[k], kind, rs)

    def args(self):
        """values with their own storage and the same layout kind"""
        out = {}
        for k, t in self.base.items():
            out[k] = self.fresh(k)
        return out

    def fresh(self, k):
        t = self.base[k]
        kind = self.p.get("lay", {}).get(k, "c")
        c = t.detach().clone(memory_format=torch.contiguous_format)
        if kind in ("c", None) or not t.dim():
            return c
        return relayout(c, kind, None)

    def tol(self):
        return TOL[self.dt]

    def desc(self):
        return f"{self.name} {({k: tuple(v.shape) for k, v in self.base.items()})} {self.dt} " + \
            str({k: v for k, v in self.p.items() if k not in ("call", "seed", "lay", "dtype", "B", "N", "fp")})


class FamCall(Call):
    def make(self, rs):
        p = self.p
        q = dict(p["fp"])
        q.pop("lay", None)
        self.spec = fam.make(q)
        self.dt = self.spec.dt
        self.cfg = p["cfg"]
        self.name = self.spec.fam
        for k, (t, tags) in self.spec.T.items():
            if k == "zi" and p.get("cold"):
                continue
            self.base[k] = t

    def run(self, a):
        ts = {k: v for k, v in a.items() if k != "zi"}
        y, zf = self.spec.call(ts, a.get("zi"), self.cfg)
        if self.spec.fam.endswith(("recurrence", "recursion")):
            return [y]      # the state is the caller's own slice of y
        return [t for t in (y, zf) if t is not None]

    def tol(self):
        return self.spec.tol(self.cfg)

    def desc(self):
        return f"{self.name} {self.cfg} " + str({k: tuple(v.shape) for k, v in self.base.items()}) + " " + self.dt + \
            str({k: self.p["fp"].get(k) for k in ("form", "transpose", "delay", "out_idx", "diag") if k in self.p["fp"]})


class Df1(Call):
    def make(self, rs):
        p = self.p
        B, N = p["B"], p["N"]
        if p["lpv"]:
            self.base["b"] = rnd(rs, ((B,) if p["bo"] else ()) + (N, p["nb"] + 1), self.dt)
            self.base["a"] = fam.small_last(rs, ((B,) if p["ao"] else ()) + (N, p["na"]), self.dt)
        else:
            self.base["b"] = rnd(rs, ((B,) if p["bo"] else ()) + (p["nb"] + 1,), self.dt)
            self.base["a"] = stable_polys(rs, B if p["ao"] else None, p["na"], self.dt)
        self.base["x"] = rnd(rs, (B, N), self.dt)
        self.name = ("lpv" if p["lpv"] else "lti") + ".lfilter " + p["form"]

    def run(self, a):
        m = P().lpv if self.p["lpv"] else P().lti
        k = {}
        if self.p.get("u"):
            k["unroll_factor"] = self.p["u"]
        if self.p.get("be"):
            k = {"backend": self.p["be"]}
        one = self.p.get("x1d") and a["x"].shape[0] == 1 and a["b"].dim() == a["a"].dim() == 1
        y = m.lfilter(a["b"], a["a"], a["x"][0] if one else a["x"], form=self.p["form"], **k)
        return [y.unsqueeze(0) if one else y]


class DiagLong(Call):
    def make(self, rs):
        p = self.p
        B, N = p["B"], p["N"]
        self.base["b"] = rnd(rs, (B, p["na"] + 1 + p["extra"]), self.dt)
        self.base["a"] = stable_polys(rs, B, p["na"], self.dt)
        self.base["x"] = rnd(rs, (B, N), self.dt)

    def run(self, a):
        return [P().lti.lfilter(a["b"], a["a"], a["x"], form=self.p["form"], backend="diag_ssm",
                                delayed_form=bool(self.p["delayed"]), unroll_factor=self.p["u"])]

    def tol(self):
        return 1e-7


class FiltFilt(Call):
    def make(self, rs):
        p = self.p
        B, N = p["B"], p["N"]
        self.base["b"] = rnd(rs, ((B,) if p["bo"] else ()) + (p["nb"] + 1,), self.dt)
        self.base["a"] = stable_polys(rs, B if p.get("ao", p["bo"]) else None, p["na"], self.dt)
        self.base["x"] = rnd(rs, (B, N), self.dt)

    def run(self, a):
        k = {"unroll_factor": self.p["u"]} if self.p.get("u") else {}
        if self.p.get("be"):
            k["backend"] = self.p["be"]
        if self.p.get("padlen") is not None:
            k["padlen"] = self.p["padlen"]
        x, one = a["x"], self.p.get("x1d") and a["x"].shape[0] == 1 and a["b"].dim() == a["a"].dim() == 1
        y = P().lti.filtfilt(a["b"], a["a"], x[0] if one else x, padmode=self.p["pad"], form=self.p["form"], **k)
        y = [y] if isinstance(y, torch.Tensor) else list(y)
        return [v.unsqueeze(0) for v in y] if one else y

    def tol(self):
        return 1e-8 if self.dt in ("f64", "c128") else 2e-3


class Spline(Call):
    def make(self, rs):
        self.base["x"] = rnd(rs, (self.p["B"], self.p["N"]), self.dt)

    def run(self, a):
        p = self.p
        import philtorch.lti.interp as I
        k = {"scipy_padding": bool(p["sp"])}
        if p.get("par") is not None:
            k["parallel_form"] = bool(p["par"])
        if p.get("u"):
            k["unroll_factor"] = p["u"]
        if p["m"] == 0:
            return [I.cspline(a["x"], **k)]
        if p["m"] == 1:
            k = {"scipy_padding": bool(p["sp"])}
        return [P().lti.cubic_spline(a["x"], p["m"], **k)]

    def tol(self):
        return 1e-10 if self.dt in ("f64", "c128") else 5e-4


class Lfiltic(Call):
    def make(self, rs):
        p = self.p
        B = p["B"]
        L = (B,) if p["bo"] else ()
        self.base["b"] = rnd(rs, L + (p["nb"] + 1,), self.dt)
        ao = p.get("ao", p["bo"])
        self.base["a"] = stable_polys(rs, B if ao else None, p["na"], self.dt)
        self.base["y"] = rnd(rs, ((B,) if ao else ()) + (p["na"],), self.dt)
        if p["wx"]:
            self.base["x"] = rnd(rs, L + (p["nb"],), self.dt)

    def run(self, a):
        return [P().lti.lfiltic(a["b"], a["a"], a["y"], a.get("x"))]


class LfilterZi(Call):
    def make(self, rs):
        p = self.p
        B = p["B"]
        self.base["a"] = stable_polys(rs, B if p.get("ao", p["bo"]) else None, p["na"], self.dt)
        if p["tr"] or p.get("wb"):
            self.base["b"] = rnd(rs, ((B,) if p["bo"] else ()) + (p["nb"] + 1,), self.dt)

    def run(self, a):
        return [P().lti.lfilter_zi(a["a"], a.get("b"), transpose=bool(self.p["tr"]))]

    def tol(self):
        return 1e-9 if self.dt in ("f64", "c128") else 1e-3


class Mat(Call):
    def make(self, rs):
        p = self.p
        k, B, M = p["k"], p["B"], p["M"]
        L = (B,) if p["bo"] else ()
        if k == "companion" or k == "vandermonde":
            self.base["a"] = rnd(rs, L + (M,), self.dt)
        elif k == "power":
            self.base["a"] = fam.contraction(rs, L + (M, M), self.dt)
        elif k == "cumdot":
            self.base["a"] = fam.contraction(rs, L + (p["n"], M, M), self.dt)
        elif k == "eigvec":
            a = fam.companion(stable_polys(rs, B if p["bo"] else None, M, self.dt))
            self.base["a"] = a
        elif k == "polydiv":
            self.base["a"] = rnd(rs, L + (M + p["n"],), self.dt)
            v = rnd(rs, L + (M,), self.dt)
            v[..., 0] += 2.0
            self.base["v"] = v
        self.name = "mat." + k
        self.diff = k != "vandermonde"      # torch.vander is not differentiable

    def run(self, a):
        import philtorch.mat as m, philtorch.poly as q
        k = self.p["k"]
        if k == "companion":
            return [m.companion(a["a"])]
        if k == "vandermonde":
            return [m.vandermonde(a["a"])]
        if k == "power":
            return [m.matrix_power_accumulate(a["a"], self.p["n"])]
        if k == "cumdot":
            return [m.matrices_cumdot(a["a"])]
        if k == "eigvec":
            ok = torch.isfinite(a["a"].detach()).all(-1).all(-1, keepdim=True)     # LAPACK may crash otherwise
            w = torch.where(ok, torch.linalg.eigvals(torch.where(ok.unsqueeze(-1), a["a"], 0.0)), torch.nan)
            return [m.find_eigenvectors(a["a"] + 0j, w)]
        return list(q.polydiv(a["a"], a["v"]))

    def tol(self):
        return 1e-8 if self.dt in ("f64", "c128") else 1e-3


KINDS = {"fam": FamCall, "df1": Df1, "diaglong": DiagLong, "filtfilt": FiltFilt, "spline": Spline, "lfiltic": Lfiltic,
         "lfilter_zi": LfilterZi, "mat": Mat}


def make(p):
    c = KINDS[p["call"]](p)
    if p.get("noext"):
        run = c.run

        def off(a):
            with fam.noext():
                return run(a)
        c.run = off
    return c


def gen(r, kinds=None, fams=None, B=None, N=None, dtype=None, nmax=24, lay=True, own_only=False, i=None):
    ks = kinds or ["fam", "df1", "diaglong", "filtfilt", "spline", "lfiltic", "lfilter_zi", "mat"]
    w = [{"fam": 14, "df1": 3, "diaglong": 1, "filtfilt": 2, "spline": 3, "lfiltic": 1, "lfilter_zi": 1, "mat": 2}[k] for k in ks]
    k = r.pick(ks, w)
    p = {"call": k, "seed": r.rint(0, 2 ** 31 - 1)}
    p["B"] = B or r.pick([1, 2, 3, 4, 7], [3, 4, 4, 2, 1])
    p["N"] = N or r.rint(1, nmax)
    if B is None and N is None and nmax >= 8 and r.p(0.012):      # wide or long calls
        p["B"], p["N"] = r.pick([(r.rint(40, 150), r.rint(1, 5)), (r.rint(1, 2), r.rint(130, 400)), (r.rint(12, 20), r.rint(40, 70))])
    p["dtype"] = dtype or r.pick(["f64", "c128", "f32", "c64"], [6, 2, 2, 1])
    bo = lambda: int(own_only or r.p(0.5))
    if k == "fam":
        names = fams or list(fam.FAMS)
        for _ in range(30):
            fp = fam.gen_params(r, names[i % len(names)] if i is not None else r.pick(names), B=p["B"], N=p["N"],
                                dtype=p["dtype"], own_only=own_only)
            s = fam.make(fp)
            if s.ok(fp["B"], fp["N"]):
                break
            p["N"] += 1
        l = fp.pop("lay", None)
        if l and lay:
            p["lay"] = l
        p["fp"] = fp
        p["cfg"] = s.config(r)
        if r.p(0.2) and not s.fam.endswith(("recurrence", "recursion")):
            p["cold"] = 1
        return p
    if k == "df1":
        p.update(lpv=int(r.p(0.5)), form=r.pick(["df1", "tdf1"]), na=r.rint(1, 4), nb=r.rint(0, 4), bo=bo(), ao=bo(),
                 u=r.pick([0, 1, 2, 3, 5]))
        if p["lpv"]:
            p["u"] = r.pick([1, 2, 3, 5])
            if r.p(0.3):
                p["be"] = "torchlpc"
        else:
            p["u"] = r.pick([1, 2, 3, 5])
        if not p["lpv"] and r.p(0.3):
            p["x1d"] = 1
    elif k == "diaglong":
        p.update(na=r.rint(1, 3), extra=r.rint(1, 3), form=r.pick(["df2", "tdf2"]), delayed=int(r.p(0.5)), u=r.pick([None, 1, 2, 4]))
        p["dtype"] = dtype if dtype in ("f64", "c128") else r.pick(["f64", "c128"])
    elif k == "filtfilt":
        p.update(na=r.rint(1, 3), nb=r.rint(0, 3), bo=bo(), pad=r.pick(["replicate", "reflect", "constant", None]),
                 form=r.pick(["df2", "tdf2"]), u=r.pick([None, 1, 2, 4]))
        if r.p(0.25):
            p["form"] = r.pick(["df1", "tdf1"])
            p["u"] = p["u"] or 1
        p["N"] = 3 * (max(p["nb"] + 1, p["na"] + 1)) + r.rint(1, 20)
        if r.p(0.3):
            p["padlen"] = r.pick([0, 1, 2, r.rint(0, max(0, p["N"] - 2))])
        if r.p(0.3):
            p["x1d"] = 1
    elif k == "spline":
        p.update(m=r.pick([0, 0, 1, 2, 3]), sp=int(r.p(0.5)), par=r.pick([None, 0, 1]), u=r.pick([None, None, 1, 2, 4]))
        p["N"] = max(r.pick([p["N"], 1, 2, 3], [5, 1, 1, 1]), 1 if p["m"] < 2 else 2 if p["sp"] else 3)
        p["dtype"] = dtype if dtype in ("f64", "f32") else r.pick(["f64", "f32"])
    elif k == "lfiltic":
        p.update(na=r.rint(0, 4), nb=r.rint(0, 4), bo=bo(), wx=int(r.p(0.8)))
        if p["na"] + p["nb"] == 0:
            p["na"] = 2
    elif k == "lfilter_zi":
        p.update(na=r.rint(1, 4), nb=r.rint(0, 4), bo=bo(), tr=int(r.p(0.6)), wb=int(r.p(0.5)))
    elif k == "mat":
        p.update(k=r.pick(["companion", "vandermonde", "power", "cumdot", "eigvec", "polydiv"]), M=r.rint(1, 4), n=r.rint(1, 12), bo=bo())
        if p["k"] == "vandermonde":
            p["bo"] = 0
        if p["k"] == "eigvec":
            p["dtype"] = dtype if dtype in ("f64", "c128") else "f64"
            p["M"] = max(2, p["M"])
    if k in ("filtfilt", "lfiltic", "lfilter_zi") and not own_only and r.p(0.25):
        p["ao"] = 1 - p["bo"]       # one polynomial for all streams, the other one per stream
    if r.p(0.12) and p["call"] != "mat":
        p["noext"] = 1
    if r.p(0.08):           # higher orders, double precision
        for n in ("na", "nb"):
            if n in p and k != "diaglong" and r.p(0.6):
                p[n] = r.rint(5, 9)
        if k == "mat" and p["k"] in ("companion", "power", "cumdot", "polydiv"):
            p["M"], p["n"] = r.rint(1, 8), r.rint(1, 70)
        p["dtype"] = {"f32": "f64", "c64": "c128"}.get(p["dtype"], p["dtype"]) if not dtype else dtype
        if k == "filtfilt":
            p["N"] = 3 * (max(p["nb"] + 1, p["na"] + 1)) + r.rint(1, 20)
        elif k in ("df1", "spline", "diaglong"):
            p["N"] = r.rint(p["N"], max(p["N"], 300))
    if "padlen" in p:
        p["padlen"] = min(p["padlen"], p["N"] - 2)
    if r.p(0.1) and k != "mat":
        p["vals"] = {"x": r.pick(["zero", "runs", "held", "cycle", "impulse", "row", "same", "one", "big", "tiny"])}
        if r.p(0.4):
            p["vals"]["b"] = r.pick(["first", "last", "zero", "one"])
        if r.p(0.3) and p.get("na") == 1 and k in ("df1", "lfiltic"):
            p["vals"]["a"] = r.pick(["one", "negone", "zero"])
    if lay and r.p(0.4):
        p["lay"] = {n: r.pick(["c", "t", "s", "o", "j"], [4, 1, 1, 1, 0.7]) for n in ("x", "a", "b", "y")}
    return p


# ------------------------------------------------------------------ ambient
def ambient():
    """process-wide settings a call must not change"""
    import warnings
    return {
        "default_dtype": str(torch.get_default_dtype()), "threads": torch.get_num_threads(),
        "default_device": str(torch.get_default_device()),
        "grad": torch.is_grad_enabled(), "inference": torch.is_inference_mode_enabled(),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "anomaly": torch.is_anomaly_enabled(), "mkldnn": torch.backends.mkldnn.enabled,
        "matmul_precision": torch.get_float32_matmul_precision(),
        "flush_denormal": float((torch.tensor([5e-324], dtype=torch.float64, device="cpu") * 1.0)[0]),
        "rng": torch.random.get_rng_state().numpy().tobytes().hex()[:64] + str(hash(torch.random.get_rng_state().numpy().tobytes())),
        "nprng": str(np.random.get_state()[2]) + str(hash(np.random.get_state()[1].tobytes())),
        "einsum": torch.backends.opt_einsum.enabled if hasattr(torch.backends, "opt_einsum") else None,
        "autocast": torch.is_autocast_enabled("cpu"),
        "warnfilters": repr(warnings.filters),
    }


def ambient_diff(a, b):
    return [k for k in a if a[k] != b[k]]


def bits(t):
    """value bytes, independent of layout"""
    t = t.detach().resolve_conj().resolve_neg()
    return (str(t.dtype), tuple(t.shape), t.contiguous().numpy().tobytes() if t.numel() else b"")


def storage_bits(t):
    """every byte of the underlying storage (gaps between elements included)"""
    s = t.untyped_storage()
    n = s.nbytes()
    if n == 0:
        return b""
    u = torch.empty(0, dtype=torch.uint8).set_(s, 0, (n,), (1,))
    return u.numpy().tobytes()
