"""A service of replica processes in which optional accelerators failed to load
in different ways; calls and streams are routed to any of them."""
import importlib.abc, importlib.machinery, importlib.util
import os, pickle, struct, sys, traceback, types, warnings
import numpy as np
import torch
from .. import core, fam, calls

EXT = ["ok", "absent", "truncated", "garbage", "noinit", "late", "oserror", "runtime"]
HEL = ["absent", "stub", "attr", "late", "runtime", "real"]
PAR = ["absent", "stub", "oserror"]


# --------------------------------------------------------------------- server
class Raise(importlib.abc.Loader):
    def __init__(self, e):
        self.e = e

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        raise self.e


class Late(importlib.machinery.ExtensionFileLoader):
    """the library is loaded and its kernels registered, then its set-up fails"""

    def exec_module(self, m):
        super().exec_module(m)
        raise ImportError("initialisation of _C failed")


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, how, so, scratch):
        self.how, self.so, self.scratch = how, so, scratch

    def find_spec(self, name, path=None, target=None):
        if name != "philtorch._C":
            return None
        h = self.how
        if h == "absent":
            raise ModuleNotFoundError("No module named 'philtorch._C'", name=name)
        if h == "oserror":
            return importlib.machinery.ModuleSpec(name, Raise(OSError("CUDA_HOME is not set")))
        if h == "runtime":
            return importlib.machinery.ModuleSpec(name, Raise(RuntimeError("incompatible PyTorch")))
        f = self.so
        if h in ("truncated", "garbage"):
            f = os.path.join(self.scratch, f"_C-{h}-{os.getpid()}.so")
            with open(self.so, "rb") as i, open(f, "wb") as o:
                o.write(i.read(40) if h == "truncated" else b"not an object file\n" * 300)
        elif h == "noinit":
            f = os.path.join(os.path.dirname(torch.__file__), "lib", "libc10.so")
        L = (Late if h == "late" else importlib.machinery.ExtensionFileLoader)(name, f)
        return importlib.util.spec_from_file_location(name, f, loader=L)


class Absent(importlib.abc.MetaPathFinder):
    def __init__(self, *names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def module(name, **k):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(k)
    sys.modules[name] = m
    return m


def degrade(conf, so, scratch):
    sys.meta_path.insert(0, Finder(conf["ext"], so, scratch))
    h = conf["hel"]

    def kernel(*a, **k):
        if h == "runtime":
            raise RuntimeError("0 active drivers")
        return (lambda f: f)

    if h == "absent":
        sys.meta_path.insert(0, Absent("helion"))
    elif h != "real":
        m = module("helion", **({} if h == "attr" else {"kernel": kernel}))
        if h == "late":
            sys.meta_path.insert(0, Absent("helion"))
        else:
            m.language = module("helion.language")
    p = conf["par"]
    if p == "absent":
        sys.meta_path.insert(0, Absent("pararnn"))
    else:
        module("pararnn")
        module("pararnn.parallel_reduction")
        if p == "stub":
            module("pararnn.parallel_reduction.parallel_reduction")
        else:
            class F(importlib.abc.MetaPathFinder):
                def find_spec(self, name, path=None, target=None):
                    if name == "pararnn.parallel_reduction.parallel_reduction":
                        return importlib.machinery.ModuleSpec(name, Raise(OSError("CUDA_HOME is not set")))
            sys.meta_path.insert(0, F())


def boot(conf, so, scratch):
    degrade(conf, so, scratch)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        import philtorch, philtorch.lti, philtorch.lpv, philtorch.lti.interp, philtorch.mat, philtorch.poly  # noqa
    return {"warnings": [str(x.message)[:80] for x in w]}


def npy(t):
    if t is None:
        return None
    t = t.detach().resolve_conj().resolve_neg()
    return t.contiguous().numpy()


def evaluate(req):
    """values and gradients of one call, or one block of a stream"""
    if req["what"] == "call":
        c = calls.make(req["call"])
        a = c.args()
        diff = req["grad"] and c.name != "mat.vandermonde"
        if diff:
            a = {k: t.detach().requires_grad_(True) if t.is_floating_point() or t.is_complex() else t for k, t in a.items()}
        r = c.run(a)
        g = {}
        o = [t for t in r if t.requires_grad]
        if diff and o:
            gen = torch.Generator().manual_seed(req["seed"])
            cts = [torch.randn(t.shape, generator=gen, dtype=t.dtype) for t in o]
            gs = torch.autograd.grad(o, list(a.values()), cts, allow_unused=True)
            g = {k: npy(torch.zeros_like(a[k]) if t is None else t) for k, t in zip(a, gs)}
        return {"v": [npy(t) for t in r], "g": g, "rg": [t.requires_grad for t in r]}
    spec = fam.make(req["fam"])
    zi = torch.from_numpy(req["zi"]) if req["zi"] is not None else None
    y, z = spec.step(None, req["t"], req["n"], zi, req["cfg"])
    return {"v": [npy(y), npy(z)], "g": {}, "rg": []}


def guarded(f, *a):
    try:
        return f(*a)
    except BaseException as e:
        return {"exc": f"{type(e).__name__}: {str(e)[:200]}", "tb": traceback.format_exc()[-600:]}


def send(fd, o):
    b = pickle.dumps(o)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    def rd(n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b
    h = rd(8)
    if h is None:
        return None
    b = rd(struct.unpack("<Q", h)[0])
    return None if b is None else pickle.loads(b)


def fork(main, *a):
    """child running main(r, w, ...); -> (pid, r, w) for the parent"""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        for fd in map(int, os.listdir("/proc/self/fd")):
            if fd not in (1, 2, r1, w2):
                try:
                    os.close(fd)
                except OSError:
                    pass
        try:
            main(r1, w2, *a)
        finally:
            os._exit(0)
    os.close(r1), os.close(w2)
    return pid, r2, w1


def replica(r, w, conf, so, scratch):
    send(w, guarded(boot, conf, so, scratch))
    while True:
        q = recv(r)
        if q is None:
            return
        send(w, guarded(evaluate, q))


def zygote(r, w, so, scratch):
    """has torch but not philtorch in memory; forks replicas and relays to them"""
    import sympy, torchlpc       # required dependencies: loaded once for all replicas  # noqa
    kids = {}
    while True:
        m = recv(r)
        if m is None:
            for _, kr, kw in kids.values():
                os.close(kw)
            return
        key, conf, q = m
        if q is None:      # (re)start; at most a dozen replicas run at a time
            old = [k for k in kids if k == key] or (list(kids)[:1] if len(kids) >= 12 else [])
            for k in old:
                pid, kr, kw = kids.pop(k)
                os.kill(pid, 9)
                os.close(kw), os.close(kr)
                os.waitpid(pid, 0)
            kids[key] = fork(replica, conf, so, scratch)
        else:
            send(kids[key][2], q)
        a = recv(kids[key][1])
        if a is None:
            pid, kr, kw = kids.pop(key)
            st = os.waitpid(pid, 0)[1]
            os.close(kw), os.close(kr)
            a = {"exc": f"the process died (wait status {st})", "dead": True}
        send(w, a)


# ------------------------------------------------------------------- property
class P(core.Prop):
    id = "C07"
    quick, thorough = 9000, 80000
    measure = "distinct (function, argument-shape form, way of loading) triples"
    time_unit = "calls"
    rule = ("Each run asks one or more replica processes, whose compiled extension, Helion kernels and PararNN are absent, unreadable, without "
            "entry point, or fail while loading with various errors, for the values, final states and gradients of a public call, or routes a stream "
            "block by block to replicas that are restarted in between; every answer is compared with a fully loaded process. Non-trivial: at least one "
            "degraded replica answered.")
    real = ["philtorch Python code, import code included, in real separate processes", "compiled kernels (instrumented build)", "torch, torchlpc",
            "CPython import system", "Helion package (one of the configurations)"]
    stubs = ["damaged extension files and failing loaders", "stub helion and pararnn packages", "request router"]
    assumptions = ["agreement within the rounding tolerance of the function (1e-10 to 1e-8 double, 5e-5 single; gradients 200 times that) is taken as equality"]
    rt_alloc = False

    def preboot(self, so):
        torch.set_num_threads(1)
        torch.linalg.solve(torch.eye(2, dtype=torch.float64), torch.ones(2, dtype=torch.float64))
        scratch = os.path.join(core.VERIF, ".cache", f"replicas-{os.getpid()}")
        os.makedirs(scratch, exist_ok=True)
        self.scratch = scratch
        self.z = fork(zygote, so, scratch)
        self.up = {}

    def teardown(self):
        import shutil
        os.close(self.z[2])
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ------------------------------------------------------------- generation
    def conf(self, i, r):
        e = r.pick(EXT, [1, 3, 1, 1, 1, 2, 1, 1])
        if i % 64 == 0:
            return {"ext": r.pick(["ok", "absent"]), "hel": "real", "par": "absent"}
        h = r.pick(HEL[:5], [3, 3, 1, 1, 1])
        return {"ext": e, "hel": h, "par": r.pick(PAR, [3, 2, 1])}

    def gen(self, i, r, tier):
        # few distinct replicas per worker: one pool shared by the runs of a block of 800
        n = 1 + (i // 8) % 2
        rr = [fam.R(__import__("random").Random(f"{os.environ.get('VERIF_SEED', '1')}:{(i // 800)}:{r.rint(0, 4)}")) for _ in range(n)]
        confs = [self.conf(i if k == 0 else 1, q) for k, q in enumerate(rr)]
        if r.p(0.3):
            p = {"mode": "stream"}
            for _ in range(30):
                p["fam"] = fam.gen_params(r, list(fam.FAMS)[r.rint(0, len(fam.FAMS) - 1)], nmax=40)
                s = fam.make(p["fam"])
                ops, t = [], 0
                while t < s.N:
                    m = min(s.N - t, r.pick([1, 2, r.rint(1, 8), r.rint(1, 40)]))
                    if not s.ok(s.B, m):
                        break
                    c = s.cfgs(r)
                    c.pop("raw", None)
                    ops.append([m, r.rint(0, n - 1), int(r.p(0.02)), c])
                    t += m
                if t >= s.N:
                    break
            p["ops"] = ops
        else:
            big = r.p(0.15)
            c = calls.gen(r, i=i if i % 2 else None, kinds=["fam"] if i % 2 else None, nmax=90 if big else 24)
            if c["call"] == "fam":
                c["cfg"].pop("raw", None)
            p = {"mode": "call", "call": c, "grad": int(r.p(0.75))}
        p.update(confs=confs, seed=r.rint(0, 2 ** 31 - 1), restart=int(r.p(0.01)))
        return p

    # ----------------------------------------------------------------- running
    def ask(self, conf, q):
        key = f"{conf['ext']}/{conf['hel']}/{conf['par']}"
        send(self.z[2], (key, conf, q))
        a = recv(self.z[1])
        if a is None:
            raise RuntimeError("zygote died")
        return a

    def replica(self, conf, ctx, restart):
        key = f"{conf['ext']}/{conf['hel']}/{conf['par']}"
        if restart or key not in self.up:
            if key not in self.up and len(self.up) >= 12:
                self.up.pop(next(iter(self.up)))
            self.up.pop(key, None)
            a = self.ask(conf, None)
            if "exc" in a:
                ctx.fail("import", f"with extension {conf['ext']}, helion {conf['hel']}, pararnn {conf['par']}: {a['exc']}", key=None)
            self.up[key] = a["warnings"]
        w = self.up[key]
        ext, hel = conf["ext"] != "ok", conf["hel"] not in ("stub", "real")
        if (ext or hel) and not w:
            ctx.fail("no-warning", f"with extension {conf['ext']}, helion {conf['hel']}: imported without a warning")
        return key

    def compare(self, want, got, tol, gtol, what, ctx):
        if "exc" in got:
            if got.get("dead"):
                self.up.pop(what[0], None)
            ctx.fail("raised", f"{what[1]}: {got['exc']}")
        for part, t in (("value", tol), ("gradient", gtol)):
            a, b = want["v" if part == "value" else "g"], got["v" if part == "value" else "g"]
            a, b = (dict(enumerate(x)) if isinstance(x, list) else x for x in (a, b))
            if set(a) != set(b):
                ctx.fail("different", f"{what[1]}: {part}s {sorted(map(str, b))} instead of {sorted(map(str, a))}")
            for k in a:
                x, y = a[k], b[k]
                if (x is None) != (y is None):
                    ctx.fail("different", f"{what[1]}: {part} {k} missing")
                if x is None:
                    continue
                x, y = torch.from_numpy(x), torch.from_numpy(y)
                e = fam.err(y, x)
                if x.dtype != y.dtype or not e <= t:
                    ctx.fail("different", f"{what[1]}: {part} {k} {tuple(y.shape)} {y.dtype} differs by {e:.3g} from {tuple(x.shape)} {x.dtype}")
        if want["rg"] != got["rg"]:
            ctx.fail("different", f"{what[1]}: results require gradients {got['rg']} instead of {want['rg']}")

    def run(self, plan, ctx):
        if plan["mode"] == "call":
            q = {"what": "call", "call": plan["call"], "grad": plan["grad"], "seed": plan["seed"]}
            c = calls.make(plan["call"])
            want = guarded(evaluate, q)
            if "exc" in want:
                ctx.fail("raised", f"{c.desc()} fully loaded: {want['exc']}")
            for conf in plan["confs"]:
                key = self.replica(conf, ctx, plan["restart"])
                got = self.ask(conf, q)
                ctx.vtime += 1
                self.compare(want, got, c.tol() * 3, c.tol() * 600, (key, f"{c.desc()} [extension {conf['ext']}, helion {conf['hel']}, pararnn {conf['par']}]"), ctx)
                for x in ("ext", "hel", "par"):
                    ctx.count(f"{x}_{conf[x]}")
                ctx.state(c.name, str(sorted(c.base)), key)
            if want["v"]:
                ctx.logt(*[None if x is None else torch.from_numpy(x) for x in want["v"]])
        else:
            s = fam.make(plan["fam"])
            t, z, zf = 0, s.zi_rows(), npy(s.zi_rows())
            zr = zf
            for n, k, restart, cfg in plan["ops"]:
                n = min(n, s.N - t)
                if n < 1:
                    break
                conf = plan["confs"][k % len(plan["confs"])]
                key = self.replica(conf, ctx, restart)
                if restart:
                    ctx.count("replica_restarts")
                q = {"what": "block", "fam": plan["fam"], "t": t, "n": n, "cfg": cfg}
                want = guarded(evaluate, dict(q, zi=zf))
                what = f"{s.fam} {plan['fam'].get('form', '')} {cfg}, block of {n} at {t}"
                if "exc" in want:
                    ctx.fail("raised", f"{what} fully loaded: {want['exc']}")
                got = self.ask(conf, dict(q, zi=zr))
                tol = s.tol(cfg) * 10
                self.compare(want, got, tol, tol, (key, f"{what} [extension {conf['ext']}, helion {conf['hel']}, pararnn {conf['par']}]"), ctx)
                zf, zr = want["v"][1], got["v"][1]
                t += n
                ctx.vtime += 1
                ctx.count("routed_blocks")
                ctx.state(s.fam, plan["fam"].get("form"), key, min(n, 4))
            ctx.log(t)
        ctx.nontrivial = True


PROP = P()
