"""Caller threads, one running at a time, preempted by the simulator at lines and
bytecode instructions of philtorch's Python code and at memory accesses of its
kernels."""
import ctypes, json, random, sys, threading, time
import torch
from .. import cold, core, env, fam, calls

CB = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_int, ctypes.c_int64)


class Sched:
    """baton passing: exactly one caller thread runs"""

    def __init__(self, n, points, order, ops):
        self.n, self.ops = n, ops
        self.points = {}                  # (tid, kind, local index) -> next thread
        for t, k, i, nxt in points:
            self.points[(t, k, i)] = nxt
        self.ktargets = [sorted(i for (t, k, i) in self.points if t == me and k == "k") for me in range(n)]
        self.order = order
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.holder = -1
        self.live = set(range(n))
        self.pc = [0] * n
        self.switches = 0
        self.trace = []
        self.done = threading.Event()
        self.tick = 0
        self.mu = threading.Lock()

    def give(self, t):
        self.holder = t
        self.sem[t].release()

    def switch(self, me, nxt, kind, i):
        """called by the running thread `me`"""
        if self.holder != me:             # overtaken while blocked: rejoin
            self.sem[me].acquire()
        if nxt == me or nxt not in self.live:
            c = sorted(x for x in self.live if x != me)
            if not c:
                return
            nxt = c[nxt % len(c)]
        self.switches += 1
        self.trace.append((me, kind, i, nxt))
        self.give(nxt)
        self.sem[me].acquire()

    def python_event(self, me):
        i = self.pc[me]
        self.pc[me] = i + 1
        self.tick += 1
        nxt = self.points.get((me, "p", i))
        if nxt is not None:
            self.switch(me, nxt, "p", i)

    def kernel_event(self, me, count):
        self.tick += 1
        nxt = self.points.get((me, "k", count))
        if nxt is not None:
            self.switch(me, nxt, "k", count)
        for x in self.ktargets[me]:
            if x > count:
                return x
        return -1

    def tracer(self, me):
        ops = self.ops

        def local(frame, event, arg):
            if event == ("opcode" if ops else "line"):
                self.python_event(me)
            return local

        def glob(frame, event, arg):
            if "/philtorch/" in frame.f_code.co_filename:
                if ops:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def finish(self, me):
        self.live.discard(me)
        if not self.live:
            self.done.set()
        elif self.holder == me:
            self.give(min(self.live, key=lambda x: self.order[x]))

    def run(self, bodies):
        L = env.RT.L

        @CB
        def cb(tid, count):
            return self.kernel_event(tid, count)

        def main(me):
            self.sem[me].acquire()
            L.sim_caller_register(me, self.ktargets[me][0] if self.ktargets[me] else -1)
            sys.settrace(self.tracer(me))
            try:
                bodies[me]()
            finally:
                sys.settrace(None)
                self.kc[me] = L.sim_caller_count()
                L.sim_caller_register(-1, -1)
                self.finish(me)

        self.kc = [0] * self.n
        L.sim_caller_mode(ctypes.cast(cb, ctypes.c_void_p))
        ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        try:
            for t in ths:
                t.start()
            self.give(self.order.index(min(self.order)))
            seen, stuck = -1, 0
            while not self.done.wait(1.0):
                # the holder waits for a lock another caller owns: let others run
                if self.tick == seen and self.live:
                    stuck += 1
                    if stuck > 60:
                        return False
                    others = sorted(x for x in self.live if x != self.holder)
                    if others:
                        self.give(others[stuck % len(others)])
                seen = self.tick
            for t in ths:
                t.join()
        finally:
            L.sim_caller_mode(None)
        return True


class Job:
    def __init__(self, p, shared):
        self.mode = p["mode"]
        self.c, self.args = shared
        self.seed = p["seed"]
        self.res = None
        self.exc = None
        self.graph = None
        if self.c.name == "mat.vandermonde":
            self.mode = "fwd"
        if self.mode == "bwd":
            self.graph = self.forward()

    def cots(self, o):
        g = torch.Generator().manual_seed(self.seed)
        return [torch.randn(t.shape, generator=g, dtype=t.dtype) for t in o]

    def forward(self):
        if self.mode == "nograd":
            with torch.no_grad():
                return self.c.run(self.args)
        return self.c.run(self.args)

    def grad(self, r):
        o = [t for t in r if t.requires_grad]
        ins = [t for t in self.args.values() if t.requires_grad]
        if not o or not ins:
            return []
        return list(torch.autograd.grad(o, ins, self.cots(o), retain_graph=True, allow_unused=True))

    def call(self):
        if self.mode == "bwd":
            return self.grad(self.graph)
        r = self.forward()
        if self.mode == "fwdbwd":
            return list(r) + self.grad(r)
        return list(r)

    def body(self):
        try:
            self.res = [None if t is None else t.detach() for t in self.call()]
        except BaseException as e:
            self.exc = e.with_traceback(None)
            self.exc.__context__ = None


def restart(plan):
    cold.reset()
    if plan["noext"]:
        fam.noext().__enter__()


class P(core.Prop):
    id = "C03"
    quick, thorough = 14000, 120000
    measure = "distinct interleavings (sequence of preemptions with their code positions)"
    time_unit = "calls"
    rule = ("Each run lets 2-4 caller threads, each with 1-2 forward calls, gradient computations or both, execute one at a time; control is taken away "
            "at lines, bytecode instructions or kernel memory accesses drawn from those each thread really has. Arguments and coefficient tensors are "
            "shared between some of the threads. Every result is compared with the same call running alone. Non-trivial: at least one preemption happened.")
    real = ["philtorch Python code, autograd included, on real threads", "compiled kernels (instrumented build)", "torch, torchlpc, CPython"]
    stubs = ["thread scheduler (baton)", "CPU allocator (simrt)", "OpenMP runtime (simrt, one worker per caller)"]
    assumptions = ["code of torch and torchlpc is not preempted inside one call from philtorch; the kernels and philtorch's Python code are"]

    def gen(self, i, r, tier):
        n = r.pick([2, 3, 4], [6, 3, 1])
        nmax = 12
        fams = list(fam.FAMS)
        cs = [calls.gen(r, i=i // 2, kinds=["fam"], nmax=nmax) if i % 2 else calls.gen(r, nmax=nmax)]
        for _ in range(n - 1):
            k = r.pick(["twin", "seed", "other", "size", "cast"], [3, 4, 2, 1, 2])
            if k == "seed":
                q = json.loads(json.dumps(cs[0]))
                q["seed"] = r.rint(0, 2 ** 31 - 1)
                if "fp" in q:
                    q["fp"]["seed"] = r.rint(0, 2 ** 31 - 1)
                cs.append(q)
            elif k == "cast":         # the same in another precision
                q = json.loads(json.dumps(cs[0]))
                sw = {"f64": "f32", "f32": "f64", "c128": "c64", "c64": "c128"}
                if q["call"] not in ("diaglong", "mat"):
                    q["dtype"] = sw[q["dtype"]]
                    if "fp" in q:
                        q["fp"]["dtype"] = sw[q["fp"]["dtype"]]
                cs.append(q)
            elif k == "other":
                cs.append(calls.gen(r, nmax=nmax))
            elif k == "size" and "fp" in cs[0]:
                cs.append(calls.gen(r, i=fams.index(cs[0]["fp"]["fam"]), kinds=["fam"], nmax=nmax))
        jobs = []
        for t in range(n):
            jobs.append([{"c": r.rint(0, len(cs) - 1) if t else 0, "mode": r.pick(["fwd", "fwdbwd", "bwd", "nograd"], [4, 4, 2, 1]),
                          "seed": r.rint(0, 2 ** 31 - 1)} for _ in range(r.pick([1, 2], [3, 1]))])
        if r.p(0.3):
            for j in jobs[1:]:
                j[0] = dict(jobs[0][0])
        for q in cs:            # the flag is process-wide: for all callers of a run or for none
            q.pop("noext", None)
            q.get("cfg", {}).pop("noext", None)
        return {"calls": cs, "threads": jobs, "noext": int(r.p(0.12)), "depth": r.pick([1, 2, 3, 6, 20, 100], [3, 3, 3, 2, 2, 1]), "kp": r.pick([0.0, 0.4, 0.9], [2, 2, 1]),
                "opcode": int(r.p(0.3)), "cold": int(r.p(0.7)), "seed": r.rint(0, 2 ** 31 - 1), "track": r.pick([0, 1, 2], [3, 5, 1.5]),
                "sweep": 48 if tier == "quick" else 400, "dosweep": int(r.p(0.05)), "fill": r.pick([1, 2, 5])}

    def setup(self):
        sys.setswitchinterval(1000)

    def run(self, plan, ctx):
        if plan["noext"]:
            with fam.noext():
                return self.run1(plan, ctx)
        return self.run1(plan, ctx)

    def run1(self, plan, ctx):
        env.RT.fill(plan["fill"], 11)
        env.RT.omp(1)
        cs = [calls.make(p) for p in plan["calls"]]
        shared = []
        for c in cs:
            a = c.args()
            if plan["track"] and c.diff:
                a = {k: t.detach().requires_grad_(True) if (t.is_floating_point() or t.is_complex()) and (plan["track"] == 1 or k in ("x", "zi")) else t
                     for k, t in a.items()}
            shared.append((c, a))
        mk = lambda p: Job(p, shared[p["c"] % len(shared)])
        threads = [[ctx.lib("setting up " + shared[p["c"] % len(shared)][0].desc(), mk, p) for p in t] for t in plan["threads"] if t]
        if not threads:
            return
        n = len(threads)
        held = {(i, k): calls.storage_bits(t) for i, (c, a) in enumerate(shared) for k, t in a.items()}

        def solo():
            totals = []
            for js in threads:
                s = Sched(1, [], [0], plan["opcode"])
                if plan["cold"]:
                    restart(plan)
                s.run([lambda: [j.body() for j in js]])
                totals.append((s.pc[0], s.kc[0]))
            return totals

        solo()          # CPython emits opcode events from the second traced run on
        totals = solo()
        want = [[j.res for j in js] for js in threads]
        for js in threads:
            for j in js:
                if j.exc is not None:
                    ctx.fail("raised", f"{j.c.desc()} {j.mode} alone: {type(j.exc).__name__}: {str(j.exc)[:200]}")
                ctx.logt(*j.res)
                j.res = None
        pts = plan.get("points")
        if plan.get("dosweep") and pts is None and n > 1:
            # one preemption, at every place in turn; another caller runs to its end meanwhile
            t = random.Random(plan["seed"]).randrange(n)
            p, k = totals[t]
            step = max(1, -(-p // plan["sweep"]))
            for q in range(plan["seed"] % step, p, step):
                self.overlap(plan, ctx, threads, shared, cs, held, want, [[t, "p", q, (t + 1 + q % (n - 1)) % n]], [0 if x == t else 1 + x for x in range(n)])
            ctx.count("swept_callers")
            return
        if pts is None:
            r = random.Random(plan["seed"])
            pts = []
            for _ in range(plan["depth"]):
                t = r.randrange(n)
                p, k = totals[t]
                if k and r.random() < plan["kp"]:
                    pts.append([t, "k", 1 + r.randrange(k), r.randrange(n)])
                elif p:
                    pts.append([t, "p", r.randrange(p), r.randrange(n)])
        order = plan.get("order")
        if order is None or sorted(order) != list(range(n)):
            order = list(range(n))
            random.Random(plan["seed"] ^ 7).shuffle(order)
        self.overlap(plan, ctx, threads, shared, cs, held, want, pts, order)

    def overlap(self, plan, ctx, threads, shared, cs, held, want, pts, order):
        n = len(threads)
        ctx.alt = dict(plan, points=pts, order=order, dosweep=0)
        amb = calls.ambient()
        if plan["cold"]:
            restart(plan)           # every first-time path is taken by callers that overlap
        s = Sched(n, pts, order, plan["opcode"])
        ok = s.run([lambda js=js: [j.body() for j in js] for js in threads])
        if not ok:
            ctx.fail("deadlock", f"{n} callers ({', '.join(j.c.name for js in threads for j in js)}) stopped making progress; preemptions {s.trace[:8]}")
        for t, js in enumerate(threads):
            for i, j in enumerate(js):
                what = f"thread {t} of {n}: {j.c.desc()} {j.mode}, preemptions {s.trace[:6]}"
                if j.exc is not None:
                    ctx.fail("raised", f"{what}: {type(j.exc).__name__}: {str(j.exc)[:200]}")
                w = want[t][i]
                tol = j.c.tol() * (3 if j.mode in ("fwd", "nograd") else 100)
                if len(w) != len(j.res):
                    ctx.fail("different", f"{what}: {len(j.res)} results instead of {len(w)}")
                for k, (x, y) in enumerate(zip(j.res, w)):
                    if (x is None) != (y is None):
                        ctx.fail("different", f"{what}: result {k} missing")
                    if x is not None and not (x.dtype == y.dtype and fam.err(x, y) <= tol):
                        ctx.fail("different", f"{what}: result {k} differs by {fam.err(x, y):.3g} from the call running alone")
                ctx.count("calls_" + j.mode)
                ctx.vtime += 1
        d = calls.ambient_diff(amb, calls.ambient())
        if d:
            ctx.fail("setting-changed", f"{n} overlapping callers ({', '.join(j.c.name for js in threads for j in js)}) left {d} changed for later calls; "
                     f"preemptions {s.trace[:6]}")
        for t, js in enumerate(threads):        # nothing is left behind that a later call would trip over
            for i, j in enumerate(js):
                j.body()
                what = f"{j.c.desc()} {j.mode} after {n} callers overlapped, preemptions {s.trace[:6]}"
                if j.exc is not None:
                    ctx.fail("raised", f"{what}: {type(j.exc).__name__}: {str(j.exc)[:200]}")
                tol = j.c.tol() * (3 if j.mode in ("fwd", "nograd") else 100)
                for k, (x, y) in enumerate(zip(j.res, want[t][i])):
                    if (x is None) != (y is None) or x is not None and not (x.dtype == y.dtype and fam.err(x, y) <= tol):
                        ctx.fail("different", f"{what}: result {k} differs from the call running alone")
        for (i, k), b in held.items():
            if calls.storage_bits(shared[i][1][k]) != b:
                ctx.fail("argument-changed", f"argument {k} of {cs[i].desc()} changed while {n} callers ran")
        ctx.log(s.trace)
        ctx.count("preemptions", s.switches)
        ctx.count("preemptions_in_kernels", sum(1 for x in s.trace if x[1] == "k"))
        ctx.count("callers", n)
        ctx.state([c.name for c in cs], s.trace)
        ctx.nontrivial = ctx.nontrivial or s.switches > n - 1 or bool(s.trace)


PROP = P()
