"""Driver: python -m sim.check <PROP> [--replay FILE] [--runs N] [--from I]"""
import argparse, json, os, queue, re, subprocess, sys, threading, time
from . import build, core

PY = "/opt/venv/bin/python"
VERIF = core.VERIF
REPO = os.environ.get("VERIF_REPO", "/repo")


class Worker:
    """one worker process, line protocol, with a reader thread"""

    def __init__(self, pid, so, hashseed="0", extra=None):
        env = dict(os.environ, SIM_EXT=so or "", PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONPATH=VERIF, **(extra or {}))
        self.errf = os.path.join(VERIF, ".cache", f"worker-{os.getpid()}-{id(self)}.log")
        self.err = open(self.errf, "w")
        self.p = subprocess.Popen([PY, "-m", "sim.worker", pid], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True, bufsize=1)
        self.q = queue.Queue()
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                self.q.put({"t": "noise", "line": line})
        self.q.put({"t": "eof"})

    def send(self, **k):
        try:
            self.p.stdin.write(json.dumps(k) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def get(self, timeout):
        try:
            return self.q.get(timeout=timeout)
        except queue.Empty:
            return {"t": "timeout"}

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.close()
        try:
            self.tail = open(self.errf).read()[-1500:]
            os.unlink(self.errf)
        except OSError:
            self.tail = ""

    def kill(self):
        self.p.kill()
        self.close()


class Boot(Exception):
    pass


def start(pid, so, **k):
    w = Worker(pid, so, **k)
    m = w.get(240)
    while m["t"] == "noise":
        m = w.get(240)
    if m["t"] != "ready":
        w.kill()
        raise Boot(f"worker did not start: {m} {w.tail}")
    return w


def ask_plan(w, plan, timeout):
    """-> result dict, or {'v':{'kind':'crash'|'hang'}} when the process dies"""
    w.send(t="plan", plan=plan, i=plan.get("i", -1))
    while True:
        m = w.get(timeout)
        if m["t"] in ("res", "err"):
            return m
        if m["t"] == "eof":
            w.close()
            rc = w.p.returncode
            return {"t": "res", "dead": True, "v": {"kind": "crash", "detail": f"the process died (status {rc}) {w.tail[-300:]}", "key": None}, "hash": f"crash{rc}"}
        if m["t"] == "timeout":
            w.kill()
            return {"t": "res", "dead": True, "v": {"kind": "hang", "detail": f"no progress within {timeout}s", "key": None}, "hash": "hang"}


class Fresh:
    """a serving worker restarted on demand"""

    def __init__(self, pid, so, timeout):
        self.pid, self.so, self.timeout, self.w = pid, so, timeout, None

    def run(self, plan, fresh=False, history=()):
        if (fresh or history) and self.w is not None:
            self.w.close()
            self.w = None
        if self.w is None:
            self.w = start(self.pid, self.so)
        for h in history:
            r = ask_plan(self.w, h, self.timeout)
            if r.get("dead"):
                self.w = None
                return r
        r = ask_plan(self.w, plan, self.timeout)
        if r.get("dead"):
            self.w = None
        return r

    def close(self):
        if self.w is not None:
            self.w.close()
            self.w = None


def exc(v):
    """type and opening words of the exception a violation quotes"""
    m = re.search(r"(\w+(?:Error|Exception|Interrupt)): (.{0,24})", v.get("detail") or "")
    return m.groups() if m and v["kind"] in ("raised", "interrupt") else None


def same(r, v):
    return r.get("t") == "res" and r.get("v") is not None and r["v"]["kind"] == v["kind"] and r["v"].get("key") == v.get("key") \
        and exc(r["v"]) == exc(v)


def shrink(prop, srv, plan, v, history, budget):
    best, tried = shrink1(prop, srv, plan, v, history, budget * 0.6)
    r = srv.run(best, history=history)
    if same(r, v) and r.get("alt") and same(srv.run(r["alt"], history=history), v):
        best, t2 = shrink1(prop, srv, r["alt"], v, history, budget * 0.4)
        tried += t2 + 1
    return best, tried


def shrink1(prop, srv, plan, v, history, budget):
    t0, tried, best = time.time(), 0, plan
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in prop.shrinks(best):
            if time.time() - t0 > budget:
                break
            tried += 1
            try:
                r = srv.run(cand, history=history)
            except Boot:
                break
            if same(r, v):
                best, improved = cand, True
                break
    return best, tried


def known_findings(pid):
    out = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


def write_replay(pid, plan, v, h, history, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{pid}-{plan.get('i', 0)}-{h[:8]}.json")
    with open(f, "w") as o:
        json.dump({"property": pid, "plan": plan, "violation": v, "hash": h, "history": list(history), **extra}, o, indent=1)
    return f


def replay(pid, path, so, prop):
    d = json.load(open(path))
    srv = Fresh(pid, so, prop.timeout)
    r = srv.run(d["plan"], fresh=True, history=d.get("history", ()))
    srv.close()
    if r.get("t") == "err":
        print("harness error:\n" + r["err"])
        return 2
    print(json.dumps({"violation": r.get("v"), "hash": r.get("hash"), "recorded_hash": d["hash"], "identical": r.get("hash") == d["hash"]}))
    if r.get("v"):
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


NOT_REPRODUCED = 99


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    pid = a.prop
    t_all = time.time()
    tier = os.environ.setdefault("VERIF_TIER", "quick")
    base = os.environ.setdefault("VERIF_SEED", "1")
    try:
        so = build.build()
    except build.BuildError as e:
        print("harness error: build:", e)
        return 2
    t_build = time.time() - t_all
    prop = core.load_prop(pid)
    if a.replay:
        return replay(pid, a.replay, so, prop)
    n = a.runs or (prop.thorough if tier == "thorough" else prop.quick)
    deadline = t_all + float(os.environ.get("SIM_DEADLINE", "540" if tier == "quick" else "780"))
    known = known_findings(pid)
    t0 = time.time()

    jobs = min(a.jobs, n)
    lock = threading.Lock()
    res = {"runs": 0, "counts": {}, "states": set(), "vtime": 0.0, "events": 0, "hashes": {}, "viol": [], "errs": [], "nt": set(), "samples": {}}
    stop = threading.Event()

    progress = {wi: a.first + wi for wi in range(jobs)}

    def shard(wi):
        nxt, hist = progress[wi], []
        end = a.first + n
        tries = 0
        while nxt < end and not stop.is_set():
            try:
                w = start(pid, so)
            except Boot as e:
                with lock:
                    res["errs"].append(str(e))
                return
            w.send(t="range", start=nxt, end=end, step=jobs)
            hist, cur = [], None
            lastrx = time.time()
            while True:
                m = w.get(1.0)
                if m["t"] == "timeout":
                    if stop.is_set() or time.time() > deadline:
                        w.kill()
                        return
                    if cur is not None and time.time() - lastrx > prop.timeout:
                        w.kill()
                        with lock:
                            res["viol"].append((cur, None, {"kind": "hang", "detail": f"run {cur} made no progress for {prop.timeout}s", "key": None}, list(hist), "hang"))
                        if not a.keep_going:
                            stop.set()
                        progress[wi] = nxt = cur + jobs
                        break
                    continue
                lastrx = time.time()
                if m["t"] == "start":
                    cur = m["i"]
                elif m["t"] == "res":
                    with lock:
                        res["runs"] += 1
                        for k, x in m["counts"].items():
                            res["counts"][k] = res["counts"].get(k, 0) + x
                        res["states"].update(m["states"])
                        res["vtime"] += m["vtime"]
                        res["events"] += m["nlog"]
                        res["hashes"][m["i"]] = m["hash"]
                        if m["nt"]:
                            res["nt"].add(m["hash"])
                        if "plan" in m and len(res["samples"]) < 3:
                            res["samples"][m["i"]] = m["plan"]
                        if m["v"] is not None and not (m["v"].get("key") in known):
                            res["viol"].append((m["i"], m["plan"], m["v"], list(hist), m["hash"]))
                            if not a.keep_going:
                                stop.set()
                    hist.append(m["i"])
                    progress[wi] = nxt = m["i"] + jobs
                elif m["t"] == "err":
                    with lock:
                        res["errs"].append(f"run {m['i']}: {m['err']}")
                    stop.set()
                elif m["t"] == "eof":
                    w.close()
                    with lock:
                        res["viol"].append((cur, None, {"kind": "crash", "detail": f"process died in run {cur} (status {w.p.returncode}) {w.tail[-400:]}", "key": None}, list(hist), "crash"))
                    if not a.keep_going:
                        stop.set()
                    progress[wi] = nxt = (cur if cur is not None else nxt) + jobs
                    break
                elif m["t"] == "done":
                    w.close()
                    return
                if stop.is_set() or time.time() > deadline:
                    w.kill()
                    return

    unreproduced, code, vinfo = 0, 0, None
    while True:
        stop.clear()
        ths = [threading.Thread(target=shard, args=(w,)) for w in range(jobs)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if not res["viol"]:
            break
        res["viol"].sort(key=lambda x: x[0] if x[0] is not None else -1)
        code, vinfo = report(a, pid, prop, so, base, res)
        if code != NOT_REPRODUCED:
            break
        # something outside the simulator's control: not evidence of anything, search on
        unreproduced += len(res["viol"])
        code = 0
        if a.keep_going or unreproduced > 3 or time.time() > deadline:
            if unreproduced > 3:
                print("harness error: violations were seen but none reproduced")
                code = 2
            break
        res["viol"] = []
    wall = time.time() - t0

    if res["errs"] and not res["viol"]:
        print("harness error:\n" + res["errs"][0])
        return 2

    known_hit = {}
    if not res["viol"] and known:
        try:
            w = start(pid, so)
            w.send(t="known")
            m = w.get(prop.timeout)
            w.close()
            if m.get("t") != "known":
                print("harness error: known findings probe:", m)
                return 2
            known_hit = {k: (ok, txt) for k, ok, txt in m["known"]}
        except Boot as e:
            print("harness error:", e)
            return 2

    # determinism: some seeds again, in another process with other hash randomisation and order
    det = {"rerun": 0, "different": []}
    if not res["viol"] and not a.runs:
        ids = sorted(res["hashes"])[:: max(1, len(res["hashes"]) // (6 if tier == "quick" else 40))][: 6 if tier == "quick" else 40]
        try:
            w = start(pid, so, hashseed="12345")
            for i in reversed(ids):
                w.send(t="range", start=i, end=i + 1, step=1)
                while True:
                    m = w.get(prop.timeout)
                    if m["t"] == "res":
                        det["rerun"] += 1
                        if m["hash"] != res["hashes"][i]:
                            det["different"].append(i)
                    if m["t"] in ("done", "eof", "timeout", "err"):
                        break
            w.close()
        except Boot:
            pass
        if det["different"]:
            print("NOTE: seeds not bit-reproducible across processes:", det["different"])

    from . import evidence
    evidence.write(prop, tier, base, jobs, res, wall, t_build, det, known_hit, vinfo)
    for k, txt in known.items():
        hit = known_hit.get(k)
        if code == 0 and hit and hit[0]:
            print(f"KNOWN-FINDING: property={pid} {txt}")
        elif code == 0 and hit:
            print(f"NOTE: listed finding {k} no longer reproduces")
    print(f"{pid}: {res['runs']} simulated runs in {wall:.1f}s ({tier}), {len(res['states'])} {prop.measure}, faults/events: "
          + ", ".join(f"{k}={v}" for k, v in sorted(res["counts"].items())))
    return code


def report(a, pid, prop, so, base, res):
    srv = Fresh(pid, so, prop.timeout)
    try:
        for i, plan, v, hist, h in res["viol"][:3]:
            if plan is None:
                w = start(pid, so)
                w.send(t="gen", i=i)
                m = w.get(prop.timeout)
                w.close()
                if m.get("t") != "plan":
                    print("harness error: cannot regenerate plan", i, m)
                    continue
                plan = m["plan"]
            r = srv.run(plan, fresh=True)
            history = []
            if r.get("t") == "err":
                print("harness error:\n" + r["err"])
                return 2, None
            if not same(r, v):
                if r.get("v"):
                    v = r["v"]
                else:  # depends on what the process did before: replay with history
                    hp = []
                    w = start(pid, so)
                    for j in hist[-400:]:
                        w.send(t="gen", i=j)
                        m = w.get(prop.timeout)
                        hp.append(m["plan"])
                    w.close()
                    k = 1
                    ok = False
                    while True:
                        history = hp[-k:] if hp else []
                        r = srv.run(plan, fresh=True, history=history)
                        if same(r, v):
                            ok = True
                            break
                        if k >= len(hp):
                            break
                        k *= 4
                    if not ok:
                        print(f"NOTE: run {i} reported {v['kind']} ({v['detail'][:200]}) but does not reproduce")
                        continue
            v = r["v"]
            tried = 0
            if history:
                # minimise the history
                size = len(history)
                tb = time.time()
                while size >= 1 and time.time() - tb < 60:
                    for s in range(0, len(history), size):
                        hh = history[:s] + history[s + size:]
                        if same(srv.run(plan, fresh=True, history=hh), v):
                            history = hh
                            break
                    else:
                        size //= 2
            if not a.no_shrink:
                plan, tried = shrink(prop, srv, plan, v, history, 45 if v["kind"] != "hang" else 0)
            r1 = srv.run(plan, fresh=True, history=history)
            r2 = srv.run(plan, fresh=True, history=history)
            if not (same(r1, v) and same(r2, v)):
                print(f"NOTE: minimised run {i} does not reproduce in a fresh process")
                continue
            f = write_replay(pid, plan, r1["v"], r1["hash"], history, {
                "seed": core.seed_of(base, pid, i), "run": i, "shrink_attempts": tried,
                "identical_on_replay": r1["hash"] == r2["hash"], "repo": REPO})
            print(f"run {i}: {r1['v']['kind']}: {r1['v']['detail'][:600]}")
            print(f"minimised plan: {json.dumps(plan)[:1200]}")
            print(f"VIOLATION property={pid} replay={f}")
            return 1, {"run": i, **r1["v"], "replay": f}
    except Boot as e:
        print("harness error:", e)
        return 2, None
    finally:
        srv.close()
    return NOT_REPRODUCED, None


if __name__ == "__main__":
    sys.exit(main())
