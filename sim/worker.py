"""Worker process: executes plans and reports results, one JSON line each."""
import json, os, random, sys, traceback


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    base = os.environ.get("VERIF_SEED", "1")
    from . import core, env, fam
    prop = core.load_prop(pid)

    def send(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()

    try:
        so = os.environ.get("SIM_EXT")
        if hasattr(prop, "preboot"):
            prop.preboot(so)
        env.boot(so, helion=prop.helion, alloc=prop.rt_alloc)
        prop.setup()
        from . import cold
        cold.snapshot()
    except BaseException as e:
        send(t="boot", err="".join(traceback.format_exception(e))[-3000:])
        return
    send(t="ready")

    def one(plan, i):
        try:
            r = core.execute(prop, plan)
        except BaseException as e:
            send(t="err", i=i, err="".join(traceback.format_exception(e))[-3000:], plan=plan)
            return
        if r["v"] is not None or 0 <= i < 3:
            r["plan"] = plan
        send(t="res", i=i, **r)

    for line in sys.stdin:
        m = json.loads(line)
        if m["t"] == "range":
            for i in range(m["start"], m["end"], m["step"]):
                send(t="start", i=i)
                r = fam.R(random.Random(core.seed_of(base, pid, i)))
                try:
                    plan = prop.gen(i, r, tier)
                    plan["i"] = i
                    plan = json.loads(json.dumps(plan))
                except Exception as e:
                    send(t="err", i=i, err="gen: " + "".join(traceback.format_exception(e))[-3000:])
                    continue
                one(plan, i)
            send(t="done")
        elif m["t"] == "plan":
            one(m["plan"], m.get("i", -1))
        elif m["t"] == "gen":
            r = fam.R(random.Random(core.seed_of(base, pid, m["i"])))
            plan = prop.gen(m["i"], r, tier)
            plan["i"] = m["i"]
            send(t="plan", plan=plan)
        elif m["t"] == "known":
            try:
                send(t="known", known=[list(k) for k in prop.known(core.Ctx)])
            except BaseException as e:
                send(t="err", i=-1, err="known: " + "".join(traceback.format_exception(e))[-3000:])
    try:
        if hasattr(prop, "teardown"):
            prop.teardown()
    except Exception:
        pass
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
