"""evidence/<id>.json, from what this run measured"""
import json, os
from . import core


def write(prop, tier, base, jobs, res, wall, t_build, det, known_hit, vinfo):
    samples = [res["samples"][k] for k in sorted(res["samples"])][:2]
    samples = [s if len(json.dumps(s)) < 6000 else {"truncated": json.dumps(s)[:6000]} for s in samples]
    d = {
        "property": prop.id, "tier": tier, "seed": int(base) if str(base).isdigit() else 0,
        "level": prop.level, "wall_s": round(wall, 2), "violations": 1 if vinfo else 0,
        "coverage": {
            "evaluations": res["runs"],
            "distinct_nontrivial": len(res["nt"]),
            "rule": prop.rule + "  Distinct: by the hash of the complete event log of the run.",
            "samples": samples or [{"note": "no run completed"}],
            "seeds_per_hour": int(res["runs"] / max(wall, 1e-9) * 3600),
            "worker_processes": jobs,
            "build_s": round(t_build, 2),
            "events_logged": res["events"],
            "simulated_time": {"unit": prop.time_unit, "total": round(res["vtime"], 3)},
            "faults_and_events": dict(sorted(res["counts"].items())),
            "distinct_states": {"measure": prop.measure, "count": len(res["states"])},
            "real_components": prop.real,
            "stub_components": prop.stubs,
            "determinism_rerun": det,
            "known_findings_reproduced": {k: bool(v[0]) for k, v in known_hit.items()},
        },
        "assumptions": prop.assumptions,
    }
    if vinfo:
        d["coverage"]["violation"] = vinfo
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    f = os.path.join(core.VERIF, "evidence", prop.id + ".json")
    with open(f + ".tmp", "w") as o:
        json.dump(d, o, indent=1, default=str)
    os.replace(f + ".tmp", f)
