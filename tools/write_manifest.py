#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = "/opt/venv/bin/python"
TECH = {
 "C01": "deterministic simulation of lossy, crashing block streams; seeded search; sample-by-sample reference model",
 "C02": "deterministic simulation of lossy, crashing block streams; seeded search; sample-by-sample reference model",
 "C03": "deterministic simulation of concurrent caller threads with a seeded preemptive scheduler; solo-run reference",
 "C04": "deterministic simulation of the OpenMP runtime: seeded worker schedules, vector-clock race detection, checked memory",
 "C05": "deterministic fault injection (k-th allocation, k-th tensor operation, interrupt at k-th line) with retry",
 "C06": "deterministic simulation of buffer-reusing clients; argument snapshots and aliasing probes",
 "C07": "deterministic simulation of start-up faults (each optional component absent, corrupt or failing) compared across processes",
 "C08": "deterministic simulation of stream joins, leaves, stalls and corruptions; each stream against its solo run",
 "C09": "deterministic simulation of seeded backward schedules over block chains; autograd through the reference recurrence",
 "C10": "deterministic injection of in-place writes between forward and backward",
 "C11": "deterministic simulation of memory contents, ambient settings and call histories",
 "C12": "deterministic simulation of crash and resume from logs; steady-state streams under seeded cuttings",
 "C13": "deterministic simulation of crashing block-wise solves with failing callbacks, allocations, operations and interrupts; sequential reference",
}
NOTE = {
 "C01": "seeded search over blocks, crashes, redeliveries and configurations; equality up to 1e-10 (double); sampling, no proof",
 "C02": "seeded search over blocks, crashes, redeliveries and configurations; equality up to 1e-10 (double); sampling, no proof",
 "C03": "seeded search over preemptions at Python lines/opcodes and kernel accesses of 2-4 callers; torch's own kernels are atomic steps",
 "C04": "seeded search over schedules with up to 31 workers at every kernel memory access; sequentially consistent memory",
 "C05": "every allocation, operation and traced line of the sampled small calls is failed once (thorough) or a seeded subset (quick)",
 "C06": "seeded search over calls, layouts, overlaps and reuse schedules; byte-exact comparison",
 "C07": "each configuration of missing or failing components enumerated, calls sampled; agreement up to rounding",
 "C08": "seeded search over groupings and corruptions; agreement up to rounding",
 "C09": "seeded search over cuttings and backward orders; agreement up to rounding",
 "C10": "seeded search over calls, tensors and write times",
 "C11": "seeded search over memory contents, settings and histories; bit-exact comparison",
 "C12": "seeded search over crash points and cuttings; agreement up to rounding",
 "C13": "seeded search over cuttings, iteration limits, guesses and fault positions; agreement up to rounding or the solver's tolerance",
}
NA = {
 "N01": "agreement with scipy is a pure function of one input: no schedule, time, fault or history for a simulator to control",
 "N02": "shape/dtype prediction of abstract kernels is a pure function of the argument shapes: nothing to schedule or fault",
 "N03": "argument validation is a pure function of one call's arguments: nothing to schedule or fault",
 "N04": "algebraic identities of matrix/polynomial helpers are pure functions of one input: nothing to schedule or fault",
 "N06": "no GPU and no Helion/CUDA back end can run in this sandbox, so the real code cannot be put under the simulator",
 "N07": "index arithmetic on sizes alone, needing more than 2^31 elements: no schedule or fault involved, does not fit the sandbox",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
from sim import core
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(V, "sim", "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"{PY} -m sim.check {p}", "thorough_cmd": f"{PY} -m sim.check {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": core.load_prop(p).level, "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": "no check built yet (work in progress)"})
m = {"version": 1, "setup_cmd": f"{PY} -m sim.build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the kernels are recompiled out of tree with access instrumentation, everything else uses seams of Python and torch. "
              "Replay: python -m sim.check <ID> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
