import json, sys
sys.path.insert(0, "/verif/sim")
import targets
N = {
 "C01": "seeded histories of concurrent and re-entrant calls, checked for linearizability against a list model; samples schedules, does not enumerate them",
}
TECH = {
 "C01": "deterministic simulation: seeded interleavings of client threads and re-entrant callbacks, linearizability check against a list model",
 "C05": "deterministic simulation: sort under failing/meddling keys, failing allocations and preemption, against Python's stable sort",
 "C06": "deterministic simulation: basic-block preemption inside interpreter-lock-free regions, linearizability and lock-state check",
 "C07": "deterministic simulation with fault injection: scripted exceptions at step k of user callbacks",
 "C08": "deterministic simulation with fault injection: n-th allocation fails (native and interpreter), leak census, retry",
 "C09": "deterministic simulation: scripted re-entrant callbacks under an address checker, consistency check afterwards",
 "C10": "deterministic simulation: iterator steps interleaved with list changes, against list-iterator model",
 "C11": "deterministic simulation: buffer views interleaved with list changes and allocation faults, against a view model",
 "C12": "deterministic simulation with fault injection: reference census of tagged objects and blocks at quiescence",
 "C13": "deterministic simulation with fault injection: simulated heap history with failing and moving allocations, byte-level model",
 "C14": "deterministic simulation with fault injection: ASM.cpp on a simulated Windows page-protection API",
 "C15": "deterministic simulation: thread pool on a simulated pthread scheduler with spurious wake-ups and thread-creation failure",
 "C16": "deterministic simulation with fault injection: scripted stdio devices (short, failing, delayed transfers)",
 "C20": "deterministic simulation with fault injection: native functions that call back into Python, failing allocations, byte-level model",
 "C17": "deterministic simulation with fault injection: n-th allocation fails during module import, retry",
}
for p in ("C02", "C03", "C04"): TECH[p] = TECH["C01"]
checks = []
for p in sorted(targets.T):
    checks.append({"property": p, "quick_cmd": "python3 sim/check.py %s --tier quick" % p, "thorough_cmd": "python3 sim/check.py %s --tier thorough" % p,
                   "technique": TECH[p], "level": "exploration",
                   "level_note": "seeded search over schedules and fault sequences on the real code; evidence, not proof: " + targets.T[p].assumptions[0]})
NA = [
 ("C18", "pure function of its input: no schedule, clock, fault or I/O for a simulation to decide"),
 ("C19", "pure functions of their input: no schedule, clock, fault or I/O for a simulation to decide"),
]
for p in ("C13","C14","C15","C16","C17"):
    if p not in targets.T: NA.append((p, "check not built yet"))
m = {"version": 1, "setup_cmd": "python3 sim/setup.py", "checks": checks, "not_applicable": [dict(property=a, reason=b) for a, b in NA]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks))
