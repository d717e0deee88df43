#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the driver decides."""
import importlib.machinery, importlib.util, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
loader = importlib.machinery.SourceFileLoader("check", os.path.join(here, "check"))
spec = importlib.util.spec_from_loader("check", loader)
check = importlib.util.module_from_spec(spec)
loader.exec_module(check)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

INPUT = "explicit enumeration of all inputs in a bounded space, executed on the instrumented implementation and compared with an independent reference model"
SCHED = "stateless model checking of the implementation: all interleavings of its goroutines under a controlled scheduler, with state caching"
BOTH = "stateless model checking of the implementation: all interleavings (controlled scheduler, state caching) and all inputs of a bounded space against a reference model"
TECH = {
 "C01": INPUT, "C02": INPUT, "C03": INPUT, "C04": INPUT + "; all fragmentations of the transport", "C05": INPUT,
 "C06": INPUT + "; all failure points of the transport", "C07": BOTH, "C08": SCHED, "C09": SCHED, "C10": SCHED,
 "C11": SCHED + " and vector-clock race detection", "C12": SCHED + " and vector-clock race detection",
 "C13": INPUT, "C14": SCHED, "C15": INPUT + "; all failure points and fragmentations", "C16": SCHED + " and vector-clock race detection",
 "C17": BOTH, "C18": BOTH, "C19": BOTH, "C20": SCHED, "C21": INPUT, "C22": BOTH, "C23": SCHED,
}
NOTE = {
 "in": "Bounded-exhaustive on the real code: within the bounds listed in the evidence every input is executed; nothing is said beyond them.",
 "sched": "Exhaustive on the real code: in every scenario all schedules are explored (sequentially consistent, races reported separately); the scenarios bound the number of goroutines and messages.",
}
doc = {
 "version": 1,
 "setup_cmd": "python3 check --selftest",
 "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: the checks instrument a copy of its sources on every run (mc/cmd/instr). Genuine defects repaired or recorded: known_findings.json.",
}
for p in props:
    i = p["id"]
    if i in check.GROUPS:
        t = TECH[i]
        doc["checks"].append({
            "property": i, "quick_cmd": "python3 check %s quick" % i, "thorough_cmd": "python3 check %s thorough" % i,
            "technique": t, "level": "model_checking",
            "level_note": NOTE["in"] if t.startswith(INPUT) else NOTE["sched"] if t.startswith(SCHED) else NOTE["sched"] + " " + NOTE["in"],
        })
    else:
        doc["not_applicable"].append({"property": i, "reason": "its harness is still being built"})
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(doc["checks"]), "claimed")
