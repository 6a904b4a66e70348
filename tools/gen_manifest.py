"""Writes MANIFEST.json from the property modules present."""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
TECH = "explicit-state model checking of the real code: exhaustive bounded exploration of schedules, inputs and faults on a controlled event loop against a reference oracle"
TECH_OVERRIDE = {
    "C18": "model checking of the real code: exhaustive enumeration of event timelines on a controlled virtual-time loop against a timed reference",
    "C19": "model checking of the real code: exhaustive enumeration of event timelines on a controlled virtual-time loop against a timed reference",
    "C20": "model checking of the real code: exhaustive enumeration of timelines and disposal times on a controlled virtual-time loop against a timed reference",
    "C21": "model checking of the real event loop: exhaustive enumeration of timer/callback/cancellation programs up to a depth, run in lock step with a reference model of CPython's loop",
    "C27": "model checking of the real code: exhaustive enumeration of schedules of the testing subjects on the real virtual-time loop against a timed reference",
}
NOTE = ("Every execution of the real library within the stated bound (sources, events, injected actions) is run and compared "
        "with an independent reference; not a proof beyond the bound. Trusted: CPython asyncio's FIFO contract, "
        "the harness's loop, and the reference oracle.")
checks, na = [], []
for p in props:
    pid = p["id"]
    if (V / "props" / f"{pid.lower()}.py").exists():
        checks.append(dict(property=pid, quick_cmd=f"./check {pid} --tier quick", thorough_cmd=f"./check {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=TECH_OVERRIDE.get(pid, TECH),
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: the checks drive the unmodified library. /repo has only fix: commits, listed in KNOWN_FINDINGS.txt.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
