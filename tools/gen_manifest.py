"""Writes MANIFEST.json from the scenarios that exist."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

PURE = ("a pure function of its arguments: no schedule, clock, I/O, randomness or multi-step state decides it, so there is "
        "no interleaving or fault to simulate; property-based or symbolic methods are the fitting ones")

NOTES = {
    "P30": PURE, "P31": PURE, "P32": PURE, "P33": PURE, "P34": PURE, "P35": PURE, "P36": PURE, "P37": PURE, "P38":
        PURE + " (the history-dependent part, supercells and transforms within edit histories, is decided in P07 and P08)",
    "P39": PURE, "P40": PURE, "P41": PURE + " (order and failure dependence of the same integrals is decided in P12)",
    "P42": PURE, "P43": PURE,
}


def main():
    props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
    commits = []
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(here, "sim", "scen", pid.lower() + ".py")):
            src = importlib.import_module(f"sim.scen.{pid.lower()}").SCENARIO
            checks.append({
                "property": pid,
                "quick_cmd": f"bash check.sh {pid} --tier quick",
                "thorough_cmd": f"bash check.sh {pid} --tier thorough",
                "technique": src.technique,
                "level": src.level,
                "level_note": src.level_note or (
                    "Seeded search, not exhaustive: it shows the property on the executions listed in the evidence file. "
                    "Real code: " + src.real + ". Simulated: " + src.stubs + ". Assumes: " + ("; ".join(src.assumptions) or "nothing further") + "."),
            })
        else:
            na.append({"property": pid, "reason": NOTES.get(pid, "check not built yet")})
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo were needed: every seam (files, processes, threads, clock, randomness, interrupts) is put "
                 "in front of the unmodified library from outside. Fixes of genuine defects are separate fix: commits.",
    }
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
