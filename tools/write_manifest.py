"""Writes /verif/MANIFEST.json from the list of checks and the reasons for the rest."""
import json, pathlib, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
TECH = "deterministic simulation with fault injection: "
CLAIMED = json.loads((root / "tools" / "claimed.json").read_text())
PURE = ("A pure function of its arguments: no schedule, clock, I/O, randomness, crash or second party can influence it, so a simulator has "
        "nothing to control and seeded search over schedules and faults cannot decide it (generating inputs alone would be property based testing). ")
REASONS = {
    "C30": PURE, "C31": PURE, "C32": PURE, "C33": PURE + "(The stochastic and parallel solvers are covered by C08 and C15.)",
    "C34": PURE, "C35": PURE + "(Sampling from the operators, which does depend on randomness, is C09.)", "C36": PURE, "C37": PURE,
    "C38": PURE + "(Generation from a stateful Hamiltonian source is C13.)",
    "C39": PURE + "(Localization delegated to the external program is C05 to C07.)", "C40": PURE, "C41": PURE, "C42": PURE + "(Sharing and mutation of operands is C10.)",
    "C43": PURE, "C44": PURE + "(Animations, which depend on a timer, are C14.)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH + c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": REASONS.get(i, "The check for this property is not built yet.").strip()})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "SPA_VERIF_SIM", "enable": "no hooks were needed: every seam (open, os, time, subprocess, random generators, locks, input) already exists in the interpreter and is replaced from /verif/sim; the guard variable is reserved and read by nothing", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are one simulator (/verif/sim) with one module per property (/verif/props). ./check ID runs a check, ./check --replay FILE repeats a failure exactly."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not applicable")
