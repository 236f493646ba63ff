#!/usr/bin/env python3
"""Writes MANIFEST.json from engines/table.json and the notes below."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + "/engines/table.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
GUARD = "MOSML_SIM"
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if "simulator hook" in l]
NA = {
    "N01": "soundness of the type checker is a property of one deterministic function from source text to verdict; no schedule, fault, clock or I/O takes part in it, so simulated schedules decide nothing about it",
    "N02": "a fault-free evaluation is a deterministic function of the program; there is no nondeterminism for a simulator to control (what schedules can do to it is C01, C12, C13 and C26)",
    "N03": "arithmetic and library functions are pure; no schedule or fault can affect their results beyond what C01 covers",
    "N04": "the generated analysers are pure functions of their input; the only dependence on I/O (refilling the lexer buffer) is covered by C26",
}
NOTES = json.load(open(V + "/tools/levelnotes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation of the real runtime and library with seeded fault injection; " + NOTES[i][0],
            "level": "exploration",
            "level_note": NOTES[i][1] + " Seeded search, not exhaustive; trusts the simulated kernel (sim/os.cpp) to be a faithful POSIX model."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": GUARD, "enable": "sim/build.py compiles /repo/src/runtime with -DMOSML_SIM; without it the hooks expand to nothing", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds runtime, library, compiler and drivers from /repo's working tree into a scratch directory under /tmp, which it removes."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
