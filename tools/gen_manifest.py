#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
CLAIMED = {
 "C19": ("small", "reference-client monitor: protocol oracle over random and attacked SCRAM handshakes"),
 "C20": ("small", "reference-server monitor: protocol oracle over random and tampered SCRAM handshakes"),
 "C22": ("small", "differential monitor against a reference parser under random fragmentation"),
}
exec(open(os.path.join(here, "claimed_broker.py")).read()) if os.path.exists(os.path.join(here, "claimed_broker.py")) else None
NA = globals().get("NA", {})
NOTE = ("Holds on the executions observed (counts in the evidence file); an oracle independent of the code judges every "
        "execution. Not a proof: inputs and schedules not generated are not covered.")
def cmd(i, tier): return f"python3 san.py {tier}" if CLAIMED[i][0] == "san" else f"bash check.sh {CLAIMED[i][0]} {i} {tier}"
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "cfg(akasa_verif)", "enable": "RUSTFLAGS='--cfg akasa_verif' (set by build.sh)",
           "source_commits": subprocess.run(["git","-C","/repo","log","--format=%h","--grep=^hook:"],capture_output=True,text=True).stdout.split()},
 "checks": [{"property": i, "quick_cmd": cmd(i,"quick"), "thorough_cmd": cmd(i,"thorough"),
             "technique": "runtime monitoring: " + CLAIMED[i][1], "level": "exploration", "level_note": (CLAIMED[i][2] if len(CLAIMED[i])>2 else NOTE)}
            for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NA.get(i, "monitor not built yet")} for i in ids if i not in CLAIMED],
 "notes": "DESIGN.md explains the machinery; known_findings.json lists recorded findings.",
}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
