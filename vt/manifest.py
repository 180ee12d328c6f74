#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry (run after changing either)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
from build import VERIF

TECH = {
    "C01": "ASan+UBSan+LSan and valgrind on the real program under generated and mutated input, plus libFuzzer",
    "C02": "I/O fault injection by interposition, with an output completeness monitor",
    "C04": "PostScript interpreter as an online monitor of the output, over generated documents",
    "C10": "independent ray tracer judging every stroke of generated scenes",
    "C16": "differential monitor over pairs of spellings of generated documents",
    "C17": "differential monitor over repeated, permuted and split runs",
    "C18": "monitor of reported positions for mistakes planted at known ones",
    "C19": "monitor of the real function's results against an extended precision fit",
    "C23": "rule code executed under a stand-in Bazel that runs every action in a sandbox of its inputs",
}
TECH["C24"] = "system call monitor (strace) and before/after comparison of the file tree over generated runs"
TECH["C25"] = "steps counted by compiler instrumentation and peak memory, compared between sizes"
NOTE = "Runtime monitoring: holds on the executions explored, not proved for all. "


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks = []
    for p in props:
        i = p["id"]
        r = registry.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3-vt vt/check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3-vt vt/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "generated workloads on the real program, its output interpreted and judged by an independent oracle"),
            "level": r.level,
            "level_note": NOTE + ("Assumes: " + "; ".join(r.assumptions) + "." if r.assumptions else "No assumptions beyond the generator's reach."),
        })
    m = {"version": 1, "setup_cmd": "python3-vt vt/setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: the checks observe the unmodified program from outside (output, exit status, stderr, system calls, sanitizers). "
                  "Known findings and repaired defects: known_findings.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
