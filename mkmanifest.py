#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present in rv/props."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SPECIFIC = {
    "C01": ("independent exact-arithmetic time parser vs reader results", ),
    "C02": ("independent parsers read back every written timestamp", ),
    "C03": ("strict conformant parsers over hostile-text writer output", ),
    "C04": ("independent display-text model vs reader text", ),
    "C05": ("independent CEA-608 pop-on decoder vs SCC reader", ),
    "C06": ("independent CEA-608 transmission clock vs SCC reader timing", ),
    "C07": ("lxml strict parse + reference/region consistency monitor", ),
    "C08": ("timeline conservation monitor over conversion chains, idempotence of a second pass", ),
    "C09": ("before/after structural snapshots, byte-equality across writers, histories and hash seeds", ),
    "C10": ("differential monitor: read in long histories vs pristine subprocesses with other hash seeds", ),
    "C11": ("per-character style-flag monitor across conversions, tag-balance monitor", ),
    "C12": ("per-character effective-layout monitor, independent cue-settings computation", ),
    "C13": ("exact rational unit-conversion oracle over written sizes", ),
    "C14": ("per-language tagged-cue conservation monitor", ),
    "C15": ("independent line-length decoder vs error/return verdict, permutation metamorphics", ),
    "C16": ("independent roll-up/paint-on transmission log: conservation and ordering", ),
    "C17": ("byte-level monitor of emitted words + independent decoder + read-back", ),
    "C18": ("value-semantics monitor over exhaustive small geometry plus grammar oracle", ),
    "C19": ("before/after node-identity and run-merging oracle", ),
    "C20": ("ordered-probe oracle, totality over hostile strings", ),
}
ASSUME = ("Assurance is by observation: the property is decided on every execution the workload drives (systematic small "
          "scope plus seeded random and hostile inputs, counted in the evidence file), not on all inputs. Trusts the "
          "reference parser/decoder in /verif/rv, CPython and lxml. Domain assumptions are listed in the evidence file.")
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
have = [p for p in props if os.path.exists(os.path.join(HERE, "rv", "props", p.lower() + ".py"))]
checks = [{"property": p,
           "quick_cmd": f"./check {p} --tier quick",
           "thorough_cmd": f"./check {p} --tier thorough",
           "evidence_file": f"evidence/{p}.json",
           "technique": f"runtime monitoring: {SPECIFIC[p][0]}",
           "level": "exploration",
           "level_note": ASSUME} for p in have]
m = {"version": 1,
     "setup_cmd": "./check --selftest",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in have],
     "notes": "No hooks are needed in /repo: every property is observable at the public API. Replay a violation with "
              "'./check CNN --replay FILE'."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
