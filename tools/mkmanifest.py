"""Writes MANIFEST.json from properties.jsonl and the worlds present in sim/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    notes = json.load(open(os.path.join(V, "tools", "techniques.json")))
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "sim", "props", i.lower() + ".py")):
            t = notes.get(i, {})
            checks.append({
                "property": i,
                "quick_cmd": "/opt/venv/bin/python -m sim.check %s --tier quick" % i,
                "thorough_cmd": "/opt/venv/bin/python -m sim.check %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "deterministic simulation: " + t.get("technique", "seeded runs against a reference model"),
                "level": "exploration",
                "level_note": t.get("note", "Seeded search: a clean batch is evidence, not proof. Trusts the reference model and the seams.")
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "Planned (see DESIGN.md); its check is not built yet.")})
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m sim.setup",
        "checks": checks,
        "not_applicable": na,
        "hooks": {"guard": "none", "enable": "No hooks in /repo: every seam is a module attribute (msgpack, random, numpy.random, "
                  "threading, open, webbrowser, matplotlib) that sim/seams.py replaces before importing netomaton from /repo.",
                  "source_commits": []},
        "notes": "See DESIGN.md. Replay a violation with: /opt/venv/bin/python -m sim.replay FILE. Determinism self-test: "
                 "/opt/venv/bin/python -m sim.selftest. Known and fixed findings: known-findings.json.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
