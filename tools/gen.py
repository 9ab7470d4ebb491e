#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md
from tools/table.py."""
import json, os, sys, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
from table import PROPS, NA

NOTE = ("Decided on the LLVM IR of the current source, compiled with the project's own flags; no execution and no solver. "
        "Integer arithmetic is taken not to overflow; allocation failure only where the property names it. "
        "Obligations the analysis cannot interpret are counted as undecided in the evidence and never reported.")


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS + NA:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in PROPS:
        c = {"property": p["id"], "quick_cmd": "python3 checks/run.py %s" % p["id"],
             "thorough_cmd": "python3 checks/run.py %s --tier thorough" % p["id"],
             "technique": p["technique"], "level": "other", "level_note": p.get("note", "") + (" " if p.get("note") else "") + NOTE}
        man["checks"].append(c)
    for p in NA:
        man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    head = open(HERE + "/design_head.md").read()
    body = ["\n## Properties and how each is decided\n"]
    for p in PROPS:
        body.append("### %s %s\n\n%s\n\n*Decided by:* %s\n" % (p["id"], p["title"], p["statement"], p["design"]))
    body.append("\n## Not applicable\n")
    for p in NA:
        body.append("- **%s %s**: %s" % (p["id"], p["title"], p["reason"]))
    from fixes import fixes
    import glob
    body.append("\n## Planted changes\n\nEach is in `seeded/<id>/` with a demonstration; the check of its property reports it (exit 1) and is quiet without it. Others are in `selftest/variants.py`.\n")
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        body.append("- `%s` (%s): %s Needs: %s" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].rstrip("."), m["needs"]))
    import importlib.util
    vs = importlib.util.spec_from_file_location("variants", V + "/selftest/variants.py")
    vm = importlib.util.module_from_spec(vs)
    vs.loader.exec_module(vm)
    cnt = {}
    for v in vm.V:
        c = cnt.setdefault(v[0], [0, 0])
        c[v[-1] == "same"] += 1
    body.append("\n## Variants of the source used to test the checks\n\nDefective ones must be reported, behaviour-preserving ones must not (`selftest/mutate.py`).\n")
    body.append("| check | defective | preserving |\n|---|---|---|")
    for k in sorted(cnt):
        body.append("| %s | %d | %d |" % (k, cnt[k][0], cnt[k][1]))
    body.append("\n## Defects found and repaired\n\nOne `fix:` commit each; also in KNOWN_FINDINGS.jsonl. There is no finding left unrepaired that a claimed property covers.\n")
    for h, s_, p, w in fixes():
        body.append("- fixed: property=%s %s %s" % (p, h, w))
    tail = open(HERE + "/design_tail.md").read() if os.path.exists(HERE + "/design_tail.md") else ""
    open(V + "/DESIGN.md", "w").write(head + "\n".join(body) + "\n\n" + tail)


main()
