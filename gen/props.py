#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
AI = "abstract interpretation of the SSA form (path-sensitive value provenance)"
BASE_NOTE = (
    "Decided for all inputs within the stated shape bounds by analysing the SSA form of the current tree; trusts "
    "the transfer functions for the standard library, lnd/tlv/sphinx/btcec primitives and gRPC listed in DESIGN.md. "
)


def P(id, title, statement, over, text, why, files, mech, technique=AI, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()),
                      why=" ".join(why.split()), files=files.split(), mech=mech, technique=technique,
                      note=" ".join((BASE_NOTE + note).split()), na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "table.py")).read())

CMD = "bash /verif/run.sh %s %s"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
            assert n <= 3, (p["id"], n)
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash /verif/build.sh",
        "checks": [
            {"property": p["id"], "quick_cmd": CMD % (p["id"], "quick"), "thorough_cmd": CMD % (p["id"], "thorough"),
             "technique": p["technique"], "level": "other", "level_note": p["note"]}
            for p in PROPS if not p["na"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
        "notes": "Static analysis only: every check type-checks /repo's working tree, builds its SSA form and decides "
                 "the property on it; no code of /repo is executed. No hooks in /repo. See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    sa = os.path.join(ROOT, "bin", "sa")
    if os.path.exists(sa):
        have = {l.split()[0] for l in subprocess.check_output([sa, "list"], text=True).splitlines()}
        want = {p["id"] for p in PROPS if not p["na"]}
        if have != want:
            print("checks without property:", sorted(have - want), "properties without check:", sorted(want - have))
            sys.exit(1)


main()
