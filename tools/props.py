"""Writes properties.jsonl and MANIFEST.json from the table below and the registry of checks."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{VERIF}/checks")
from registry import REGISTRY

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note, na=na))


exec(open(f"{VERIF}/tools/table.py").read())


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in REGISTRY:
            checks.append({
                "property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": REGISTRY[p["id"]][2], "level": "other", "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check has been built for it yet"})
    for i in REGISTRY:
        assert i in ids, i
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks, "not_applicable": na,
                   "notes": "Every check reads facts extracted by a rustc driver from /repo's current sources; nothing of pen-lang/pen is executed."}, f, indent=1)
        f.write("\n")


main()
