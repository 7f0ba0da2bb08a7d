"""Obligations, violations, known findings and evidence of one check."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = f"{VERIF}/known-findings.txt"


class Check:
    def __init__(self, id, technique):
        self.id, self.technique, self.start = id, technique, time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.obligations, self.violations, self.samples = {}, [], []
        self.functions, self.notes, self.rules = set(), [], []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, kind, n=1):
        self.obligations[kind] = self.obligations.get(kind, 0) + n

    def violation(self, key, message, where=""):
        """key names the construct without line numbers, so that it survives edits elsewhere."""
        if key not in [v["key"] for v in self.violations]:
            self.violations.append({"key": key, "message": message, "where": where})

    def require(self, condition, kind, key, message, where=""):
        self.ok(kind)
        if not condition:
            self.violation(key, message, where)
        return bool(condition)

    def analysed(self, names):
        self.functions |= set(names)

    def note(self, text):
        self.notes.append(text)


def findings(id):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding: property=%s key=" % id):
                key, _, what = line[len("finding: property=%s key=" % id):].strip().partition(" ")
                out[key] = what
    return out


def finish(check, level="other"):
    known = findings(check.id)
    fresh = [v for v in check.violations if v["key"].replace(" ", "_") not in known]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    replay = f"{VERIF}/evidence/{check.id}.violations.json"
    evidence = {
        "property": check.id, "tier": check.tier if check.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "functions_analysed": len(check.functions),
            "obligations_checked": sum(check.obligations.values()),
            "obligations_by_kind": check.obligations,
            "violations_found": len(check.violations),
            "known_findings": len(check.violations) - len(fresh),
            "functions": sorted(check.functions)[:400],
            "rules": check.rules,
            "notes": check.notes,
            "explanation": check.technique,
        },
        "assumptions": [],
        "wall_s": round(time.time() - check.start, 2),
        "violations": len(fresh),
    }
    with open(f"{VERIF}/evidence/{check.id}.json", "w") as f:
        json.dump(evidence, f, indent=1)
    for v in check.violations:
        key = v["key"].replace(" ", "_")
        if key in known:
            print(f"KNOWN-FINDING: property={check.id} {key}: {known[key]}")
    if os.path.exists(replay):
        os.remove(replay)
    if fresh:
        with open(replay, "w") as f:
            json.dump(fresh, f, indent=1)
        for v in fresh:
            print(f"{v['where']}: {v['message']} [{v['key']}]")
        print(f"VIOLATION property={check.id} replay={replay}")
        return 1
    print(f"{check.id}: {sum(check.obligations.values())} obligations over {len(check.functions)} functions hold ({evidence['wall_s']} s)")
    return 0
