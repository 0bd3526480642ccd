"""Shared reporting: evidence files, known findings, exit protocol."""
import json, os, sys, time, hashlib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FTK_REPO", "/repo")


def known():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


class Report:
    """collects violations as dicts with a stable 'key'"""

    def __init__(self, prop, technique, explanation):
        self.prop, self.tech, self.expl = prop, technique, explanation
        self.t0 = time.time()
        self.viol = []
        self.cov = {}
        self.errors = []

    def violation(self, key, where, text):
        self.viol.append(dict(key=key, where=where, text=text))

    def error(self, t):
        self.errors.append(t)

    def need(self, cond, t):
        if not cond:
            self.errors.append(t)

    def finish(self, tier=None):
        tier = tier or os.environ.get("VERIF_TIER", "quick")
        kn = {k["key"]: k for k in known() if k["property"] == self.prop and k.get("status") == "known"}
        new, old = [], []
        seen = set()
        for v in self.viol:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            (old if v["key"] in kn else new).append(v)
        ev = dict(property=self.prop, tier="thorough" if tier == "thorough" else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(explanation=self.expl, technique=self.tech, errors=self.errors, known_findings=[v["key"] for v in old], **self.cov),
                  violations=len(new), wall_s=round(time.time() - self.t0, 3))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        p = os.path.join(V, "evidence", self.prop + ".json")
        with open(p, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v in old:
            print(f"KNOWN-FINDING: property={self.prop} {v['where']}: {v['text'][:300]}")
        if new:
            rp = os.path.join(V, "evidence", self.prop + ".violations.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, rule=self.tech, violations=new), f, indent=1, default=str)
            for v in new[:40]:
                print(f"  {v['where']}: {v['text'][:700]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            for e in self.errors:
                print("  note:", e)
            sys.exit(1)
        if self.errors:
            for e in self.errors:
                print(f"ANALYSIS-ERROR property={self.prop}: {e}")
            sys.exit(2)
        short = {k: v for k, v in self.cov.items() if isinstance(v, (int, float, str))}
        print(f"OK property={self.prop} " + " ".join(f"{k}={v}" for k, v in short.items()))
        sys.exit(0)
