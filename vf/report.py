"""Findings, instance counts, known findings, evidence."""
import hashlib
import json
import os
import sys
import time

from .project import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings = {}      # ident -> {"rule","what","where":set,"opsets":set}
        self.counts = {}
        self.samples = {}
        self.notes = []
        self.assumptions = []
        self.rules = {}
        self.selftests = 0
        self.broken = []        # reasons why a clean result would not mean anything
        self.t0 = time.time()

    # ---- what was analysed
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, text, cap=6):
        l = self.samples.setdefault(name, [])
        if len(l) < cap:
            l.append(text)

    def rule(self, name, text):
        self.rules[name] = text

    def floor(self, name, n):
        """fewer instances than this means the analysis lost its subject"""
        if self.counts.get(name, 0) < n:
            self.broken.append("only %d instances of '%s' (expected at least %d)" % (self.counts.get(name, 0), name, n))

    def selftest(self, what, ok):
        self.selftests += 1
        if not ok:
            self.broken.append("self test failed: %s" % what)

    # ---- findings
    def find(self, rule, construct, what, where, opsets=()):
        """construct identifies the violation independently of line numbers; where = file:line (function)"""
        ident = "%s | %s" % (rule, construct)
        f = self.findings.setdefault(ident, {"rule": rule, "what": what, "where": set(), "opsets": set()})
        f["where"].add(where)
        f["opsets"].update(opsets)

    # ---- end
    def finish(self, level="other", explanation=""):
        known = load_known(self.prop)
        bad, old = [], []
        for ident, f in sorted(self.findings.items()):
            k = known.get(ident)
            if k is not None and k.get("status") == "known":
                new = sorted(f["opsets"] - set(k.get("opsets", [])))
                if not f["opsets"] or not new:
                    old.append((ident, f, k))
                    continue
                f = dict(f, opsets=set(new))
            bad.append((ident, f))
        for ident, f, k in old:
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, k.get("what") or f["what"],
                                                       " [%s]" % ident))
        out = os.path.join(ROOT, "out")
        os.makedirs(out, exist_ok=True)
        for ident, f in bad:
            p = os.path.join(out, "%s-%s.json" % (self.prop, hashlib.sha1(ident.encode()).hexdigest()[:10]))
            with open(p, "w") as fh:
                json.dump({"property": self.prop, "rule": f["rule"], "rule_text": self.rules.get(f["rule"], ""), "construct": ident,
                           "what": f["what"], "where": sorted(f["where"]), "opsets": sorted(f["opsets"]),
                           "replay": "cd /verif && python3 check.py %s" % self.prop}, fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  %s: %s" % (f["rule"], f["what"]))
            print("  construct: %s" % ident)
            print("  at: %s%s" % ("; ".join(sorted(f["where"])[:6]), " opsets %s" % sorted(f["opsets"]) if f["opsets"] else ""))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"explanation": explanation, "rules": self.rules, "analysed": self.counts, "samples": self.samples,
                           "self_tests": self.selftests, "known_findings": [i for i, _, _ in old],
                           "violations": [dict(construct=i, what=f["what"], where=sorted(f["where"])) for i, f in bad]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        stale = [i for i, k in known.items() if k.get("status") == "known" and i not in self.findings]
        for i in stale:
            print("note: known finding no longer present: %s" % i)
        print("%s: %d violation(s), %d known finding(s), %s, %.1fs" % (
            self.prop, len(bad), len(old), ", ".join("%s=%d" % kv for kv in sorted(self.counts.items())), time.time() - self.t0))
        if self.broken and not bad:
            print("ANALYSIS-BROKEN property=%s %s" % (self.prop, "; ".join(self.broken[:5])))
            return 3
        return 1 if bad else 0


def load_known(prop):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        d = json.load(f)
    return {k["id"]: k for k in d["findings"] if k["property"] == prop and k.get("status") == "known"}
