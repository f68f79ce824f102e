"""Verdicts, evidence and known findings, shared by all checks."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid, level, technique):
        self.pid, self.level, self.technique = pid, level, technique
        self.t0 = time.time()
        self.obl = []  # (rule, instance, ok)
        self.viol = []  # (key, where, message)
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.assumptions = []
        self.counts = {}
        self.rules = {}

    # one obligation = one rule applied to one construct
    def ob(self, rule, instance, ok, where="", msg=""):
        if rule is None:  # an obligation of another property
            return ok
        self.obl.append((rule, str(instance), bool(ok)))
        if not ok:
            self.violation("%s: %s" % (rule, instance), where, msg)
        return ok

    def rule(self, name, text):
        self.rules[name] = text

    def violation(self, key, where="", msg=""):
        if all(k != key for k, _, _ in self.viol):
            self.viol.append((key, where, msg))

    def floor(self, what, n, least):
        """the rule instances confirmed by hand must still be found"""
        self.counts[what] = n
        if n < least:
            self.violation("floor: %s" % what, "", "only %d instances of '%s' were found, at least %d were confirmed by reading the code; "
                           "the rule would pass vacuously" % (n, what, least))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def saw(self, interp):
        self.functions |= {interp.db.bodies[u].path for u in interp.analysed if u in interp.db.bodies and interp.db.bodies[u].local}

    def sawfn(self, body):
        self.functions.add(body.path)

    def finish(self):
        known = load_findings(self.pid)
        out, kn = [], []
        for v in self.viol:
            (kn if v[0] in known else out).append(v)
        for k, w, m in kn:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rep = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
        if os.path.exists(rep):
            os.remove(rep)
        if out:
            with open(rep, "w") as f:
                f.write("property %s, %d violation(s); technique: %s\nreplay: VERIF_TIER=quick ./check.sh %s\n\n" % (
                    self.pid, len(out), self.technique, self.pid))
                for k, w, m in out:
                    f.write("* %s\n  at: %s\n  %s\n\n" % (k, w, m))
            for k, w, m in out[:20]:
                print("  violated: %s\n    at %s\n    %s" % (k, w, str(m)[:1500]))
        sample = {}
        for r, i, ok in self.obl:
            sample.setdefault(r, []).append(i + ("" if ok else "  [VIOLATED]"))
        cov = {
            "explanation": "Static analysis of the MIR of /repo's working tree (nothing is executed): " + self.technique,
            "obligations": len(self.obl),
            "discharged": sum(1 for o in self.obl if o[2]),
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions),
            "rules": self.rules,
            "instances_per_rule": {r: len(v) for r, v in sample.items()},
            "samples": {r: v[:6] for r, v in sample.items()},
            "counts": self.counts,
        }
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level, "coverage": cov,
              "assumptions": self.assumptions + self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(out)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d obligations, %d discharged, %d functions analysed, %.1f s" % (
            self.pid, len(self.obl), cov["discharged"], len(self.functions), ev["wall_s"]))
        if out:
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rep, VERIF)))
            return 1
        return 0


def load_findings(pid):
    """lines 'known: property=<id> <key>'; lines 'fixed: ...' suppress nothing"""
    r = set()
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\S+) (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                r.add(m.group(2))
    return r
