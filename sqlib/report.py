"""Findings, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from . import extract as X
from .extract import Unanalysable

VERIF = X.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.findings = {}       # key -> (where, text)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.selftests = []
        self.t0 = time.time()

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s, cap=40):
        if len(self.samples) < cap:
            self.samples.append(s)

    def floor(self, what, n):
        """fewer instances than were confirmed by hand: the analysis is broken"""
        if self.counts.get(what, 0) < n:
            raise Unanalysable("%s: only %d %s analysed, expected at least %d" %
                               (self.pid, self.counts.get(what, 0), what, n))

    def find(self, key, where, text):
        self.findings.setdefault(key, (where, text))

    def selftest(self, name, ok):
        self.selftests.append((name, bool(ok)))
        if not ok:
            raise Unanalysable("%s: self-test failed: %s" % (self.pid, name))

    # ------------------------------------------------------------------
    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN)):
                if k.get("property") == self.pid and k.get("status") == "known":
                    known[k["key"]] = k
        bad = []
        hits = []
        for key, (where, text) in sorted(self.findings.items()):
            if key in known:
                hits.append(key)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]["what"]))
            else:
                bad.append((key, where, text))
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "counts": self.counts,
                "violations": [b[0] for b in bad],
                "known_findings": hits,
                "self_tests": [n for n, _ in self.selftests],
                "samples": self.samples,
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as o:
            json.dump(ev, o, indent=1, sort_keys=True)
        rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
        if bad:
            with open(rp, "w") as o:
                for key, where, text in bad:
                    o.write("%s\n  %s\n  key: %s\n" % (where, text, key))
            for key, where, text in bad:
                print("%s: [%s] %s" % (where, self.pid, text))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print("property=%s held: %s" % (
            self.pid, ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        return 0


def main(pid, fn):
    try:
        rc = fn()
    except Unanalysable as e:
        print("ERROR (no answer) %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
