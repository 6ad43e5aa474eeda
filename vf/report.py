"""Outcome of one check: violations, known findings, inconclusive obligations, evidence."""
from __future__ import annotations

import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Enough(BaseException):
    """The question is answered by a violation; the remaining obligations are not worth their time."""


class Report:
    last = None

    def __init__(self, prop, tier):
        Report.last = self
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.violations = []  # (key, text, replay dict)
        self.inconclusive = []
        self.cov = {"explanation": "", "obligations": 0, "discharged": 0, "undecided": 0, "queries": 0, "solver_s": 0.0,
                    "functions_encoded": [], "bounds": [], "outside_bounds": [], "samples": [], "vacuity_witnesses": 0,
                    "crosschecked_cvc5": 0}
        self.assumptions = []
        self.level = "other"
        self.stop = None  # raised by a parallel worker that found a violation

    def violation(self, key, text, replay):
        if any(k == key for k, _, _ in self.violations):
            return
        self.violations.append((key, text, replay))

    def undecided(self, text):
        self.inconclusive.append(text)

    def new(self):
        """A violation that is not a known finding was found."""
        known = self.known() if self.violations else {}
        return any(k not in known for k, _, _ in self.violations)

    def enough(self, seconds):
        if self.stop is not None and time.time() - self.t0 > seconds and self.stop.is_set():
            raise Enough
        if self.violations and time.time() - self.t0 > seconds:
            if self.new():
                if self.stop is not None:
                    self.stop.set()
                raise Enough

    def known(self):
        out = {}
        path = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path, encoding="utf8"):
                line = line.strip()
                if line.startswith("finding: "):
                    head, _, what = line[len("finding: "):].partition(" :: ")
                    prop, _, key = head.partition(" key=")
                    if prop == f"property={self.prop}":
                        out[key] = what
        return out

    def add_stats(self, st):
        self.cov["queries"] += st.get("queries", 0)
        self.cov["solver_s"] = round(self.cov["solver_s"] + st.get("solver_s", 0.0), 3)
        self.cov["crosschecked_cvc5"] += st.get("crosschecked", 0)

    def finish(self):
        known = self.known()
        new = []
        for key, text, replay in self.violations:
            if key in known:
                print(f"KNOWN-FINDING: property={self.prop} {known[key]}")
            else:
                new.append((key, text, replay))
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, (key, text, replay) in enumerate(new):
            path = os.path.join(rdir, f"{self.prop}-{n}.json")
            with open(path, "w", encoding="utf8") as fh:
                json.dump({"property": self.prop, "key": key, "what": text, **(replay or {})}, fh, indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {key}: {text}")
        for t in self.inconclusive[:20]:
            print(f"UNDECIDED property={self.prop} {t}")
        self.cov["undecided"] = len(self.inconclusive)
        self.cov["known_findings_seen"] = len(self.violations) - len(new)
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        edir = os.path.join(ROOT, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f"{self.prop}.json"), "w", encoding="utf8") as fh:
            json.dump(ev, fh, indent=1, default=str)
        code = 1 if new else 2 if self.inconclusive else 0
        print(f"{self.prop} {self.tier}: obligations={self.cov['obligations']} discharged={self.cov['discharged']} queries={self.cov['queries']} "
              f"solver={self.cov['solver_s']:.1f}s wall={ev['wall_s']:.1f}s exit={code}")
        sys.stdout.flush()
        return code
