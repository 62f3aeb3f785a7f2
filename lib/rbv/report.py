"""Outcome of a check: evidence file, replay files, VIOLATION / KNOWN-FINDING lines, exit code."""
import json
import os
import sys
import time
import traceback

from .build import VERIF, ToolError

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
VIOLATED = []
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known():
    """[(property, text)] of the findings recorded and not repaired."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property="):
                p, _, rest = line[len("finding: property="):].partition(" ")
                key, _, text = rest.partition(" ")
                out.append((p, key, text))
    return out


class Enough(Exception):
    """A quick check stops at the first scenario with a confirmed violation; its report is finished."""


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.assumptions = []
        self.notes = []
        self.seen_known = set()

    def violation(self, what, replay, key=None):
        """`key` identifies the specific input/history for the known-findings file."""
        for p, k, text in known():
            if p == self.prop and key is not None and k == key:
                if k not in self.seen_known:
                    self.seen_known.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)
                return
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay, "tier": TIER, "seed": SEED}, f, indent=1,
                      default=str)
        self.viol.append(what)
        VIOLATED.append(what)
        if len(self.viol) <= 5:
            print("violated: %s" % what, flush=True)
        if len(self.viol) == 1:
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v if isinstance(v, int) and not isinstance(v, bool) else v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def model(self, name, r, what=""):
        """Account for one TLC run; the specification itself failing is an error of the check."""
        if not r.ok:
            raise ToolError("TLC on %s: %s\n%s" % (name, r.violated or r.error, r.out[-6000:]))
        self.add(states=r.distinct, transitions=r.states)
        self.cov.setdefault("models", []).append({"model": name, "distinct_states": r.distinct,
                                                  "transitions": r.states, "what": what})

    def finish(self):
        from . import traces
        if traces.UNDECIDED:
            self.cov["undecided_traces"] = len(traces.UNDECIDED)
            self.cov["undecided_examples"] = traces.UNDECIDED[:5]
        self.cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %s, %.1f s" % (self.prop, TIER, "VIOLATED (%d)" % len(self.viol) if self.viol else "held",
                                     time.time() - self.t0), flush=True)
        return 1 if self.viol else 0


def main(fn):
    try:
        rc = fn()
    except Enough:
        rc = 1
    except ToolError as e:
        print("ERROR of the check: %s" % e)
        rc = 1 if VIOLATED else 2      # what was found before stands
    except Exception:
        traceback.print_exc()
        rc = 1 if VIOLATED else 2
    sys.stdout.flush()
    sys.exit(rc)
