"""Property runner for the Python scripts: hypothesis generates and shrinks JSON-able cases; the minimal failing case is
the replay file. Same command line and result file as the C++ runner (pbt.hpp)."""
import argparse
import json
import os
import sys
import time

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

PROPS = []


class Case:
    """What one evaluation reports about itself."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.note = ""

    def label(self, l):
        self.labels.append(l)


def prop(name, strategy, quick, thorough, rule):
    def deco(f):
        PROPS.append(dict(name=name, strategy=strategy, quick=quick, thorough=thorough, rule=rule, f=f))
        return f
    return deco


def check(cond, *msg):
    if not cond:
        raise AssertionError(" ".join(str(m) for m in msg))


class Timeout(Exception):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay-dir", default=".")
    ap.add_argument("--budget", type=float, default=400)
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--case-timeout")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        for p in PROPS:
            if p["name"] == d["check"]:
                try:
                    p["f"](d["case"], Case())
                except BaseException as e:
                    print("replay %s: FAILS: %s: %s" % (p["name"], type(e).__name__, e))
                    return 1
                print("replay %s: passes" % p["name"])
                return 0
        print("no such check")
        return 2
    t_end = time.time() + a.budget
    checks, violations, truncated = [], [], False
    for i, p in enumerate(PROPS):
        if not p["name"].startswith(a.only):
            continue
        total = max(1, int((p["thorough"] if a.tier == "thorough" else p["quick"]) * a.scale))
        stats = dict(name=p["name"], evaluations=0, distinct_nontrivial=0, discarded=0, rule=p["rule"], finding=False,
                     labels={}, samples=[])
        seen, last, t0 = set(), {}, time.time()
        share = t0 + (t_end - t0) / (len(PROPS) - i)

        def body(case):
            c = Case()
            try:
                p["f"](case, c)
            except BaseException as e:  # SystemExit from a script is a failure as well
                last["case"], last["msg"] = case, "%s: %s" % (type(e).__name__, e)
                raise
            stats["evaluations"] += 1
            for l in c.labels:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
            if c.nontrivial:
                h = hash(json.dumps(case, sort_keys=True))
                if h not in seen:
                    seen.add(h)
                    if len(seen) in (1, 10, 100, 500):
                        stats["samples"].append((c.note or json.dumps(case))[:400])
        done, chunk, failed = 0, 500, False
        while done < total and not failed:  # hypothesis keeps a tree of what it ran: chunks keep it small
            if time.time() > share:
                truncated = True
                break
            n = min(chunk, total - done)
            run = seed(a.seed * 1000003 + i * 7919 + done)(settings(
                max_examples=n, database=None, deadline=None, derandomize=False,
                suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False)(given(p["strategy"])(body)))
            try:
                import io
                import contextlib
                with contextlib.redirect_stdout(io.StringIO()):
                    run()
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt) and not last:
                    raise
                failed = True
                if "case" not in last:
                    print("check %s broke: %r" % (p["name"], e))
                    return 2
                path = os.path.join(a.replay_dir, "%s-%s.replay" % (a.property, p["name"]))
                with open(path, "w") as f:
                    json.dump(dict(property=a.property, check=p["name"], case=last["case"], message=last["msg"]), f,
                              indent=1)
                violations.append(dict(check=p["name"], finding=False, replay=path,
                                       message=last["msg"] + " on " + json.dumps(last["case"])[:300]))
            done += n
        stats["distinct_nontrivial"] = len(seen)
        checks.append(stats)
        print("  %s: %d cases, %d distinct non-trivial, %.2f s" % (
            p["name"], stats["evaluations"], len(seen), time.time() - t0))
    with open(a.out, "w") as f:
        json.dump(dict(checks=checks, violations=violations, truncated=truncated), f)
    return 1 if violations else 0
