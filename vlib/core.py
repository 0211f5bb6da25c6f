"""Generated-input search with Hypothesis: one job = one sub-check, one shard, one process."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

from . import boot


CASEFILE = None


class Violation(AssertionError):
    """Raised by an oracle: the code under test broke the property."""


class HarnessError(Exception):
    """The machinery itself is broken: an error of the check, not of the code."""


class Inconclusive(Exception):
    """The oracle itself could not decide this case (counted, never reported)."""


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


class Sub:
    """One executable form of a property.

    gen(st) -> hypothesis strategy of JSON-able cases; run(case) judges a case;
    nontrivial(case) is the stated rule; quick/thorough: number of cases.
    """

    def __init__(self, name, gen, run, quick, thorough, rule, nontrivial=None, labels=None,
                 shards=None, budget=(300, 3000)):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough = quick, thorough
        self.rule = rule
        self.nontrivial = nontrivial or (lambda c: True)
        self.labels = labels or (lambda c: [])
        self.shards = shards or (1, 8)
        self.budget = budget


def canon(case):
    return json.dumps(case, sort_keys=True, default=_js)


def _js(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(repr(o))


def key_of(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def in_tree(tb):
    tree = os.environ.get("VERIF_TREE", boot.REPO)
    deep = False
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(os.path.join(tree, "shenfun")):
            deep = True
    return deep


def judge(sub, case):
    """Run one case. Returns None, or a description of the violation.
    Harness errors propagate."""
    import numpy as np
    if CASEFILE:     # what was running, should the process die or hang
        with open(CASEFILE, "w") as f:
            json.dump(dict(case=case), f, default=_js)
    np.random.seed(0)
    random.seed(0)
    cwd = os.getcwd()
    try:
        sub.run(case)
    except Violation as e:
        return "%s" % e
    except Inconclusive:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = sys.exc_info()[2]
        if in_tree(tb):
            last = [f for f in traceback.extract_tb(tb)
                    if '/shenfun/' in f.filename][-1]
            return "valid input raised %s: %s (at %s:%s)" % (
                type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.name)
        if isinstance(e, HarnessError) or not isinstance(e, Exception):
            raise
        last = traceback.extract_tb(tb)[-1]
        return "the result could not be compared with the oracle, %s: %s (at %s:%d)" % (
            type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.lineno)
    finally:
        os.chdir(cwd)
    return None


def load(prop):
    import importlib
    m = importlib.import_module("checks.%s" % prop.lower())
    return m, {s.name: s for s in m.SUBS}


class _Found(Exception):
    pass


def run_job(prop, subname, seed, n, tier, budget):
    boot.find_hypothesis()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    m, subs = load(prop)
    sub = subs[subname]
    t0 = time.time()
    st = dict(evals=0, nontriv=set(), labels={}, samples=[], inconclusive=0, skipped=0,
              best=None, msg=None, tfail=None, history=[])
    shrink_budget = 60 if tier == "quick" else 240

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
    @given(sub.gen())
    def prop_test(case):
        c = canon(case)
        if st["best"] is None and time.time() - t0 > budget:
            st["skipped"] += 1
            return
        if st["tfail"] is not None and time.time() - st["tfail"] > shrink_budget:
            if c == st["best"]:
                raise _Found()
            return
        if st["best"] is None:
            st["evals"] += 1
            st["history"].append(c)
            try:
                nt = sub.nontrivial(case)
            except Exception:
                nt = False
            if nt:
                st["nontriv"].add(key_of(case))
            for l in sub.labels(case):
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if len(st["samples"]) < 2 and nt:
                st["samples"].append(json.loads(c))
        try:
            msg = judge(sub, json.loads(c))
        except Inconclusive:
            st["inconclusive"] += 1
            return
        if msg is not None:
            st["best"], st["msg"] = c, msg
            if st["tfail"] is None:
                st["tfail"] = time.time()
                st["first"] = (c, msg)
            raise _Found()

    err = None
    try:
        prop_test()
    except _Found:
        pass
    except BaseException as e:
        if st["best"] is None:
            err = traceback.format_exc()
        # Flaky etc. after a real failure: keep the recorded failure
    res = dict(sub=subname, evals=st["evals"], nontriv=sorted(st["nontriv"]), labels=st["labels"],
               samples=st["samples"], inconclusive=st["inconclusive"], skipped=st["skipped"],
               error=err, wall=time.time() - t0)
    if st["best"] is not None:
        res["fail"] = dict(case=json.loads(st["best"]), msg=st["msg"],
                           first=json.loads(st["first"][0]), first_msg=st["first"][1],
                           history=[json.loads(h) for h in st["history"]])
    return res


def replay_cases(prop, subname, cases):
    """Plain regression check, no Hypothesis search. Last case is the deciding one."""
    m, subs = load(prop)
    sub = subs[subname]
    msg = None
    for c in cases:
        try:
            msg = judge(sub, c)
        except Inconclusive:
            msg = None
    return msg


def main():
    a = json.loads(sys.argv[1])
    os.chdir(os.path.join(os.environ["VERIF_SCRATCH"], "cwd"))
    out = a["out"]
    global CASEFILE
    CASEFILE = out + ".case"
    if a["op"] == "job":
        r = run_job(a["prop"], a["sub"], a["seed"], a["n"], a["tier"], a["budget"])
    elif a["op"] == "replay":
        boot.find_hypothesis()
        r = dict(msg=replay_cases(a["prop"], a["sub"], a["cases"]))
    elif a["op"] == "list":
        boot.find_hypothesis()
        m, subs = load(a["prop"])
        r = dict(subs=[dict(name=s.name, quick=s.quick, thorough=s.thorough, rule=s.rule,
                            shards=s.shards, budget=s.budget) for s in m.SUBS],
                 assumptions=getattr(m, "ASSUMPTIONS", []))
    with open(out + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    from vlib import core   # one module object, shared with the check modules
    core.main()
