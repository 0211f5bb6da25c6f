#!/opt/venv/bin/python
"""run.py PROP [--replay FILE] [--sub NAME] [--n N] : decide one property on /repo's current tree."""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import boot  # noqa

PY = boot.PY
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


QUICK = 0.7      # share of the quick counts and budgets (so that all checks fit together)


class Pool:
    def __init__(self, env, scratch):
        self.env, self.scratch, self.k = env, scratch, 0

    def start(self, args, timeout):
        self.k += 1
        out = os.path.join(self.scratch, "out%d.json" % self.k)
        log = open(os.path.join(self.scratch, "log%d" % self.k), "wb")
        args = dict(args, out=out)
        ses = os.path.join(self.scratch, "m%d" % self.k)     # workers must not share a session directory
        os.makedirs(ses, exist_ok=True)
        env = dict(self.env, OMPI_MCA_orte_tmpdir_base=ses)
        p = subprocess.Popen([PY, "-m", "vlib.core", json.dumps(args)], cwd=HERE, env=env,
                             stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        return dict(p=p, out=out, log=log.name, t0=time.time(), timeout=timeout, args=args)

    def kill(self, h):
        try:
            os.killpg(h["p"].pid, 9)
        except OSError:
            pass
        h["p"].wait()

    def result(self, h, rc=None):
        if os.path.exists(h["out"]):
            with open(h["out"]) as f:
                return json.load(f)
        with open(h["log"], "rb") as f:
            tail = f.read()[-3000:].decode(errors="replace")
        return dict(crash=True, rc=rc or h["p"].returncode, tail=tail, case=self.case(h))

    def case(self, h):
        try:
            with open(h["out"] + ".case") as f:
                return json.load(f)["case"]
        except (OSError, ValueError):
            return None

    def one(self, args, timeout=600):
        h = self.start(args, timeout)
        try:
            h["p"].wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill(h)
            return self.result(h, "timeout")
        return self.result(h)

    def run_all(self, jobs):
        todo, live, done = list(jobs), [], []
        while todo or live:
            while todo and len(live) < NPROC:
                a, to = todo.pop(0)
                live.append(self.start(a, to))
            time.sleep(0.05)
            for h in list(live):
                if h["p"].poll() is not None:
                    live.remove(h)
                    r = self.result(h)
                    if r.get("crash") and "MPI_INIT" in r["tail"] and not h["args"].get("again"):
                        todo.append((dict(h["args"], again=1), h["timeout"]))
                        continue
                    done.append((h, r))
                elif time.time() - h["t0"] > h["timeout"]:
                    self.kill(h)
                    live.remove(h)
                    done.append((h, self.result(h, "timeout")))
        return done


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--n", type=int)
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    prop = o.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch, env, tree = boot.make_env()
    pool = Pool(env, scratch)
    rc = 2
    try:
        rc = decide(o, prop, tier, seed, pool, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(o, prop, tier, seed, pool, t0):
    if o.replay:
        with open(o.replay) as f:
            r = json.load(f)
        res = pool.one(dict(op="replay", prop=prop, sub=r["sub"], cases=r["cases"]))
        if res.get("crash"):
            print(res)
            return 2
        if res["msg"]:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(o.replay)))
            print("  " + res["msg"])
            return 1
        print("replay: the property holds on this case")
        return 0

    info = pool.one(dict(op="list", prop=prop))
    if info.get("crash"):
        # the package cannot even be imported / the harness is broken
        print("ERROR: cannot start: %s" % info["tail"])
        return 2
    subs = info["subs"]
    if o.sub:
        subs = [s for s in subs if s["name"] in o.sub.split(",")]
    ti = 0 if tier == "quick" else 1
    jobs = []
    for s in subs:
        n = int(QUICK*s["quick"]) if tier == "quick" else s["thorough"]
        if o.n:
            n = o.n
        sh = max(1, min(s["shards"][ti], n))
        for k in range(sh):
            nk = n // sh + (1 if k < n % sh else 0)
            hs = hashlib.sha256(("%s/%s/%d/%d" % (prop, s["name"], seed, k)).encode()).digest()
            jobs.append((s["quick"] if tier == "quick" else 1,
                         (dict(op="job", prop=prop, sub=s["name"], seed=int.from_bytes(hs[:6], "big"),
                               n=nk, tier=tier, budget=s["budget"][ti]*(QUICK if tier == "quick" else 1)),
                          s["budget"][ti] + (240 if tier == "quick" else 900))))
    done = pool.run_all([j for _, j in jobs])
    order = {j[1][0]["seed"]: i for i, j in enumerate(jobs)}
    done.sort(key=lambda x: order[x[0]["args"]["seed"]])

    evals = skipped = inconcl = 0
    nontriv, labels, samples, persub, viol, errors = set(), {}, [], {}, [], []
    crashes = []
    for h, r in done:
        name = h["args"]["sub"]
        ps = persub.setdefault(name, dict(evaluations=0, nontrivial=0, wall_s=0.0, skipped=0, inconclusive=0))
        if r.get("crash"):
            c = r.get("case")
            if c is not None and (r["rc"] == "timeout" or r["rc"] < 0):
                # the code under test killed or hung the process: decide by replaying
                r2 = pool.one(dict(op="replay", prop=prop, sub=name, cases=[c]), timeout=200)
                if r2.get("crash") and (r2["rc"] == "timeout" or r2["rc"] < 0):
                    crashes.append((name, c, "the process %s on a valid input" % (
                        "did not finish" if r2["rc"] == "timeout" else "was killed by signal %d" % -r2["rc"])))
                    continue
            errors.append((name, "worker ended rc=%s\n%s" % (r["rc"], r["tail"])))
            continue
        if r["error"]:
            errors.append((name, r["error"]))
        evals += r["evals"]
        inconcl += r["inconclusive"]
        skipped += r["skipped"]
        nt = {name + ":" + k for k in r["nontriv"]}
        ps["evaluations"] += r["evals"]
        ps["nontrivial"] += len(nt)
        ps["wall_s"] = round(ps["wall_s"] + r["wall"], 1)
        ps["skipped"] += r["skipped"]
        ps["inconclusive"] += r["inconclusive"]
        nontriv |= nt
        for k, v in r["labels"].items():
            labels[name + ":" + k] = labels.get(name + ":" + k, 0) + v
        samples += [dict(sub=name, case=c) for c in r["samples"][:1]]
        if r.get("fail"):
            viol.append((name, r["fail"]))

    for k in load_known(prop):
        if o.sub:
            continue
        res = pool.one(dict(op="replay", prop=prop, sub=k["sub"], cases=k["cases"]))
        if res.get("crash"):
            errors.append((k["sub"], "known finding: " + str(res)))
        elif res["msg"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    nv = 0
    rep = os.path.join(HERE, "replays")
    for name, f in viol:
        os.makedirs(rep, exist_ok=True)
        # decide with a fresh process: the shrunk case, else the first one, else the history
        chosen = None
        for cases in ([f["case"]], [f["first"]], f["history"]):
            res = pool.one(dict(op="replay", prop=prop, sub=name, cases=cases), timeout=900)
            if not res.get("crash") and res["msg"]:
                chosen = (cases, res["msg"])
                break
        note = ""
        if chosen is None:
            chosen = (f["history"], f["first_msg"])
            note = " (seen in the search, not reproduced by replaying its history)"
        hid = hashlib.sha256(json.dumps(chosen[0], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rep, "%s-%s-%s.json" % (prop, name, hid))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, sub=name, cases=chosen[0], message=chosen[1]), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s%s" % (name, chosen[1], note))
        print("  case: %s" % json.dumps(chosen[0][-1])[:600])
        nv += 1
    for name, c, msg in crashes:
        os.makedirs(rep, exist_ok=True)
        hid = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rep, "%s-%s-%s.json" % (prop, name, hid))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, sub=name, cases=[c], message=msg), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s" % (name, msg))
        nv += 1
    for name, e in errors:
        print("ERROR in sub-check %s:\n%s" % (name, e))

    wall = time.time() - t0
    rules = "; ".join("%s: %s" % (s["name"], s["rule"]) for s in subs)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=rules,
                            samples=samples[:24], per_sub_check=persub, labels=labels,
                            skipped_over_budget=skipped, inconclusive=inconcl,
                            harness_errors=len(errors)),
              assumptions=info["assumptions"], wall_s=round(wall, 2), violations=nv)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not o.sub:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d errors, %.1fs" % (
        prop, tier, seed, evals, len(nontriv), nv, len(errors), wall))
    if o.v or o.sub:
        print(json.dumps(persub))
        print(json.dumps(labels, sort_keys=True))
    if nv:
        return 1
    if errors:
        return 2
    if evals == 0:
        return 2
    return 0


if __name__ == "__main__":
    main()
