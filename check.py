#!/usr/bin/env python3
"""
Decide one property by seeded search over simulated runs.

    check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N]
    check.py --property C01 --replay FILE      run one replay file, exactly

Exit 0: the property held on every run.  Exit 1: a line
`VIOLATION property=<id> replay=<path>`.  Anything else: no answer.
"""
import argparse
import hashlib
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = os.environ.get("VPSIM_PYTHON", "/opt/venv/bin/python")


class Worker:
    def __init__(self, no, hashseed, scratch):
        env = {k: v for k, v in os.environ.items()
               if k in ("PATH", "LANG", "LC_ALL", "TMPDIR", "VPSIM_REPO", "VPSIM_DEBUG")}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
                   MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   PYTHONPATH=HERE, HOME=scratch, MPLCONFIGDIR=os.path.join(scratch, "mpl"),
                   ASTROPY_CONFIGDIR=scratch, XDG_CONFIG_HOME=scratch, XDG_CACHE_HOME=scratch,
                   TZ="UTC")
        env.setdefault("PATH", "/usr/bin:/bin")
        self.hashseed = hashseed
        self.no = no
        err = None if os.environ.get("VPSIM_DEBUG") else \
            open(os.path.join(scratch, f"err{no}.txt"), "ab")
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", "-m", "sim.worker", str(no), scratch], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err)
        self.errfile = err
        self.busy = None
        self.buf = b""

    def recv(self):
        while b"\n" not in self.buf:
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                return None
            self.buf += d
        ln, self.buf = self.buf.split(b"\n", 1)
        return json.loads(ln)

    def ready(self):
        m = self.recv()
        return bool(m and m.get("ready"))

    def send(self, cmd):
        self.busy = cmd
        self.p.stdin.write((json.dumps(cmd) + "\n").encode())
        self.p.stdin.flush()

    def ask(self, cmd):
        self.send(cmd)
        m = self.recv()
        self.busy = None
        if m is None:
            raise SystemExit("a worker process ended unexpectedly")
        return m["results"]

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()


class Pool:
    def __init__(self, seed, n=None, hashseeds=None):
        n = n or max(2, min(8, os.cpu_count() or 2))
        self.scratch = tempfile.mkdtemp(prefix="vpsim-", dir="/dev/shm"
                                        if os.access("/dev/shm", os.W_OK) and
                                        shutil.disk_usage("/dev/shm").free > 1 << 29 else None)
        hs = hashseeds or [int(hashlib.sha256(f"hash:{seed}:{k}".encode())
                               .hexdigest()[:7], 16) for k in range(n)]
        self.workers = [Worker(k, h, self.scratch) for k, h in enumerate(hs)]
        for w in self.workers:
            if not w.ready():
                if w.errfile:
                    sys.stderr.write(open(w.errfile.name, errors="replace").read()[-4000:])
                self.close()
                raise SystemExit("NOTE: the library cannot be imported; no answer")

    def close(self):
        for w in self.workers:
            w.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)


def verdict(r):
    """the violation a result shows, or None"""
    if r.get("viol"):
        return r["viol"]
    if r.get("died"):
        return f"the run did not end properly: {r['died']}"
    return None


def run_alone(w, prop, case, tier, seed, deadline):
    return w.ask({"prop": prop.id, "cases": [case], "tier": tier, "seed": seed,
                  "deadline": deadline})[0]


def shrink(w, prop, case, tier, seed, budget):
    """greedy: take any smaller case that still breaks the property"""
    t0, tried, best = time.time(), 0, case
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        cand, seen = [], set()
        for c in prop.shrinks(best):
            k = json.dumps(c, sort_keys=True)
            if k not in seen and k != json.dumps(best, sort_keys=True):
                seen.add(k)
                cand.append(c)
        for k in range(0, len(cand), 6):
            if time.time() - t0 > budget:
                break
            for c in cand[k:k + 6]:
                tried += 1
                r = run_alone(w, prop, c, tier, seed, min(prop.deadline, 20))
                if r.get("viol"):
                    best, improved = c, True
                    break
                if time.time() - t0 > budget:
                    break
            if improved:
                break
    return best, tried


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--triage", action="store_true",
                    help="only list what shows, by kind (for developing)")
    ap.add_argument("--only", type=int, help="run one index, verbosely")
    a = ap.parse_args()
    from sim.props import get
    prop = get(a.property)
    if a.replay:
        return replay(prop, a)
    t0 = time.time()
    n = a.runs or (prop.thorough_n if a.tier == "thorough" else prop.quick_n)
    cap = float(os.environ.get("VPSIM_CAP", 3000 if a.tier == "thorough" else 240))
    pool = Pool(a.seed)
    try:
        return explore(prop, a, n, cap, pool, t0)
    finally:
        pool.close()


def explore(prop, a, n, cap, pool, t0):
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    cross = getattr(prop, "cross", False)
    known = load_known(prop.id)
    jobs = []
    # fixed cases and known findings first
    fixed = list(prop.explicit())
    for k, c in enumerate(fixed):
        c.setdefault("prop", prop.id)
        c["i"] = -1000 - k
    if fixed:
        jobs.append({"cases": fixed})
    if a.only is not None:
        idx = [a.only]
    else:
        idx = list(range(a.start, a.start + n))
    for k in range(0, len(idx), prop.chunk):
        ch = idx[k:k + prop.chunk]
        jobs.append({"idx": ch})
    if cross:
        # the same runs again, in another process with another hash seed
        jobs = [j for job in jobs for j in ({**job, "half": 0}, {**job, "half": 1})]
    base = {"prop": prop.id, "tier": a.tier, "seed": a.seed, "deadline": prop.deadline}
    order = list(enumerate(jobs))
    results, suspects, errors = [], [], []
    digests = {}
    jobof = {}
    stop = False
    qpos = 0
    halves = {0: [w for k, w in enumerate(pool.workers) if k % 2 == 0],
              1: [w for k, w in enumerate(pool.workers) if k % 2 == 1]}
    pend = {0: [j for j in order if j[1].get("half", 0) == 0],
            1: [j for j in order if j[1].get("half", 0) == 1]}
    capped = False
    while True:
        for k, w in enumerate(pool.workers):
            if w.busy is None and not stop:
                half = k % 2 if cross else 0
                if time.time() - t0 > cap:
                    capped = capped or bool(pend[half])
                    pend[half] = []
                if pend[half]:
                    jn, j = pend[half].pop(0)
                    w.send({**base, **{q: v for q, v in j.items()}})
                    w.jn = jn
        active = [w for w in pool.workers if w.busy is not None]
        if not active:
            break
        rd, _, _ = select.select([w.p.stdout for w in active], [], [], 1.0)
        for w in active:
            if w.p.stdout in rd:
                m = w.recv()
                cmd, w.busy = w.busy, None
                if m is None:
                    raise SystemExit("NOTE: a worker process ended unexpectedly")
                for r in m["results"]:
                    r["hashseed"] = w.hashseed
                    r["job"] = cmd
                    if r.get("error"):
                        errors.append(r)
                    elif verdict(r):
                        suspects.append(r)
                        if len(suspects) >= 4 and not a.triage:
                            stop = True
                    if not r.get("error"):
                        results.append(r)
                    if cross and not r.get("error") and not r.get("died"):
                        o = digests.get(r["i"])
                        if o is None:
                            digests[r["i"]] = r
                        elif o["digest"] != r["digest"] and not o.get("viol") and not r.get("viol"):
                            suspects.append({**r, "viol": "two processes (hash seeds "
                                             f"{o['hashseed']} and {r['hashseed']}) reading "
                                             "equal files saw different things",
                                             "pair": [o["hashseed"], r["hashseed"]],
                                             "digests": [o["digest"], r["digest"]]})
                            if len(suspects) >= 4 and not a.triage:
                                stop = True
    t_search = time.time() - t0
    if a.triage:
        return triage(suspects, errors, results)
    # determinism: the same seeds again, elsewhere, must give the same histories
    recheck = {"runs": 0, "same": 0}
    if not suspects and a.only is None:
        sample = [r for r in results if r.get("digest") and r["i"] >= 0]
        rr = random.Random(f"recheck:{a.seed}")
        sample = rr.sample(sample, min(len(sample), 24 if a.tier == "quick" else 120))
        byhash = {w.hashseed: w for w in pool.workers}
        for r in sample:
            q = byhash[r["hashseed"]].ask({**base, "idx": [r["i"]]})[0]
            recheck["runs"] += 1
            if q.get("digest") == r["digest"]:
                recheck["same"] += 1
            else:
                recheck.setdefault("different", []).append(r["i"])
    # known findings
    kf_lines = []
    w0 = pool.workers[0]
    for e in known:
        if e.get("status") == "fixed" or "case" not in e:
            continue
        r = run_alone(w0, prop, {**e["case"], "prop": prop.id, "i": -1}, a.tier, a.seed,
                      prop.deadline)
        if verdict(r):
            kf_lines.append(f"KNOWN-FINDING: property={prop.id} {e['id']}: {e['what']}")
        else:
            print(f"NOTE: known finding {e['id']} no longer shows: {r.get('error', '')[-300:]}")
    # confirm, minimise, report
    violations, unrepro = [], []
    byhash = {w.hashseed: w for w in pool.workers}
    for r in suspects[:4]:
        v = confirm(prop, a, r, byhash, base, shrink_it=not violations)
        if v is None:
            unrepro.append(r)
        else:
            violations.append(v)
            break
    write_evidence(prop, a, results, errors, violations, recheck, t0, t_search, capped, n,
                   evdir, cross, pool)
    for ln in kf_lines:
        print(ln)
    for v in violations:
        print(f"  run {v['i']}: {v['what']}")
        print(f"VIOLATION property={prop.id} replay={v['path']}")
    for r in unrepro[:5]:
        print(f"NOTE: run {r.get('i')} showed, once, and not again: {verdict(r)}")
    if errors:
        print(f"NOTE: {len(errors)} runs failed in the harness; first (run "
              f"{errors[0].get('i')}):\n{errors[0]['error'][-2500:]}")
    print(f"{prop.id} {a.tier} seed={a.seed}: {len(results)} runs in {t_search:.0f} s, "
          f"{len(violations)} violations, {len(errors)} harness errors, determinism "
          f"recheck {recheck['same']}/{recheck['runs']}"
          + (f" (different: {recheck['different'][:10]})" if recheck.get("different") else ""))
    if violations:
        return 1
    if errors or unrepro:
        return 2
    return 0


def triage(suspects, errors, results):
    import re
    groups = {}
    for r in suspects + errors:
        m = verdict(r) or r["error"][-300:]
        k = re.sub(r"[0-9]+", "#", re.sub(r"'[^']*'|\"[^\"]*\"", "'..'", m))[:150]
        groups.setdefault(k, []).append(r)
    for k, rs in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:40]:
        print(f"{len(rs):5d} {[r.get('i') for r in rs[:4]]} {(verdict(rs[0]) or rs[0]['error'][-400:])[:330]}")
    print(len(results), "runs", len(suspects), "suspects", len(errors), "errors")
    return 2


def confirm(prop, a, r, byhash, base, shrink_it=True):
    """reproduce a suspect in fresh processes, minimise it, write its replay file"""
    w = byhash[r["hashseed"]]
    if r.get("case") is None:
        if r["i"] is None:
            return None
        q = w.ask({**base, "idx": [r["i"]], "want_case": True})[0] if r["i"] >= 0 else \
            {"case": [c for c in prop.explicit()][-1000 - r["i"]]}
        case = q.get("case")
        if case is None:
            case = make_case(prop, a, r["i"])
    else:
        case = r["case"]
    what = verdict(r)
    rec = {"property": prop.id, "seed": a.seed, "tier": a.tier, "i": r["i"],
           "hashseed": r["hashseed"], "prelude": []}
    if r.get("pair"):
        rec["pair"] = r["pair"]
        digs = [run_alone(byhash[h], prop, case, a.tier, a.seed, prop.deadline).get("digest")
                for h in r["pair"]]
        if digs[0] == digs[1]:
            return None
        if shrink_it:
            case = shrink_pair(prop, a, case, [byhash[h] for h in r["pair"]])
        rec.update(case=case, what=what)
    else:
        q = run_alone(w, prop, case, a.tier, a.seed, prop.deadline)
        if verdict(q):
            what = verdict(q)
            if shrink_it and not q.get("died"):
                small, tried = shrink(w, prop, case, a.tier, a.seed, 45)
                q2 = run_alone(w, prop, small, a.tier, a.seed, prop.deadline)
                if verdict(q2):
                    case, what = small, verdict(q2)
                    rec["shrink_tries"] = tried
                    if q2.get("case_update"):
                        # make the schedule explicit, and minimise that too
                        small = {**case, **q2["case_update"]}
                        if verdict(run_alone(w, prop, small, a.tier, a.seed, prop.deadline)):
                            small, tried = shrink(w, prop, small, a.tier, a.seed, 45)
                            q2 = run_alone(w, prop, small, a.tier, a.seed, prop.deadline)
                            if verdict(q2):
                                case, what = small, verdict(q2)
                                rec["shrink_tries"] += tried
            rec.update(case=case, what=what)
        else:
            # needs what ran before it in the same process
            pre = []
            for i in (r["job"].get("idx") or []):
                if i == r["i"]:
                    break
                pre.append(make_case(prop, a, i))
            if not pre:
                return None

            def shows(p):
                qs = w.ask({**base, "cases": p + [case]})
                return next((verdict(x) for x in qs if x.get("i") == case.get("i")
                             and verdict(x)), None)
            if not shows(pre):
                return None
            t0 = time.time()
            step = max(1, len(pre) // 2)
            while time.time() - t0 < 60:
                k, cut = 0, False
                while k < len(pre):
                    p = pre[:k] + pre[k + step:]
                    if len(p) < len(pre) and shows(p):
                        pre, cut = p, True
                    else:
                        k += step
                if step == 1 and not cut:
                    break
                step = max(1, step // 2)
            what = shows(pre)
            if not what:
                return None
            rec.update(case=case, what=what, prelude=pre)
    name = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(HERE, "evidence", "replays", f"{prop.id}-{name}.json")
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1, sort_keys=True)
    return {"i": r["i"], "what": what, "path": path}


def make_case(prop, a, i):
    rng = random.Random(f"{a.seed}:{prop.id}:{i}")
    case = prop.gen(rng, i, a.tier)
    case["i"], case["prop"] = i, prop.id
    return json.loads(json.dumps(case))


def shrink_pair(prop, a, case, ws):
    t0, best, improved = time.time(), case, True
    while improved and time.time() - t0 < 45:
        improved = False
        for c in prop.shrinks(best):
            if time.time() - t0 > 45:
                break
            d = [run_alone(w, prop, c, a.tier, a.seed, 20) for w in ws]
            if all(x.get("digest") for x in d) and d[0]["digest"] != d[1]["digest"]:
                best, improved = c, True
                break
    return best


def replay(prop, a):
    with open(a.replay) as fh:
        rec = json.load(fh)
    hs = rec.get("pair") or [rec["hashseed"]]
    pool = Pool(rec["seed"], hashseeds=hs)
    base = {"prop": prop.id, "tier": rec["tier"], "seed": rec["seed"],
            "deadline": prop.deadline}
    try:
        if rec.get("pair"):
            d = [w.ask({**base, "cases": [rec["case"]]})[0] for w in pool.workers]
            shown = rec["what"] if d[0].get("digest") != d[1].get("digest") else \
                verdict(d[0]) or verdict(d[1])
            err = d[0].get("error") or d[1].get("error")
        else:
            q = pool.workers[0].ask({**base, "cases": rec["prelude"] + [rec["case"]]})
            q = [x for x in q if x.get("i") == rec["case"].get("i")]
            shown, err = verdict(q[-1]), q[-1].get("error")
    finally:
        pool.close()
    if err:
        print(err)
        return 2
    if shown:
        print("  " + shown)
        print(f"VIOLATION property={prop.id} replay={os.path.abspath(a.replay)}")
        return 1
    print(f"{prop.id}: the replayed run shows no violation")
    return 0


def load_known(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as fh:
            for ln in fh:
                ln = ln.strip()
                if ln.startswith("{"):
                    e = json.loads(ln)
                    if e.get("property") == pid:
                        out.append(e)
    return out


def write_evidence(prop, a, results, errors, violations, recheck, t0, t_search, capped, n,
                   evdir, cross, pool):
    fired, benign, feats = {}, {}, {}
    steps = points = switches = 0
    sim = 0.0
    dig, nontriv = set(), set()
    for r in results:
        for k, v in (r.get("fired") or {}).items():
            fired[k] = fired.get(k, 0) + v
        for k, v in (r.get("benign") or {}).items():
            benign[k] = benign.get(k, 0) + v
        for f in r.get("feats") or ():
            feats[f] = feats.get(f, 0) + 1
        steps += r.get("steps") or 0
        sim += r.get("simtime") or 0
        points += r.get("points") or 0
        switches += r.get("switches") or 0
        if r.get("digest"):
            dig.add(r["digest"])
            if r.get("nontrivial"):
                nontriv.add(r["digest"])
    samples = [{"run": r["i"], "steps": r.get("steps"), "fired": r.get("fired"),
                "objects": (r.get("feats") or [])[:12]}
               for r in results if r.get("nontrivial")][:5]
    ev = {
        "property": prop.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontriv),
            "rule": prop.rule,
            "samples": samples,
            "runs_planned": n,
            "stopped_by_time_cap": capped,
            "seeds_per_hour": int(len(results) / max(t_search, 1e-9) * 3600),
            "simulated_steps": steps,
            "simulated_time_s": round(sim, 3),
            "scheduling_points": points,
            "context_switches": switches,
            "distinct_event_histories": len(dig),
            "faults_injected": fired,
            "benign_delivery_events": benign,
            "features": dict(sorted(feats.items(), key=lambda kv: -kv[1])[:80]),
            "determinism_recheck": recheck,
            "processes": {"workers": len(pool.workers),
                          "hash_seeds": [w.hashseed for w in pool.workers],
                          "same_runs_in_two_processes": cross},
            "components": prop.components,
            "harness_errors": len(errors),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": prop.assumptions,
        "violations": len(violations),
    }
    p = os.path.join(evdir, f"{prop.id}.json")
    with open(p + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
