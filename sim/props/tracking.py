"""C18: debug mode and load tracking only observe."""
from __future__ import annotations

import datetime
import json
import os
import random
import types

from ..base import (Prop, Out, call, fetch, judge, gen_delivery, gen_any, pick,
                    fingerprint, check_listing, _copy)
from ..world import tree, Arr
from .. import seams
from .faults import C08

LOGFAULTS = ("ENOSPC", "EIO", "EDQUOT")


class SimDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return datetime.datetime.fromtimestamp(seams.sim_time(), tz)


class elsewhere:
    """default logs go to a scratch directory; their clock is simulated"""

    def __init__(self, default, root):
        self.default, self.root = default, root + os.sep

    def __enter__(self):
        import dustgoggles.tracker as t
        self.t, self.init, self.dt = t, t.Tracker.__init__, t.dt
        init, default, root = self.init, self.default, self.root

        def redirected(self, name=None, identifier="", outdir=None):
            if outdir is None or not str(outdir).startswith(root):
                outdir = type(outdir)(default) if outdir is not None else None
                if outdir is None:
                    from pathlib import Path
                    outdir = Path(default)
            init(self, name, identifier, outdir)
        t.Tracker.__init__ = redirected
        t.dt = types.SimpleNamespace(datetime=SimDatetime)
        return self

    def __exit__(self, *a):
        self.t.Tracker.__init__, self.t.dt = self.init, self.dt
        seams.CLOCK = None


class C18(Prop):
    id = "C18"
    quick_n = 1800
    thorough_n = 60000
    rule = ("a run reads a product plainly, then with debugging and/or tracking on under a "
            "seeded, jumping clock and the same requests, without or with failing storage, "
            "and compares objects, listing, metadata and the log; non-trivial when an object "
            "was loaded by a tracked loader; distinct = distinct histories")
    assumptions = ["only loads by the library's PDS3 loaders are tracked, by design"]

    def gen(self, rng, i, tier):
        fault = pick(rng, (6, None), (4, "victim"), (1, "log"))
        spec = gen_any(rng, weights={"pds3": 9, "pds4": 2, "fits": 3, "img": 2}, odd=0,
                       nobj=(1, 6) if fault != "victim" else (2, 6))
        if spec["family"] in ("fits", "img") and rng.random() < 0.6:
            spec["via"] = "pds3"
            if spec["family"] == "fits":
                spec["gz"] = False
                spec.setdefault("ptr", "rec")
                spec.setdefault("hdrobj", True)
                if rng.random() < .4:
                    spec["lsc"] = {f"U{k}_IMAGE": [("SCALING_FACTOR", 2.5), ("OFFSET", -3.0)]
                                   for k in range(len(spec["hdus"]))}
                if all(h["kind"] == "stub" for h in spec["hdus"]):
                    spec["hdrobj"] = True
            else:
                spec["frames"], spec["nimg"] = 1, 2
                spec["lsc"] = rng.random() < .4
        ops = []
        for _ in range(rng.randrange(1, 12)):
            ops.append([pick(rng, (5, "item"), (3, "attr"), (3, "load"), (3, "reload"),
                             (1, "all"), (1, "meta"), (1, "again"), (1, "unknown"), (2, "scaled"),
                             (1, "reopen"), (1, "pause")),
                        rng.randrange(100)])
        mode = pick(rng, (4, "both"), (3, "default"), (3, "tracker"))
        return {"spec": spec, "ops": ops, "delivery": gen_delivery(rng, 0.6),
                "dseed": rng.randrange(1 << 30), "mode": mode,
                "fault": rng.choice(("EIO", "EACCES", "EMFILE", "ENOENT", "vanish", "short",
                                     "once", "MEM")) if fault == "victim" else fault,
                "errno": rng.choice(LOGFAULTS), "nth": rng.randrange(6),
                "victim": rng.randrange(100), "clock": rng.randrange(1 << 30),
                "start": rng.choice((0.0, 1e9, 1.7e9, 4e9)),
                "jump": rng.choice((0, 0.1, 0.5)), "shared": rng.random() < 0.3,
                "stale": rng.random() < 0.3}

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        root = env.root
        for s in ("logs", "default", "cwd"):
            os.makedirs(os.path.join(root, s), exist_ok=True)
        with env.ctx(case) as ctx:
            plain = self.plain(case, env, w)
        if isinstance(plain, str):
            return out.bad(plain)
        here = os.getcwd()
        os.chdir(os.path.join(root, "cwd"))
        before = tree(root)
        try:
            with elsewhere(os.path.join(root, "default"), os.path.realpath(root)), \
                    env.ctx(case) as ctx:
                seams.CLOCK = seams.Clock(case["clock"], start=case["start"] + 1e6,
                                          jump=case["jump"])
                msg = self.drive(case, env, w, ctx, plain, out)
                ctx.heal()
                out.simtime += seams.CLOCK.covered
                audit = list(ctx.audit)
                shrunk = "file_shrinks" in ctx.fired
            out.take(ctx)
            logs = ("logs", "default")
            for p, v in tree(root).items():
                d = p.split(os.sep)[0]
                if d in logs and p.rstrip("/") != d:
                    if os.path.join(root, p) not in self.logfiles:
                        msg = msg or f"tracking created {p}"
                elif p not in before:
                    msg = msg or f"tracking created {p}"
                elif before[p] != v and not (shrunk and not p.startswith("logs")):
                    msg = msg or f"tracking changed {p}"
            for ev in audit:
                if ev[0] == "mmap":
                    continue
                p = os.path.normpath(os.path.join(root, "cwd", str(ev[1])))
                if ev[0] == "os.mkdir" and p in (os.path.join(ctx.root, x) for x in logs):
                    continue        # (it exists)
                if p not in self.logfiles and p != os.devnull:
                    msg = msg or f"tracking caused {ev[0]} of {p}"
        finally:
            os.chdir(here)
        out.nontrivial = self.tracked > 0
        if msg:
            out.bad(f"{msg} (mode {case['mode']}, fault {case['fault']})")
        return out

    # -- the same requests, unobserved --
    def plain(self, case, env, w):
        r = call(env.pdr.read, w.main)
        if not r.ok:
            return f"opening the product {r.text()}"
        return self.requests(case, env, w, r.value, None)

    def requests(self, case, env, w, d, hook):
        res = []
        for j, (op, x) in enumerate(case["ops"]):
            names = [k for k in w.expected]
            nm = names[x % len(names)]
            if op == "reopen":
                if hook:
                    r = call(hook.open)
                else:
                    r = call(env.pdr.read, w.main)
                if r.ok:
                    d = r.value
                res.append((op, None, r, None, d))
                continue
            if op == "pause":
                if hook:
                    hook.pause(d)
                continue
            fresh = nm in list(d.unloaded()) or op == "reload"
            if op == "scaled" and not isinstance(w.expected[nm], Arr):
                op = "item"
            if op in ("item", "attr", "reload"):
                r = call(fetch, d, nm, op)
            elif op == "scaled":
                r = call(d.get_scaled, nm)
            elif op in ("load", "again"):
                r = call(fetch, d, nm, "load") if fresh or op == "again" else \
                    call(fetch, d, nm, "item")
            elif op == "all":
                fresh = [k for k in d.unloaded()]
                r = call(lambda: d.load("all"))
            elif op == "meta":
                r = call(lambda: [(k, str(v)) for k, v in d.metadata.items()])
                fresh = False
            else:
                r = call(lambda: d[f"NO_SUCH_{x}"])
                fresh = False
            res.append((op, nm, r, fresh, d))
            if hook:
                m = hook.after(op, nm, r, fresh, d)
                if m:
                    return m
        res.append(("end", None, None, None, d))
        return res

    # -- observed --
    def drive(self, case, env, w, ctx, plain, out):
        import dustgoggles.tracker as t
        from pathlib import Path
        prop = self
        self.tracked = 0
        mode = case["mode"]
        self.logfiles = set()
        debug = mode != "tracker"
        stem = Path(plain[-1][-1].filename).name.replace(".", "_")
        deflog = os.path.join(ctx.root, "default", f"{stem}.json")
        ownlog = os.path.join(ctx.root, "logs", "case.json")
        if case["stale"]:
            # an earlier session's log
            with seams.real_open(deflog, "w") as fh:
                fh.write('[{"name": "old", "history": []}]')
        logfile = deflog if mode == "default" else ownlog
        self.logfiles.add(logfile)
        if case["stale"]:
            self.logfiles.add(deflog)
        tracker = None
        if mode != "default":
            tracker = t.Tracker("case", outdir=Path(ctx.root, "logs"))

        class hook:
            loads = []          # (name, ok) since the log began
            count = 0
            paused = False
            damaged = False

            @staticmethod
            def open():
                kw = {"debug": True} if debug else {}
                if tracker is not None:
                    kw["tracker"] = tracker
                if mode == "default":
                    # (the log starts anew; what a product has recorded is its own)
                    hook.loads, hook.count = [], 0
                d = env.pdr.read(w.main, **kw)
                if mode == "default":
                    hook.paused = False
                return d

            @staticmethod
            def pause(d):
                hook.paused = not hook.paused
                d.tracker.paused = hook.paused

            @staticmethod
            def after(op, nm, r, fresh, d):
                out.note(op, nm, r.ok, r.etype)
                out.feats.append(op if r.ok else op + ":failed")
                if op == "all":
                    done = [k for k in (fresh or ()) if k in vars(d)]
                else:
                    done = [nm] if fresh and (r.ok or r.warns) else []
                if d.standard != "PDS3":
                    done = []
                for k in done:
                    v = vars(d).get(k)
                    kind = judge(w.expected[k], d, k, call(lambda: v))[0] \
                        if k in w.expected else None
                    if not hook.paused:
                        hook.loads.append((k, kind == "exact"))
                return prop.check_log(case, w, d, hook, logfile, out)

        r = call(hook.open)
        if not r.ok:
            return f"opening the product with debugging or tracking {r.text()}"
        d = r.value
        rng = random.Random(case["dseed"])
        f = case["fault"]
        victims = set()
        if f == "log":
            rel = os.path.relpath(logfile, ctx.root)
            ctx.arm([{"kind": "ERR", "errno": case["errno"], "path": rel, "op": "write",
                      "nth": case["nth"]}], 1)
        elif f:
            names = list(w.expected)
            vf = w.expected[names[case["victim"] % len(names)]].file
            victims = {n for n in names if w.expected[n].file == vf}
            if vf == w.main or vf == w.label_path_or_none():
                # (the file that is opened has to be there for reopening)
                f = "once" if f in ("vanish", "ENOENT", "short") else f
            C08().inject({"fault": f}, ctx, os.path.relpath(vf, ctx.root), vf, rng)
        got = self.requests(case, env, w, d, hook)
        if isinstance(got, str):
            return got
        d = got[-1][-1]
        if not f:
            return self.compare(w, plain, got)
        # failing storage: what did not fail is as ever, what did is reported
        for op, nm, r, fresh, dd in got:
            if op in ("item", "attr", "load", "reload") and nm in w.expected:
                k, text = judge(w.expected[nm], dd, nm, r, prefix_ok=True)
                if r.etype == "AlreadyLoadedError":
                    continue
                if f == "log":
                    if k != "exact":
                        return f"{nm}, while the log could not be written: {text}"
                    continue
                if nm in victims:
                    if k == "bad" and fresh and f != "short":
                        return f"{nm}, whose file failed, {text}"
                elif k != "exact":
                    return f"{nm}, whose file did not fail, {text}"
        ctx.heal()
        for nm in w.expected:
            k, text = judge(w.expected[nm], d, nm, call(fetch, d, nm, "reload"))
            out.feats.append("healed")
            if k != "exact":
                return f"after the fault ended, reloading {nm}: {text}"
        return check_listing(w, d)

    def compare(self, w, plain, got):
        if len(plain) != len(got):
            return "the sequence of requests differs"
        for (op, nm, a, _, da), (_, _, b, _, db) in zip(plain, got):
            if a is not None:
                if a.ok != b.ok or a.etype != b.etype:
                    return f"{op} {nm} {b.text()}; unobserved it {a.text()}"
                if op == "reopen":
                    continue
                if a.ok and op != "all" and fingerprint(a.value) != fingerprint(b.value):
                    return f"{op} {nm} gives {b.value!r:.200}; unobserved {a.value!r:.200}"
        da, db = plain[-1][-1], got[-1][-1]
        for what, fn in (("listing", lambda d: list(d.keys())),
                         ("list of unloaded objects", lambda d: list(d.unloaded())),
                         ("metadata", lambda d: [(k, str(v)) for k, v in d.metadata.items()]),
                         ("description", lambda d: repr(d))):
            a, b = call(fn, da), call(fn, db)
            if a.ok != b.ok or a.ok and a.value != b.value:
                return f"the {what} is {b.value!r:.300}; unobserved {a.value!r:.300}"
        return None

    def check_log(self, case, w, d, hook, logfile, out):
        if case["fault"] == "log":
            return None
        n = len(hook.loads)
        if hook.count == n:
            return None
        new = hook.loads[hook.count:]
        hook.count = n
        if not os.path.exists(logfile):
            if not any(ok for _, ok in new):
                return None         # nothing came to be loaded
            return f"no log was written of loading {new}"
        try:
            with seams.real_open(logfile, "r") as fh:
                log = json.load(fh)
        except ValueError as ex:
            return f"the log is not well formed: {ex}"
        if not isinstance(log, list) or not all(isinstance(e, dict) for e in log):
            return "the log is not a list of entries"
        last = log[-1]
        hist = last.get("history")
        if not isinstance(hist, list):
            return "the log's last entry has no history"
        for e in log:
            for k in ("init_timestamp", "write_timestamp"):
                if k in e:
                    datetime.datetime.fromisoformat(e[k])
        self.tracked += len(new)
        counts = [h.get("trackcount") for h in hist]
        if counts != sorted(set(counts)):
            return f"the log's entries are numbered {counts}"
        for nm in {k for k, _ in hook.loads}:
            ok = sum(1 for k, o in hook.loads if k == nm and o)
            mine = [h for h in hist if h.get("obj") == nm]
            good = [h for h in mine if h.get("status") == "load_ok"]
            other = getattr(d, "_companions", {}).get(nm)
            if other is not None:
                good += [h for h in hist if h.get("obj") == other
                         and h.get("status") == "load_ok"]
            if len(good) < ok:
                return (f"{nm} was loaded {ok} times; the log has {len(good)} such entries "
                        f"({[(h.get('obj'), h.get('status')) for h in hist][-8:]})")
            exp = w.expected.get(nm)
            for h in mine:
                if exp is not None and os.path.basename(str(h.get("filename"))).lower() != \
                        os.path.basename(exp.file).lower():
                    return (f"the log says {nm} was loaded from {h.get('filename')}, not "
                            f"{exp.file}")
                if not h.get("target"):
                    return f"the log's entry of {nm} does not say what loaded it"
        return None
