"""C15: threads that open and read products at once do not disturb one another."""
from __future__ import annotations

import gc
import os

from ..base import (Prop, Out, Res, fetch, judge, gen_delivery, gen_any, pick,
                    generic_shrinks, check_listing, check_meta, _copy)
from ..sched import Sched, Deadlock
from ..seams import HarnessError
from .. import seams, gen_fits

# (where a shared FITS handle is positioned and read)
ALSO = ("astropy/io/fits/file.py", "astropy/io/fits/hdu/base.py",
        "astropy/io/fits/hdu/image.py", "astropy/io/fits/hdu/table.py")
SKIP = ("pdr/func.py", "pds4_tools/extern/six.py", "pds4_tools/utils/logging.py")


def quiet(fn, *a):
    """as base.call, but without the (process-wide) recording of warnings"""
    try:
        return Res(True, fn(*a))
    except HarnessError:
        raise
    except Exception as ex:
        return Res(False, ex=ex)


class C15(Prop):
    id = "C15"
    quick_n = 1500
    # (the interpreter's line events depend on what has been traced before)
    isolated = True
    thorough_n = 60000
    rule = ("a run lets two to four real threads open and read products under a seeded "
            "scheduler that switches at storage steps, contended locks and lines of the "
            "library; non-trivial when threads were switched while at work; distinct = "
            "distinct switch sequences with their histories")
    assumptions = ["a thread can lose its turn at storage steps, contended locks and line "
                   "boundaries of the library's own code (not inside third-party code "
                   "between storage steps)"]
    components = {**Prop.components,
                  "simulated": Prop.components["simulated"] + ["thread scheduling (real "
                               "threads, one running at a time)", "locks"]}

    def gen(self, rng, i, tier):
        mode = pick(rng, (4, "own"), (2, "same"), (4, "shared"), (4, "clash"))
        nt = rng.choice((2, 2, 2, 3, 4))
        case = {"mode": mode, "sseed": rng.randrange(1 << 30),
                "p_io": rng.choice((0.03, 0.15, 0.5, 1.0)),
                "p_line": rng.choice((0, 0.002, 0.01, 0.05, 0.3)),
                "hot": rng.random() < 0.35,
                "delivery": gen_delivery(rng, 0.6), "dseed": rng.randrange(1 << 30),
                "gone": mode == "own" and rng.random() < 0.2,
                "dirseed": rng.randrange(100)}
        nobj = (1, 4) if mode == "own" else (2, 5)
        if case["hot"]:
            case["p_line"] = rng.choice((0.02, 0.1, 0.3))
            case["p_io"] = rng.choice((0, 0.03, 0.3))
        if mode == "clash":
            w = {"pds3": 6, "pds4": 4, "fits": 2, "img": 1}
        else:
            w = None
            if mode == "shared" and rng.random() < 0.4:
                w = {"fits": 1}
        specs = [gen_any(rng, weights=w, nobj=nobj)
                 for _ in range(nt if mode == "own" else 1)]
        if w == {"fits": 1} and rng.random() < 0.7:
            # a single file handle that is read, not mapped
            specs = [gen_fits.gen(rng, via=("direct",), nobj=nobj)]
            specs[0]["gz"] = True
            case["p_line"] = rng.choice((0.05, 0.3))
        if mode == "clash" and rng.random() < 0.25:
            specs = [gen_fits.gen(rng, via=("pds3", "pds4"), nobj=nobj)]
        if mode == "clash":
            # (label-described products)
            case["load"] = rng.random() < 0.2
        if mode == "own" and rng.random() < 0.3:
            # alike in kind: what is shared per kind is shared
            fam = specs[0]["family"]
            specs = [specs[0]] + [gen_any(rng, weights={fam: 1}, nobj=nobj)
                                  for _ in specs[1:]]
        twins = mode == "own" and rng.random() < .5
        if twins:
            # products of one make, with other contents
            specs = [{**_copy(specs[0]), "seed": rng.randrange(1 << 40)} for _ in specs]
        if rng.random() < (.6 if twins else .3):
            # one thread is set aside somewhere while the others go on; several times
            case["parks"] = [[rng.random(), rng.random()] for _ in range(16)]
            if rng.random() < .7:
                case["p_io"] = case["p_line"] = 0
        case["specs"] = specs
        case["ops"] = []
        for t in range(nt):
            case["ops"].append([[rng.randrange(100), pick(rng, (4, "item"), (2, "attr"),
                                 (2, "load"), (1, "reload"), (1, "meta"), (1, "repr"))]
                                for _ in range(rng.randrange(1, 6))])
        if twins and rng.random() < .6:
            case["ops"] = [_copy(case["ops"][0]) for _ in case["ops"]]
        return case

    def shrinks(self, case):
        for t in range(len(case["ops"])):
            if len(case["ops"]) > 2:
                c = _copy(case)
                del c["ops"][t]
                if case["mode"] == "own":
                    del c["specs"][t]
                yield c
            for j in range(len(case["ops"][t])):
                c = _copy(case)
                del c["ops"][t][j]
                yield c
        if len(case.get("parks", ())) > 1:
            ps = case["parks"]
            yield {**case, "parks": ps[-1:]}
            n = len(ps) // 2
            while n:
                for a in range(0, len(ps), n):
                    if ps[:a] + ps[a + n:]:
                        yield {**case, "parks": ps[:a] + ps[a + n:]}
                n //= 2
        if case.get("switches") is None and case["p_line"]:
            yield {**case, "p_line": 0}
        if case.get("switches"):
            sw = case["switches"]
            n = len(sw) // 2
            while n:
                for a in range(0, len(sw), n):
                    yield {**case, "switches": sw[:a] + sw[a + n:]}
                n //= 2
        if case["mode"] != "own" or len(case["specs"]) == 1:
            for c in generic_shrinks({k: v for k, v in case.items() if k != "ops"}):
                if c["specs"]:
                    yield {**c, "ops": case["ops"]}
        else:
            from ..base import spec_shrinks
            if case["delivery"]:
                yield {**case, "delivery": {}}
            for i, sp in enumerate(case["specs"]):
                for s in spec_shrinks(sp):
                    c = _copy(case)
                    c["specs"][i] = s
                    yield c

    def run(self, case, env):
        out = Out()
        mode, msg = case["mode"], None
        out.nontrivial = False
        worlds = [env.world(s, sub=f"w{j}") for j, s in enumerate(case["specs"])]
        if case["gone"] and len(worlds) > 1:
            files = sorted(os.path.join(d, f) for d, _, fs in
                           os.walk(os.path.join(env.root, "w0")) for f in fs)
            os.unlink(files[case["sseed"] % len(files)])
        # which lines a thread can lose its turn at; "hot": those of the product class
        pref = os.path.dirname(os.path.realpath(env.pdr.__file__)) + os.sep
        if case.get("hot"):
            pref += "pdr.py"
        kw = dict(trace_pref=pref, trace_skip=SKIP, trace_also=ALSO)
        gc.collect()
        gc.disable()
        try:
            spots = [None]
            if case.get("parks"):
                spots = self.places(case, env, kw)
            for j, spot in enumerate(spots):
                sched = Sched(f"{case['sseed']}:{j}", p_io=case["p_io"], p_line=case["p_line"],
                              switches=case.get("switches"), park=spot, **kw)
                msg = self.round(case, env, out, sched, worlds)
                if out.viol or msg:
                    break
        finally:
            gc.enable()
        out.feats.append(mode)
        if case.get("parks"):
            out.feats.append("set-aside")
        if msg and not out.viol:
            out.bad(msg)
            if case.get("parks"):
                out.case_update = {"parks": case["parks"][:j + 1]}
            elif case.get("switches") is None:
                out.case_update = {"switches": sched.switches}
        return out

    def places(self, case, env, kw):
        """where the first thread can be set aside: a function, and a place in it"""
        places = []
        w = env.world(case["specs"][0], sub="wr")
        with env.ctx(case) as ctx:
            ctx.threaded = True
            d = None
            if case["mode"] in ("shared", "clash"):
                d = quiet(env.pdr.read, w.main).value
            ctx.sched = Sched(0, p_io=0, record=places, **kw)
            ctx.sched.run([self.thread(case, 0, w, env.pdr.read, d)])
            ctx.sched = d = None
        byname = {}
        for k, x in enumerate(places):
            byname.setdefault(x.split(":")[0], []).append(k + 1)
        spots = []
        for a, b in case["parks"]:
            ks = byname[sorted(byname)[int(a * len(byname))]] if byname else [0]
            spots.append((0, ks[int(b * len(ks))]))
        return spots

    def round(self, case, env, out, sched, worlds):
        mode, ops = case["mode"], case["ops"]
        read = env.pdr.read
        with env.ctx(case) as ctx:
            ctx.threaded = True
            shared = None
            if mode in ("shared", "clash"):
                r = quiet(read, worlds[0].main)
                if not r.ok:
                    return f"opening the product, alone, {r.text()}"
                shared = r.value
            fns = [self.thread(case, t, worlds[t if mode == "own" else 0], read, shared)
                   for t in range(len(ops))]
            ctx.sched = sched
            stuck = None
            try:
                results = sched.run(fns)
            except Deadlock as ex:
                stuck = str(ex)
            ctx.sched = None
            if stuck is None:
                msg = self.verdict(case, worlds, results, shared)
            else:
                msg = stuck
        out.take(ctx)
        out.sched_points += sched.points
        out.switches += len(sched.switches)
        out.note(sched.switches, stuck)
        if sched.contended:
            out.feats.append("contended")
        if sched.freed:
            out.feats.append("freed")
        out.nontrivial |= len(sched.switches) > len(ops)
        return msg

    def thread(self, case, t, w, read, shared):
        mode, ops = case["mode"], case["ops"][t]
        nt = len(case["ops"])

        def work():
            log = []
            d = shared
            if d is None:
                r = quiet(read, w.main)
                log.append(("open", None, r))
                if not r.ok:
                    return d, log
                d = r.value
            names = list(w.expected)
            if mode == "shared":
                # objects that come out of one file read in one go belong together
                names = names[t::nt]
            if not names:
                return d, log
            for x, how in ops:
                nm = names[x % len(names)]
                if how == "meta":
                    r = quiet(check_meta, w, d)
                    log.append(("meta", None, r))
                    continue
                if how == "repr":
                    r = quiet(repr, d)
                    log.append(("repr", None, r))
                    continue
                if how == "load":
                    if mode == "clash" or nm not in d.unloaded():
                        how = "item"
                if how == "reload" and mode == "clash" and not case.get("load"):
                    how = "attr"
                r = quiet(fetch, d, nm, how)
                if how == "load" and mode == "shared" and r.etype == "AlreadyLoadedError":
                    # (it had come along with another object, meanwhile)
                    r = quiet(fetch, d, nm, "item")
                log.append((how, nm, r))
            return d, log
        return work

    def verdict(self, case, worlds, results, shared):
        mode = case["mode"]
        for t, (st, val) in enumerate(results):
            w = worlds[t if mode == "own" else 0]
            gone = case["gone"] and t == 0 and len(worlds) > 1
            if st == "exc":
                raise HarnessError(f"thread {t}: {type(val).__name__}: {val}")
            if st != "ok":
                return f"thread {t} did not end: {val}"
            d, log = val
            if gone:
                continue
            for how, nm, r in log:
                if nm is None:
                    if not r.ok:
                        return f"thread {t} of {len(results)} ({mode}): {how} {r.text()}"
                    if how == "meta" and r.value:
                        return f"thread {t} of {len(results)} ({mode}): {r.value}"
                    continue
                kind, text = judge(w.expected[nm], d, nm, r)
                if kind != "exact":
                    return f"thread {t} of {len(results)} ({mode}): {nm} by {how}: {text}"
            if d is None:
                continue
            m = check_listing(w, d)
            if m is None:
                r = quiet(check_meta, w, d)
                m = r.value if r.ok else r.text()
            if m:
                return f"thread {t} of {len(results)} ({mode}), afterwards: {m}"
            for nm in (w.expected if t == 0 or shared is None else ()):
                r = quiet(fetch, d, nm, "item")
                kind, text = judge(w.expected[nm], d, nm, r)
                if kind != "exact":
                    return f"thread {t} of {len(results)} ({mode}), afterwards {nm}: {text}"
        return None
