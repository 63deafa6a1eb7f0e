"""C17: equal files give equal results in every process and after any history."""
from __future__ import annotations

import gc
import os
import random
import re
import shutil

from ..base import (Prop, Out, call, fetch, judge, gen_delivery, gen_any, pick,
                    fingerprint, check_listing, check_meta, materialize, spec_shrinks, _copy)
from .. import seams, enc
from .faults import draw_fault

IDKEYS = ("INSTRUMENT_ID", "INSTRUMENT_NAME", "INSTRUMENT_HOST_NAME", "SPACECRAFT_NAME",
          "TARGET_NAME", "DATA_SET_NAME", "PRODUCT_TYPE", "FILTER_NAME", "MISSION_NAME")
URIS = ("http://vpsim.example/geom/v1", "http://vpsim.example/geom/v2",
        "http://vpsim.example/img/v1", "http://vpsim.example/cart/v7")
PREFIXES = ("geom", "img", "cart", "zz", "disp")


def gen_meta(rng):
    """statements whose values are sets, or sequences with sets in them"""
    out = []
    for k in rng.sample(IDKEYS, rng.randrange(1, 4)):
        ws = [f'"{enc.word(rng, rng.randrange(2, 9))}"' for _ in range(rng.randrange(2, 7))]
        style = rng.random()
        if style < 0.6:
            v = "{" + ", ".join(ws) + "}"
        elif style < 0.8:
            v = "(" + ", ".join(ws) + ")"
        else:
            v = "{" + ", ".join(str(rng.randrange(10000)) for _ in ws) + "}"
        out.append([k, v])
    return out


def gen_ns(rng):
    ps = rng.sample(PREFIXES, rng.randrange(1, 3))
    us = rng.sample(URIS, len(ps))
    return [[p, u, [[rng.choice(("angle", "kind", "name", "mode")) + str(j),
                     enc.word(rng, 5)] for j in range(rng.randrange(1, 4))]]
            for p, u in zip(ps, us)]


def dress(rng, spec):
    if spec["family"] == "pds3" and rng.random() < 0.5:
        spec["extra_meta"] = gen_meta(rng)
    if spec["family"] == "pds4" and rng.random() < 0.7:
        spec["ns"] = gen_ns(rng)
    return spec


def altered(rng, spec):
    """a product of the same names whose tables are laid out in another way"""
    new = _copy(spec)
    for o in new.get("objs") or new.get("hdus") or ():
        cols = o.get("cols") or o.get("fields")
        if not isinstance(cols, list) or not all(
                isinstance(c, dict) and isinstance(c.get("name"), str) for c in cols):
            continue
        r = rng.random()
        if r < .4:
            cols.reverse()
        elif r < .8:
            c = rng.choice(cols)
            if c["name"] != "SAME":
                c["name"] = "N" + c["name"][1:][::-1]
        elif len(cols) > 2:
            del cols[rng.randrange(len(cols))]
    return new


class C17(Prop):
    id = "C17"
    cross = True
    quick_n = 1100
    thorough_n = 40000
    chunk = 12
    rule = ("every run is done in two processes with different hash seeds; it observes one "
            "product whole, and again in other surroundings (directory order, working "
            "directory, clock, random state) and after a seeded history of other products, "
            "failures and file replacements; all observations must agree; non-trivial when "
            "a second observation was made; distinct = distinct observation digests")
    assumptions = ["warning texts and file names are not results"]

    def gen(self, rng, i, tier):
        spec = dress(rng, gen_any(rng, nobj=(1, 4)))
        swap = rng.random() < 0.55
        if swap and spec["family"] == "pds3":
            for o in spec["objs"]:
                if "fmt" in o and not o["fmt"] and rng.random() < 0.5 and not any(
                        "container" in c or c["name"] == "SAME" for c in o["cols"]):
                    o["fmt"] = rng.choice(("same", "lower", "labeldir"))
        case = {"spec": spec, "order": rng.randrange(1 << 30),
                "delivery": gen_delivery(rng, 0.8), "dseed": rng.randrange(1 << 30),
                "clock": rng.randrange(1 << 30), "rel": rng.random() < 0.3,
                "cwd": rng.random() < 0.6, "hold": rng.random() < 0.5,
                "decoy": rng.randrange(1 << 30) if rng.random() < 0.3 else None,
                "hist": [], "swap": None}
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            if rng.random() < 0.5:
                # of the same kind
                h = gen_any(rng, weights={spec["family"]: 1}, nobj=(1, 4))
            else:
                h = gen_any(rng, nobj=(1, 4))
            h = dress(rng, h)
            if rng.random() < 0.4 and "base" in h and h["family"] == spec["family"] \
                    and h["family"] != "pds3":
                h["base"] = spec["base"]
            case["hist"].append([h, rng.randrange(1 << 30),
                                 draw_fault(rng) if rng.random() < 0.4 else None])
        if swap:
            new = _copy(spec)
            how = rng.random()
            if how < 0.4:
                new = altered(rng, spec)
            elif how < 0.75:
                new["seed"] = rng.randrange(1 << 40)
            else:
                opts = list(spec_shrinks(spec))
                new = rng.choice(opts) if opts else new
            case["swap"] = [new, rng.random() < 0.6]
        return case

    def shrinks(self, case):
        for k in ("swap", "decoy"):
            if case[k] is not None:
                yield {**case, k: None}
        for j in range(len(case["hist"])):
            c = _copy(case)
            del c["hist"][j]
            yield c
        for j in range(len(case["hist"])):
            if case["hist"][j][2]:
                c = _copy(case)
                c["hist"][j][2] = None
                yield c
        for k in ("rel", "cwd", "hold"):
            if case[k]:
                yield {**case, k: False}
        if case["delivery"]:
            yield {**case, "delivery": {}}
        for s in spec_shrinks(case["spec"]):
            yield {**case, "spec": s}
        for j, (h, _, _) in enumerate(case["hist"]):
            for s in spec_shrinks(h):
                c = _copy(case)
                c["hist"][j][0] = s
                yield c

    # ------------------------------------------------------------------
    def see(self, env, main, sub, w, order):
        """everything there is to see of a product; comparable, and free of paths"""
        root = os.path.join(env.root, sub)

        def clean(t):
            return re.sub(r"[^\s'\"(]*/(?=[^/\s'\"]*)", "", t) if "/" in t else t

        def fp(v):
            return fingerprint(clean(v) if isinstance(v, str) else v)

        seen = {}
        r = call(env.pdr.read, main)
        if not r.ok:
            seen["open"] = (r.etype,)
            return seen, None
        d = r.value
        seen["warned"] = len(r.warns)
        seen["keys"] = list(d.keys())
        seen["standard"] = str(d.standard)
        seen["meta"] = fingerprint({k: v for k, v in d.metadata.items() if k != "fn"})
        seen["ids"] = {k: str(v) for k, v in getattr(d, "identifiers", {}).items()}
        seen["ids2"] = {k: str(v) for k, v in d.metadata.identifiers.items()}
        ks = sorted(map(str, w.meta)) + [k for k, _ in w.spec.get("extra_meta", ())]
        for k in ks:
            r = call(d.metaget_, k)
            seen[f"meta {k}"] = fp(r.value) if r.ok else r.etype
            q = k[:-1] + "X"
            r = call(d.metadata.metaget_fuzzy, q)
            seen[f"fuzzy {q}"] = fp(r.value) if r.ok else r.etype
        for q in ("A", "ID", "NAME"):
            r = call(d.metadata.metaget_fuzzy, q)
            seen[f"fuzzy {q}"] = fp(r.value) if r.ok else r.etype
        names = [k for k in d.keys()]
        random.Random(order).shuffle(names)
        for nm in names:
            r = call(fetch, d, nm, "item")
            if r.ok and hasattr(r.value, "to_string") and not hasattr(r.value, "iloc"):
                seen[f"object {nm}"] = r.value.to_string()
            else:
                seen[f"object {nm}"] = fingerprint(r.value) if r.ok else r.etype
                if r.ok and isinstance(r.value, str):
                    seen[f"object {nm}"] = fingerprint(clean(r.value))
            seen[f"warned {nm}"] = len(r.warns)
            if r.ok and type(r.value).__name__ in ("ndarray", "memmap"):
                r = call(d.get_scaled, nm)
                seen[f"scaled {nm}"] = fingerprint(r.value) if r.ok else r.etype
                if nm in d.specials:
                    seen[f"specials {nm}"] = fingerprint(d.specials[nm])
        seen["keys after"] = list(d.keys())
        for k, (par, exp) in w.derived.items():
            r = call(fetch, d, k, "item")
            seen[f"object {k}"] = fingerprint(r.value) if r.ok else r.etype
        return seen, d

    @staticmethod
    def unlike(a, b):
        for k in list(a) + [k for k in b if k not in a]:
            if a.get(k) != b.get(k):
                return f"{k}: {str(a.get(k))[:160]} / {str(b.get(k))[:160]}"
        return None

    def run(self, case, env):
        out = Out()
        here = os.getcwd()
        st = random.getstate()
        import numpy as np
        nst = np.random.get_state()
        try:
            self.scene(case, env, out)
        finally:
            os.chdir(here)
            random.setstate(st)
            np.random.set_state(nst)
            seams.CLOCK = None
        return out

    def decoys(self, w, seed):
        """files of names that differ from the pointers' in case only, or in compression"""
        rng = random.Random(seed)
        k = 0
        for p in list(w.paths):
            d, n = os.path.split(p)
            if p in (w.main, w.label_path_or_none()):
                continue
            stem, _, ext = n.rpartition(".")
            alts = {n.lower(), n.upper(), n.swapcase(), f"{stem}.{ext.lower()}",
                    n + ".gz", n.lower() + ".bz2", n.title()} - {n}
            with seams.real_open(p, "rb") as fh:
                data = fh.read()
            if rng.random() < 0.5:
                os.unlink(p)
            for a in rng.sample(sorted(alts), rng.randrange(1, 4)):
                body = bytes((x + 1 + k) & 255 for x in data[:4000]) + data[4000:]
                k += 1
                with seams.real_open(os.path.join(d, a), "wb") as fh:
                    fh.write(body)

    def scene(self, case, env, out):
        import numpy as np
        spec, order = case["spec"], case["order"]
        here = os.path.join(env.root, "cwd1")
        os.makedirs(here)
        os.makedirs(os.path.join(env.root, "a", "cwd2"))
        w = env.world(spec)
        if case["decoy"] is not None:
            self.decoys(w, case["decoy"])
        hist = [(env.world(h, sub=f"h{j}"), o, f) for j, (h, o, f) in enumerate(case["hist"])]
        new = case["swap"] and env.world(case["swap"][0], sub="q")

        os.chdir(here)
        random.seed(1)
        np.random.seed(1)
        steps = {}
        base = None
        ctxs = []

        def during(name, fn, dirseed, faults=None, total=0):
            c = dict(case)
            c["dirseed"] = dirseed
            with env.ctx(c) as ctx:
                if faults:
                    ctx.arm(faults, total)
                else:
                    ctx.armed = False
                r = fn()
                ctx.heal()
                steps[name] = ctx.n
            ctxs.append(ctx)
            return r

        one, d1 = during("first", lambda: self.see(env, w.main, "w", w, order), "sorted")
        out.note("first", sorted(one.items(), key=lambda kv: kv[0]))
        if case["decoy"] is None and "open" in one:
            return self.done(out, ctxs, f"the product did not open: {one['open']}")
        if not case["hold"]:
            d1 = None
        # other surroundings
        if case["cwd"]:
            os.chdir(os.path.join(env.root, "a", "cwd2"))
        main = os.path.relpath(w.main, os.getcwd()) if case["rel"] else w.main
        random.seed(case["clock"])
        np.random.seed(case["clock"] & 0xffffffff)
        seams.CLOCK = seams.Clock(case["clock"], start=1e9 + (case["clock"] % 10 ** 9),
                                  jump=0.05)
        two, d2 = during("second", lambda: self.see(env, main, "w", w, order), case["clock"])
        d2 = None
        m = self.unlike(one, two)
        if m:
            return self.done(out, ctxs, "in other surroundings (directory order, working "
                             f"directory, time, random state), the same files give another {m}")
        # a history
        for j, (hw, o, f) in enumerate(hist):
            during(f"hist{j}", lambda: self.see(env, hw.main, f"h{j}", hw, o), "reversed",
                   [f] if f else None, 60)
            out.feats.append("history" + (".fault" if f else ""))
        if hist:
            gc.collect()
            three, d3 = during("third", lambda: self.see(env, w.main, "w", w, order), "sorted")
            d3 = None
            m = self.unlike(one, three)
            if m:
                return self.done(out, ctxs, f"after {len(hist)} other products were read, the "
                                 f"same files give another {m}")
            # and what the others look like now, for the other process to compare
            for j, (hw, o, f) in enumerate(hist):
                again, _ = during(f"again{j}", lambda: self.see(env, hw.main, f"h{j}", hw, o),
                                  "sorted")
                out.note(f"h{j}", sorted(again.items(), key=lambda kv: kv[0]))
        # the files are replaced
        if new is not None:
            stats = {}
            for dp, _, fs in os.walk(os.path.join(env.root, "w")):
                for f in fs:
                    p = os.path.join(dp, f)
                    stats[p] = os.stat(p)
            shutil.rmtree(os.path.join(env.root, "w"))
            w2 = env.world(case["swap"][0], sub="w")
            if case["swap"][1]:
                # with the times of the old ones
                for p in (os.path.join(dp, f) for dp, _, fs in
                          os.walk(os.path.join(env.root, "w")) for f in fs):
                    if p in stats:
                        os.utime(p, ns=(stats[p].st_atime_ns, stats[p].st_mtime_ns))
            four, d4 = during("replaced", lambda: self.see(env, w2.main, "w", w2, order), "sorted")
            alone, d5 = during("elsewhere", lambda: self.see(env, new.main, "q", new, order),
                               "sorted")
            m = self.unlike(alone, four)
            if m:
                return self.done(out, ctxs, "opened again after its files were replaced, the "
                                 f"product gives another {m}")
            if d4 is None:
                return self.done(out, ctxs, f"after its files were replaced, the product did "
                                 f"not open: {four}")
            with env.ctx(case) as ctx:
                ctx.armed = False
                m = check_listing(w2, d4)
                r = call(check_meta, w2, d4)
                m = m or (r.value if r.ok else r.text())
                for nm, exp in w2.expected.items():
                    r = call(fetch, d4, nm, "item")
                    kind, text = judge(exp, d4, nm, r)
                    if kind != "exact":
                        m = m or f"{nm}: {text}"
            if m:
                return self.done(out, ctxs, f"after its files were replaced: {m}")
            out.feats.append("replaced")
        return self.done(out, ctxs, None)

    def done(self, out, ctxs, msg):
        for c in ctxs:
            out.take(c, note=False)
        if seams.CLOCK is not None:
            out.simtime += seams.CLOCK.covered
        if msg:
            out.bad(msg)
        return out
