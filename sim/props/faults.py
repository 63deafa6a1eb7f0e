"""C07: failed and torn reads; C08: one object's failure stays its own."""
from __future__ import annotations

import bz2
import gzip
import os
import random
import zlib

import numpy as np
import pandas as pd

from ..base import (Prop, Out, call, fetch, judge, check_listing, check_meta,
                    gen_delivery, gen_any, pick, HOW, fingerprint, materialize, _copy)
from .. import seams
from ..seams import Ctx
from ..world import Tab

READ_FAULTS = ({"kind": "ERR", "errno": "EIO"}, {"kind": "ERR", "errno": "EACCES"},
               {"kind": "ERR", "errno": "EMFILE"}, {"kind": "ERR", "errno": "ESTALE"},
               {"kind": "ERR", "errno": "ENOENT"}, {"kind": "MEM"}, {"kind": "TRUNC"},
               {"kind": "TRUNC"}, {"kind": "VANISH"}, {"kind": "STICKY", "errno": "EIO"})


def draw_fault(rng):
    f = dict(rng.choice(READ_FAULTS))
    f["pos"] = rng.random()
    f["frac"] = rng.choice((0.0, rng.random(), rng.random(), 0.999))
    return f


LABELISH = (".lbl", ".fmt", ".xml", ".lblx")


def labelish(path):
    return path.lower().endswith(LABELISH)


def torn_stream(p):
    """does a compressed file no longer end where its streams say?"""
    try:
        with seams.real_open(p, "rb") as fh:
            data = fh.read()
        if p.lower().endswith(".gz"):
            gzip.decompress(data)
        elif p.lower().endswith(".bz2"):
            if data:
                bz2.decompress(data)
        else:
            return True
    except (OSError, EOFError, ValueError, zlib.error):
        return True
    return False


def end_unstated(exp, got, torn=True):
    """
    For content whose end is not stated anywhere but by the end of its file: is
    this the stored content of the shorter file?  Returns None (it is not),
    "unstated" (nothing could have told), or "fixed" (the stated record length
    could have: a known finding).  A compressed stream states its end
    (but the file may consist of several, and have lost the last of them).
    """
    if exp.comp and torn:
        return None
    if exp.kind == "header" and getattr(exp, "by_rows", False) and isinstance(got, str):
        # the last of its rows may as well be ended by the end of the file
        n = exp.text.count("\n")
        return "unstated" if len(got.splitlines()) == n and exp.text.startswith(got.rstrip("\n")) \
            else None
    if exp.kind in ("text", "label") and isinstance(got, str):
        return "unstated" if exp.text.startswith(got.rstrip("\n")) else None
    if exp.kind == "array_ascii" and type(got).__name__ == "ndarray":
        a = exp.arr
        if got.shape != a.shape or got.size == 0:
            return None
        return "unstated" if (got.ravel()[:-1] == a.ravel()[:-1]).all() or \
            np.allclose(got.ravel()[:-1], a.ravel()[:-1], rtol=1e-12) else None
    if exp.kind in ("table_delim", "table_fixed", "p4tdel") and type(got).__name__ == "DataFrame" \
            and len(got) and (exp.ascii or exp.kind != "table_fixed") \
            and not getattr(exp, "length_stated", False):
        t = got.iloc[:-1].copy()
        for i, (c, dt) in enumerate(zip(list(t.columns), exp.dts)):
            # the cut record may hold no number where the others hold whole ones
            if dt == "int" and t.iloc[:, i].dtype.kind in "fO" and len(set(t.columns)) == \
                    len(t.columns):
                try:
                    whole = [None if pd.isna(x) else int(x) for x in t.iloc[:, i]]
                    t[c] = pd.array(whole, dtype=object) if None in whole else whole
                except (TypeError, ValueError):
                    return None
        if len(got) <= exp.nrows and exp.diff(t, prefix_ok=True) is None:
            if exp.kind == "table_fixed":
                return "fixed"
            # the number of records is stated; the end of the last one is not
            if len(got) == exp.nrows:
                return "unstated"
            return "rows" if exp.kind == "table_delim" and not exp.by_rows else None
    return None


class C07(Prop):
    id = "C07"
    quick_n = 9000
    thorough_n = 120000
    rule = ("a run loads every object of one product while storage faults are injected "
            "at seeded steps, or after its data file was cut; non-trivial when a fault "
            "took effect during it; distinct = distinct histories of storage events")
    assumptions = ["fread() errors surface as short counts, as with numpy.fromfile",
                   "a label that was itself damaged is C04's subject"]

    def gen(self, rng, i, tier):
        spec = gen_any(rng)
        mode = pick(rng, (5, "fault"), (3, "torn"), (2, "openfault"))
        case = {"spec": spec, "mode": mode, "delivery": gen_delivery(rng, 0.6),
                "dseed": rng.randrange(1 << 30), "order": rng.randrange(1 << 30)}
        if mode == "torn":
            case["cut"] = [rng.randrange(8), rng.choice((rng.random(), rng.random(), 0.0,
                                                         -rng.randrange(1, 40)))]
            case["faults"] = []
        else:
            case["faults"] = [draw_fault(rng) for _ in range(pick(rng, (4, 1), (1, 2)))]
        return case

    def tear(self, case, w):
        """cut one data file short; the label stays whole"""
        paths = [p for p in w.paths if not labelish(p)]
        k, c = case["cut"]
        p = paths[k % len(paths)]
        data = w.files[p]
        floor = 0
        if p == w.label_path_or_none():
            floor = w.label_floor()
            if floor is None:
                return None
        n = int(floor + (len(data) - floor) * c) if c >= 0 else max(floor, len(data) + c)
        if n >= len(data):
            return None
        with seams.real_open(p, "wb") as fh:
            fh.write(data[:n])
        return (os.path.basename(p), n, len(data))

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        total = None
        names = list(w.expected)
        random.Random(case["order"]).shuffle(names)
        if case["mode"] != "torn":
            with env.ctx(case) as ctx:        # a faultless rehearsal
                r = call(env.pdr.read, w.main)
                if not r.ok:
                    return out.bad(f"opening the product without faults {r.text()}")
                mark = ctx.n
                for nm in names:
                    call(fetch, r.value, nm, "item")
                total = (mark, ctx.n - mark)
                r = None
        cut = None
        if case["mode"] == "torn":
            cut = self.tear(case, w)
        with env.ctx(case) as ctx:
            ctx.keep_whole = labelish
            if case["mode"] == "openfault":
                ctx.arm(case["faults"], total[0])
            r = call(env.pdr.read, w.main)
            out.note(r.ok, r.etype)
            if not r.ok:
                out.take(ctx)
                out.nontrivial = bool(ctx.fired or cut)
                out.feats.append("open_refused")
                if case["mode"] == "fault":
                    out.bad(f"opening the product without faults {r.text()}")
                return out
            d = r.value
            if case["mode"] == "openfault" and w.main != w.label_path_or_none() and \
                    list(d.keys()) == ["LABEL"] and \
                    any(k.endswith(("ENOENT", "file_vanishes")) for k in ctx.fired):
                # with its label gone, the data file is all the product there
                # is, and it has no objects
                out.take(ctx)
                out.feats.append("label_gone")
                out.nontrivial = True
                return out
            if case["mode"] == "fault":
                ctx.arm(case["faults"], total[1])
            msg = None
            for nm in names:
                exp = w.expected[nm]
                before = len(ctx.fired_steps)
                r = call(fetch, d, nm, "item")
                k, text = judge(exp, d, nm, r, prefix_ok=True)
                out.note(nm, k, r.etype)
                out.feats.append(f"{k}:{exp.kind}" if ctx.fired or cut else "calm")
                if k == "bad" and r.ok and (cut or ctx.fired):
                    u = None
                    if cut or "file_shrinks" in ctx.fired:
                        u = end_unstated(exp, r.value, torn_stream(exp.file))
                    if exp.kind == "img_tif" and any(
                            t in x for x in r.warns
                            for t in ("Corrupt EXIF", "Truncated File Read", "[Errno ")):
                        u = "tiff"
                    if u == "unstated" or u and not case.get("strict"):
                        k = "short"
                        out.feats.append("end_unstated" if u == "unstated" else
                                         "known_finding:" + u)
                if k == "bad":
                    msg = (f"{nm} ({exp.kind}{'.' + exp.comp if exp.comp else ''}): {text}; "
                           f"faults {sorted(ctx.fired)}"
                           + (f", {cut[0]} holds {cut[1]} of {cut[2]} bytes" if cut else ""))
                    break
            fired = dict(ctx.fired)
        out.take(ctx)
        if cut:
            out.fired["file_cut_short"] = 1
        out.nontrivial = bool(fired or cut)
        if msg:
            out.bad(msg)
        return out


class C08(Prop):
    id = "C08"
    quick_n = 3000
    thorough_n = 100000
    rule = ("a run makes the storage of one object fail persistently (or once) while the "
            "product is loaded, then heals it and reloads; non-trivial when the fault took "
            "effect and another object was loaded; distinct = distinct event histories")

    def gen(self, rng, i, tier):
        spec = gen_any(rng, weights={"pds3": 10, "pds4": 0, "fits": 2, "img": 1}, odd=0,
                       nobj=(2, 5))
        if spec["family"] in ("fits", "img"):
            spec["via"] = "pds3"
            if spec["family"] == "fits":
                spec["gz"] = False
                spec.setdefault("ptr", "rec")
                spec.setdefault("hdrobj", True)
                if all(h["kind"] == "stub" for h in spec["hdus"]):
                    spec["hdrobj"] = True
            else:
                spec["frames"], spec["nimg"] = 1, 2
        return {"spec": spec, "delivery": gen_delivery(rng, 0.7),
                "dseed": rng.randrange(1 << 30), "order": rng.randrange(1 << 30),
                "how": rng.choice(("all", "each", "each")),
                "heal": rng.choice(("reload", "reopen", "both")),
                "victim": rng.randrange(100),
                "fault": rng.choice(("EIO", "EACCES", "EMFILE", "ENOENT", "vanish", "short",
                                     "once", "ESTALE", "lookup", "MEM"))}

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        names = [n for n in w.expected]
        rng = random.Random(case["order"])
        rng.shuffle(names)
        victim_file = w.expected[names[case["victim"] % len(names)]].file
        victims = {n for n in names if w.expected[n].file == victim_file}
        rel = w.rel(victim_file)
        with env.ctx(case) as ctx:
            # paths in the context are relative to the scratch root
            rel = os.path.relpath(victim_file, ctx.root)
            r = call(env.pdr.read, w.main)
            if not r.ok:
                return out.bad(f"opening the product without faults {r.text()}")
            d = r.value
            self.inject(case, ctx, rel, victim_file, rng)
            bad = None
            states = {}
            if case["how"] == "all":
                r = call(d.load, "all")
                out.note(r.ok, r.etype)
                if not r.ok:
                    bad = f"load('all') {r.text()} because {rel} failed ({case['fault']})"
                warned = r.warns
                for n in names:
                    if n == "LABEL" or bad:
                        continue
                    r = call(fetch, d, n, "item")
                    r.warns = list(r.warns) + list(warned)
                    states[n] = judge(w.expected[n], d, n, r)
            else:
                for n in names:
                    r = call(fetch, d, n, rng.choice(HOW) if n in d.unloaded() else "item")
                    states[n] = judge(w.expected[n], d, n, r, prefix_ok=True)
            for n, (k, text) in states.items():
                out.note(n, k)
                if n not in victims and k != "exact" and not bad:
                    bad = f"{n}, whose file did not fail, {text} (failing: {rel}, {case['fault']})"
            bad = bad or check_listing(w, d)
            fired = bool(ctx.fired)
            out.nontrivial = fired and len(names) > len(victims)
            out.feats.append("fault_" + case["fault"] if fired else "no_effect")
            # the fault ends
            ctx.heal()
            if not bad and case["heal"] in ("reload", "both"):
                for n in names:
                    if states.get(n, ("exact",))[0] == "exact":
                        continue
                    r = call(d.load, n, reload=True)
                    if r.ok:
                        r = call(fetch, d, n, "item")
                    k, text = judge(w.expected[n], d, n, r)
                    out.note(n, k)
                    out.feats.append("healed")
                    if k != "exact":
                        bad = f"after the fault ended, reloading {n}: {text} ({case['fault']})"
                        break
            if not bad and case["heal"] in ("reopen", "both"):
                r = call(env.pdr.read, w.main)
                if not r.ok:
                    bad = f"after the fault ended, opening again {r.text()}"
                else:
                    d = r.value
                    for n in names:
                        k, text = judge(w.expected[n], d, n, call(fetch, d, n, "item"))
                        if k != "exact":
                            bad = f"after the fault ended, {n} of a new product: {text}"
                            break
        out.take(ctx)
        if bad:
            out.bad(bad)
        return out

    def inject(self, case, ctx, rel, path, rng):
        f = case["fault"]
        if f == "vanish":
            ctx.in_sim += 1
            aside = f"{ctx.root}.vanished.v"
            os.rename(path, aside)
            ctx.in_sim -= 1
            ctx.vanished.append((aside, path))
            ctx.fire("file_vanishes")
        elif f == "short":
            size = os.path.getsize(path)
            ctx._truncate(rel, int(size * rng.random() * 0.3))
            ctx.fire("file_shrinks")
        elif f == "once":
            ctx.arm([{"kind": "ERR", "errno": "EIO", "path": rel, "nth": rng.randrange(2)}], 1)
        elif f == "MEM":
            ctx.arm([{"kind": "MEM", "path": rel, "every": True}], 1)
        elif f == "lookup":
            # the file cannot even be examined
            ctx.arm([{"kind": "ERR", "errno": rng.choice(("EIO", "EACCES")), "path": rel,
                      "every": True}], 1)
        else:
            ctx.arm([{"kind": "ERR", "errno": f, "path": rel, "op": "open", "every": True},
                     {"kind": "ERR", "errno": "EIO", "path": rel, "op": "read", "every": True}
                     ], 1)
