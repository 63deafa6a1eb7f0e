"""C10: an interrupted load propagates, changes nothing, and can be retried."""
from __future__ import annotations

import gc
import os
import random
import shutil
import sys
from contextlib import nullcontext as nothing

from ..base import (Prop, Out, call, fetch, judge, gen_delivery, gen_any, pick,
                    fingerprint, leaked)
from ..seams import SimInterrupt
from ..world import Arr
from .tracking import elsewhere


class Lines:
    """counts the line events of the library's own code; interrupts at one of them"""

    def __init__(self, at=None):
        import pdr
        self.pref = os.path.dirname(os.path.realpath(pdr.__file__)) + os.sep
        # (import hooks: what they do depends on what was imported before)
        self.importers = (os.path.join(self.pref, "pds4_tools", "extern", "six.py"),)
        self.n = 0
        self.at = at
        self.where = None
        self.mine = {}

    def glob(self, frame, event, arg):
        co = frame.f_code
        m = self.mine.get(co)
        if m is None:
            m = self.mine[co] = (
                co.co_filename.startswith(self.pref)
                and co.co_filename not in self.importers)
        return self.local if m else None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n > self.at and self.where is None:
                self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                raise SimInterrupt("simulated interrupt")
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def masked(r):
    """
    known findings: third-party decoders that put an exception of their own in
    the interrupt's place
    """
    if r.ok:
        # (behind a PDS3 label, the same error becomes a warning)
        return "C10-pillow-decoder" if any(
            "ImagingDecoder" in x and "returned a result with an exception set" in x
            for x in r.warns) else None
    if r.etype == "SystemError" and "ImagingDecoder" in (r.emsg or "") and r.after_interrupt:
        return "C10-pillow-decoder"
    if r.after_interrupt and r.raised_in.endswith(("gzip.py", "_compression.py")) \
            and r.etype in ("EOFError", "error", "BadGzipFile"):
        return "C10-gzip-seek"
    return None


class C10(Prop):
    id = "C10"
    quick_n = 2600
    thorough_n = 90000
    rule = ("a run loads one object (or all) of a product and is interrupted at a seeded "
            "storage step or line of library code, then looks at the product and retries; "
            "non-trivial when the interrupt struck inside the call; distinct = distinct "
            "histories and interruption places")
    assumptions = ["an interrupt arrives at a storage call or at a line boundary of the "
                   "library's own code (not inside third-party code between storage calls)"]
    components = {**Prop.components, "simulated": Prop.components["simulated"] +
                  ["arrival of the interrupt (line tracing)"]}

    def gen(self, rng, i, tier):
        spec = gen_any(rng, nobj=(1, 4))
        return {"spec": spec, "delivery": gen_delivery(rng, 0.7),
                "dseed": rng.randrange(1 << 30), "pre": [rng.randrange(100) for _ in
                                                        range(pick(rng, (2, 0), (2, 1), (1, 2)))],
                "how": pick(rng, (4, "item"), (2, "attr"), (3, "load"), (3, "reload"),
                            (2, "all"), (2, "scaled")),
                "debug": rng.random() < .12,
                "target": rng.randrange(100), "at": rng.choice((rng.random(), rng.random(),
                                                                 0.9 + rng.random() / 10)),
                "by": pick(rng, (1, "io"), (2, "line")),
                "twice": rng.choice((None, None, rng.random()))}

    def op(self, d, how, nm):
        if how == "all":
            return call(lambda: d.load("all"))
        if how == "scaled":
            return call(lambda: d.get_scaled(nm))
        return call(fetch, d, nm, how)

    def strike(self, env, case, ctx, d, how, nm, at, total):
        """run the operation, interrupted; returns (result, place or None)"""
        if case["by"] == "io":
            before = len(ctx.fired_steps)
            ctx.arm([{"kind": "KBI", "pos": at}], total[0])
            r = self.op(d, how, nm)
            ctx.armed = False
            return r, ("a storage step" if len(ctx.fired_steps) > before else None)
        with Lines(at=int(at * total[1])) as ln:
            r = self.op(d, how, nm)
        if ln.where:
            ctx.fire("interrupt")
        return r, ln.where

    def run(self, case, env):
        if not case.get("debug"):
            return self.play(case, env)
        logs = os.path.join(os.path.dirname(env.root), os.path.basename(env.root) + ".logs")
        os.makedirs(logs, exist_ok=True)
        try:
            with elsewhere(logs, logs):
                return self.play(case, env)
        finally:
            shutil.rmtree(logs, ignore_errors=True)

    def play(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        names = list(w.expected)
        nm = names[case["target"] % len(names)]
        how = case["how"]
        if how == "scaled" and not isinstance(w.expected[nm], Arr):
            how = "item"
        pre = [names[x % len(names)] for x in case["pre"]]
        if how == "reload":
            pre.append(nm)

        def opened():
            # (debugging starts a log)
            r = call(env.pdr.read, w.main, **({"debug": True} if case.get("debug") else {}))
            if not r.ok:
                return None, f"opening the product {r.text()}"
            for p in pre:
                r2 = call(fetch, r.value, p, "item")
                if not r2.ok:
                    return None, f"{p} {r2.text()}"
            return r.value, None

        # rehearsal: how long is the operation, undisturbed?  (Twice by lines: the
        # first time it traces a function, Python may count a line more or less)
        for k in range(2 if case["by"] == "line" else 1):
            with env.ctx(case) as ctx:
                d, m = opened()
                if m:
                    return out.bad(m)
                if how == "load" and nm not in d.unloaded():
                    how = "reload"
                s0 = ctx.n
                with (Lines() if case["by"] == "line" else nothing()) as ln:
                    r = self.op(d, how, nm)
                total = (ctx.n - s0, ln.n if ln else 0)
                if not r.ok:
                    return out.bad(f"{how} {nm} {r.text()}")
                whole = fingerprint(r.value) if how == "scaled" else None
                d = r = None
        if total[0 if case["by"] == "io" else 1] == 0:
            out.nontrivial = False
            return out
        gc.collect()
        with env.ctx(case) as ctx:
            msg = self.scene(env, case, w, ctx, opened, how, nm, total, out, whole)
        out.take(ctx)
        if msg:
            out.bad(msg)
        return out

    def scene(self, env, case, w, ctx, opened, how, nm, total, out, whole=None):
        d, m = opened()
        if m:
            return m
        gc.collect()
        open0 = ctx.open_now() + ctx.mapped_now()
        keys0 = list(d.keys())
        vars0 = {k: id(v) for k, v in vars(d).items()}
        prints0 = {k: fingerprint(v) for k, v in vars(d).items()
                   if k in w.expected or k in w.derived}
        un0 = list(d.unloaded())
        old = {k: v for k, v in vars(d).items() if k in w.expected or k in w.derived}
        r, where = self.strike(env, case, ctx, d, how, nm, case["at"], total)
        sys.settrace(None)
        out.note(how, nm, where, r.etype)
        if where is None:
            out.nontrivial = False
            return None
        out.feats.append(f"{how}.{case['by']}")
        tell = f"({how} {nm}, interrupted at {where})"
        if r.ok and masked(r) and not case.get("strict"):
            out.feats.append("known_finding:" + masked(r))
            return None
        if r.ok:
            return f"the interrupt was swallowed: the call {r.text()} {tell}"
        if not r.interrupted:
            kf = masked(r)
            if kf is None or case.get("strict"):
                return f"the interrupt reached the caller as {r.etype}: {r.emsg} {tell}"
            out.feats.append("known_finding:" + kf)
        if any(x.startswith(("Unable", "This product's")) for x in r.warns):
            return f"the interrupt also was turned into the warning {r.warns[:2]} {tell}"
        m = self.aftermath(env, w, ctx, d, how, nm, keys0, prints0, un0, open0)
        if m:
            return f"{m} {tell}"
        old = None
        if case["twice"] is not None:
            r, where2 = self.strike(env, case, ctx, d, "load" if nm in d.unloaded() else
                                    "reload", nm, case["twice"], total)
            if where2 and not r.interrupted and masked(r):
                out.feats.append("known_finding:" + masked(r))
                if r.ok:
                    return None
            elif where2 and not r.interrupted:
                return f"a second interrupt, at {where2}: the call {r.text()} {tell}"
            if where2:
                tell += f" and again at {where2}"
                m = self.aftermath(env, w, ctx, d, how, nm, keys0, prints0, un0, open0)
                if m:
                    return f"{m} {tell}"
        # retry
        targets = [nm] if how != "all" else [k for k in w.expected]
        if how == "all" and case["target"] % 2:
            r = call(d.load, "all")
            if not r.ok:
                return f"retrying load('all') {r.text()} {tell}"
        for k in targets:
            again = "load" if k in d.unloaded() else ("reload" if k == nm else "item")
            r = call(fetch, d, k, again)
            kind, text = judge(w.expected[k], d, k, r)
            if kind != "exact":
                return f"retrying {k} by {again}: {text} {tell}"
        if how == "scaled":
            r = call(lambda: d.get_scaled(nm))
            if not r.ok or fingerprint(r.value) != whole:
                return f"retrying get_scaled {r.text() if not r.ok else 'gives something else'} {tell}"
        for k in w.expected:
            r = call(fetch, d, k, "item")
            kind, text = judge(w.expected[k], d, k, r)
            if kind != "exact":
                return f"later, {k}: {text} {tell}"
        for k, (par, exp) in w.derived.items():
            if k not in d.keys():
                return f"{k}, which comes with {par}, is not listed {tell}"
            for again in ("item", "reload"):
                r = call(fetch, d, k, again)
                kind, text = judge(exp, d, k, r)
                if kind != "exact":
                    return f"later, {k} by {again} (with {par}): {text} {tell}"
        keys = list(d.keys())
        if len(set(keys)) != len(keys) or keys[:len(w.keys)] != list(w.keys):
            return f"later, the list of objects is {keys} {tell}"
        return None

    def aftermath(self, env, w, ctx, d, how, nm, keys0, prints0, un0, open0):
        keys = list(d.keys())
        if len(set(keys)) != len(keys) or keys[:len(keys0)] != keys0:
            return f"the list of objects is {keys}, was {keys0}"
        for k in keys[len(keys0):]:
            if k not in w.derived:
                return f"the list of objects has gained {k}"
        for k, v in vars(d).items():
            exp = w.expected.get(k) or (w.derived[k][1] if k in w.derived else None)
            if exp is None:
                continue
            fp = prints0.get(k)
            if fp is not None and fp == fingerprint(v):
                continue
            if fp is not None and k != nm and how != "all" and k not in w.derived \
                    and exp.diff(v) is not None:
                return f"{k}, loaded before, has changed"
            diff = exp.diff(v)
            if diff is not None:
                return f"afterwards {k} holds something else: {diff}"
        for k in prints0:
            if k not in vars(d):
                return f"{k}, loaded before, is gone"
        left = [p for p in leaked(ctx) if p.split(" (")[0] not in open0]
        if w.family == "fits" and any(k in vars(d) and k not in prints0 for k in w.expected):
            left = []   # loaded in full; a FITS array is a mapping of its file
        if left:
            return f"still open: {left}"
        return None
