"""C16: no file stays open after the work that needed it is done."""
from __future__ import annotations

import gc
import os
import sys

from ..base import (Prop, Out, call, fetch, gen_delivery, gen_any, pick, leaked)
from .. import gen_pds3, gen_img, gen_fits
from .faults import draw_fault
from .interrupts import Lines


class C16(Prop):
    id = "C16"
    quick_n = 1500
    thorough_n = 90000
    rule = ("a run opens a product, drives it through a seeded sequence of loads, reloads, "
            "scalings and dumps with storage faults and interrupts at seeded steps, and asks "
            "the kernel for the open files and mappings after each load and at the end; "
            "non-trivial when files were opened; distinct = distinct histories")
    assumptions = ["CPython closes what nothing refers to; cyclic garbage is collected before "
                   "the kernel is asked, except after loads of PDS3 objects (FITS aside), which "
                   "must not leave it to the collector"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.6:
            spec = gen_any(rng, weights={"pds3": 6, "img": 2}, nobj=(1, 5))
        else:
            spec = gen_any(rng, nobj=(1, 5))
        ops = []
        for _ in range(rng.randrange(1, 8)):
            ops.append([pick(rng, (6, "item"), (3, "load"), (4, "reload"), (1, "all"),
                             (1, "scaled"), (1, "dump"), (1, "pvl"), (1, "header"),
                             (1, "text"), (1, "reopen")), rng.randrange(100)])
            if rng.random() < 0.45:
                f = draw_fault(rng)
                if rng.random() < 0.2:
                    f = {"kind": "KBI", "pos": rng.random()}
                if rng.random() < 0.2:
                    f = {"kind": "LINE", "pos": rng.random()}
                ops[-1].append(f)
        return {"spec": spec, "ops": ops, "delivery": gen_delivery(rng, 0.7),
                "openfault": draw_fault(rng) if rng.random() < 0.15 else None,
                "dseed": rng.randrange(1 << 30)}

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        spec = case["spec"]
        # label-described products in the PDS3 manner
        each = spec["family"] == "pds3" or spec.get("via") == "pds3"
        fits = spec["family"] == "fits"
        totals = {}

        def do(d, op, nm, where):
            if op in ("item", "reload"):
                return fetch(d, nm, op)
            if op == "load":
                return fetch(d, nm, "load" if nm in d.unloaded() else "reload")
            if op == "all":
                return d.load("all")
            if op == "scaled":
                return d.get_scaled(nm)
            if op == "dump":
                return d.dump_browse(outpath=where)
            if op == "pvl":
                if "LABEL" not in d.keys():
                    return None
                return d.load("LABEL", reload=True, fmt="pvl")
            if op == "header":
                hs = [k for k in d.keys() if "HEADER" in k and k in w.expected]
                if not hs or not each or fits:
                    return None
                return d.load(hs[0], reload=True, fmt="pvl")
            if op == "text":
                return str(d), repr(d.metadata), [d.metaget(k) for k in w.meta]
            if op == "reopen":
                return env.pdr.read(w.main)

        where = os.path.join(env.root, "out")
        os.makedirs(where, exist_ok=True)
        names = list(w.expected)
        # how long are the operations, undisturbed?
        with env.ctx(case) as ctx:
            ctx.armed = False
            s0 = ctx.n
            r = call(env.pdr.read, w.main)
            if not r.ok:
                return out.bad(f"opening the product {r.text()}")
            totals["open"] = (ctx.n - s0, 1)
            for j, op in enumerate(case["ops"]):
                s0 = ctx.n
                nm = names[op[1] % len(names)]
                with Lines() as ln:
                    call(do, r.value, op[0], nm, where)
                totals[j] = (ctx.n - s0, ln.n)
            r = None
        gc.collect()
        with env.ctx(case) as ctx:
            gc.disable()
            try:
                m = self.scene(env, case, w, ctx, do, totals, names, each, fits, where, out)
            finally:
                gc.enable()
            if m is None:
                left = leaked(ctx)
                if left:
                    m = f"with the product and its objects gone, still open: {left} ({self.tell})"
            ctx.heal()
        out.nontrivial = any(e[0] == "open" for e in ctx.log)
        out.take(ctx)
        if m:
            out.bad(m)
        return out

    def attempt(self, ctx, f, total, fn, *a):
        """one operation with a fault; returns the result and what struck"""
        if f is None:
            return call(fn, *a), None
        n0 = len(ctx.fired_steps)
        if f["kind"] == "LINE":
            with Lines(at=int(f["pos"] * total[1])) as ln:
                r = call(fn, *a)
            sys.settrace(None)
            if ln.where:
                ctx.fire("interrupt")
            return r, ln.where and f"interrupted at {ln.where}"
        ctx.arm([f], total[0])
        r = call(fn, *a)
        ctx.heal()
        struck = [k for _, k in ctx.fired_steps[n0:]]
        return r, struck and ", ".join(struck)

    def scene(self, env, case, w, ctx, do, totals, names, each, fits, where, out):
        self.tell = "nothing loaded"
        ctx.armed = False
        r, struck = self.attempt(ctx, case["openfault"], totals["open"], env.pdr.read, w.main)
        d = r.value
        out.note("open", r.ok, r.etype, struck)
        self.tell = f"open: {'ok' if r.ok else r.etype}"
        if struck:
            self.tell += f", {struck}"
        r = None
        if d is None:
            if not struck:
                return "the product did not open"
            out.feats.append("open_failed")
            return None
        if each:
            left = leaked(ctx, collect=fits)
            if left:
                return f"after opening, still open: {left} ({self.tell})"
        for j, op in enumerate(case["ops"]):
            nm = names[op[1] % len(names)]
            f = op[2] if len(op) > 2 else None
            r, struck = self.attempt(ctx, f, totals[j], do, d, op[0], nm, where)
            this = f"{op[0]} {nm} {'returned' if r.ok else 'raised ' + r.etype}" + \
                (f", {struck}" if struck else "")
            self.tell += "; " + this
            out.note(op[0], nm, r.ok, r.etype, struck, len(r.warns))
            out.feats.append(op[0] + (".fault" if struck else ""))
            r = None
            if each:
                left = leaked(ctx, collect=fits)
                if fits:
                    # an array delivered is a mapping of its file
                    left = left if not any(type(vars(d).get(k)).__name__ in
                                           ("ndarray", "memmap", "DataFrame")
                                           for k in w.expected) else []
                if left:
                    return f"after {this}, still open: {left}"
        return None
