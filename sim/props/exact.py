"""C01, C02, C03, C05, C06: what is read equals what is stored."""
from __future__ import annotations

import random

from ..base import (Prop, Out, call, fetch, judge, check_listing, check_meta,
                    gen_delivery, pick, HOW)
from .. import gen_pds3, gen_pds4, gen_fits, gen_img


class Exact(Prop):
    kinds = None
    rule = ("a run is one product read under one delivery of its bytes; it is "
            "non-trivial when an object of the property's kinds was compared value by "
            "value with the values it was encoded from; distinct = distinct histories "
            "of storage events")
    assumptions = ["the encoders in sim/enc.py and sim/gen_*.py state the formats' meaning "
                   "correctly", "products are of the generated shapes (see DESIGN.md)"]

    def spec(self, rng, tier):
        raise NotImplementedError

    def gen(self, rng, i, tier):
        spec = self.spec(rng, tier)
        return {"spec": spec, "delivery": gen_delivery(rng), "dseed": rng.randrange(1 << 30),
                "order": rng.randrange(1 << 30), "again": rng.random() < 0.3,
                "dirseed": rng.choice(("sorted", "reversed", rng.randrange(1 << 20)))}

    def wants(self, kind):
        return self.kinds is None or kind in self.kinds

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        rng = random.Random(case["order"])
        with env.ctx(case) as ctx:
            d = call(env.pdr.read, w.main, **w.kwargs)
            if not d.ok:
                return self.done(out, ctx, f"opening the product {d.text()}")
            d = d.value
            m = check_listing(w, d)
            if m:
                return self.done(out, ctx, "after opening, " + m)
            m = check_meta(w, d)
            if m:
                return self.done(out, ctx, m)
            names = list(w.expected)
            rng.shuffle(names)
            if case["again"]:
                names += [rng.choice(names) for _ in range(2)]
            seen = set()
            out.nontrivial = False
            for nm in names:
                exp = w.expected[nm]
                how = rng.choice(HOW)
                if nm in seen:
                    how = rng.choice(("item", "attr", "reload"))
                elif how == "load" and nm not in d.unloaded():
                    how = "item"    # came along with another object
                seen.add(nm)
                r = call(fetch, d, nm, how)
                out.note(nm, how, r.ok, r.etype)
                k, text = judge(exp, d, nm, r)
                if k != "exact":
                    return self.done(out, ctx, f"{nm} ({exp.kind}, {how}): {text}")
                if self.wants(exp.kind):
                    out.nontrivial = True
                    out.feats.append(exp.kind + (f".{exp.comp}" if exp.comp else ""))
            for nm, (parent, exp) in w.derived.items():
                if parent not in seen:
                    continue
                r = call(fetch, d, nm, "item")
                k, text = judge(exp, d, nm, r)
                if k != "exact":
                    return self.done(out, ctx, f"{nm} (with {parent}): {text}")
                out.feats.append("cards")
            m = check_listing(w, d)
            if m:
                return self.done(out, ctx, "after loading, " + m)
        return self.done(out, ctx, None)

    def done(self, out, ctx, msg):
        out.take(ctx)
        if msg:
            out.bad(msg)
        return out


class C01(Exact):
    id = "C01"
    kinds = {"image", "qube"}
    quick_n = 6000
    thorough_n = 120000

    def spec(self, rng, tier):
        return gen_pds3.gen(rng, kinds=("image", "qube") if rng.random() < .7 else
                            ("image", "qube", "image", "table_bin", "header"),
                            opened=("label", "data"), comp=0.4,
                            bottom=True)


class C02(Exact):
    id = "C02"
    kinds = {"table_bin", "table_fixed", "table_delim", "histogram"}
    quick_n = 5000
    thorough_n = 100000

    def spec(self, rng, tier):
        return gen_pds3.gen(rng, kinds=("table_bin", "table_bin", "table_fixed",
                                        "table_delim", "histogram", "prefixed"),
                            opened=("label", "data"), comp=0.35, bottom=True)


class C03(Exact):
    id = "C03"
    kinds = {"text", "header", "array_bin", "array_ascii"}
    quick_n = 9000
    thorough_n = 100000

    def spec(self, rng, tier):
        spec = gen_pds3.gen(rng, kinds=("text", "header", "array_bin", "array_ascii"),
                            opened=("label", "data"), comp=0.35, bottom=True)
        for o in spec["objs"]:
            if o["kind"] == "array_bin" and rng.random() < .35:
                gen_pds3.array_items(rng, o)
        return spec


class C05(Exact):
    id = "C05"
    quick_n = 6000
    thorough_n = 60000

    def wants(self, kind):
        return kind.startswith("p4")

    def spec(self, rng, tier):
        return gen_pds4.gen(rng, opened=("label", "data"))


class C06(Exact):
    id = "C06"
    quick_n = 9000
    thorough_n = 80000

    def wants(self, kind):
        return kind.startswith(("fits", "img"))

    def spec(self, rng, tier):
        if rng.random() < .6:
            return gen_fits.gen(rng, via=("direct", "direct", "pds3", "pds4"), odd=.6)
        return gen_img.gen(rng, via=("direct", "direct", "pds3"))
