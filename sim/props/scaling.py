"""C13: scaling, showing and dumping leave objects unchanged; scaling is right."""
from __future__ import annotations

import math
import os
import random
import struct
from fractions import Fraction

import numpy as np

from ..base import (Prop, Out, call, fetch, gen_delivery, gen_any, pick, fingerprint,
                    gen_pds3, gen_pds4)
from .. import enc, seams
from ..world import Arr, tree
from .interrupts import Lines

# what stands for "no value" without a label saying so, by type of sample
IMPLICIT = {
    "int16": [-32768, 32767, -32766, -32767, -32765, -32764],
    "uint16": [0, 65533, 65534, 2, 1, 65535],
    "uint32": [4294967293, 4294967294, 0xFF7FFFFB, 0xFF7FFFFD, 0xFF7FFFFC, 0xFF7FFFFE, 0xFF7FFFFF],
    "float32": [-3.4028226550889044521e38, -1e32, 1e32] +
               [struct.unpack(">f", struct.pack(">I", 0xFF7FFFFC + i))[0] for i in range(4)],
    "float64": [-3.4028226550889044521e38],
}
# (not insisted upon)
PERHAPS = {"int32": [-214743648, -2147483648, 2147483647],
           "int64": [-214743648, -2147483648, 2147483647],
           "float64": [], "float32": [struct.unpack(">f", b"\xff\x7f\xff\xfb")[0]]}

CONST_NAMES = ("MISSING_CONSTANT", "INVALID_CONSTANT", "NULL_CONSTANT", "UNKNOWN_CONSTANT",
               "NOT_APPLICABLE_CONSTANT", "INFINITY_CONSTANT", "CORE_NULL",
               "CORE_HIGH_INST_SATURATION", "CORE_LOW_REPR_SATURATION", "CORE_LOW_INST_SAT")
CONST4 = ("missing_constant", "invalid_constant", "saturated_constant", "error_constant",
          "not_applicable_constant", "unknown_constant", "high_instrument_saturation",
          "low_representation_saturation")


def num(rng, v, unit=True):
    t = repr(v)
    if unit and rng.random() < 0.12:
        t += rng.choice((" <W>", " <DEGREES>", " <km>"))
    return [v, t]


FACTORS = ((6, None), (1, 1), (2, 2), (2, -3), (1, 10), (1, 100000), (3, 0.5), (2, 0.1), (1, 1e-3),
           (1, 1.0), (1, -2.5), (1, 300), (1, 123456.75), (1, 1 << 40))
OFFSETS = ((6, None), (1, 0), (2, 1), (2, -5), (1, 100), (2, 0.25), (1, -1000.5), (1, 40000),
           (1, 0.0), (1, -70000), (1, 1e6), (1, 1 << 40))


def const_for(rng, kind, nb):
    if kind == "f":
        v = rng.choice((-9999, -1, 0, 1e32, -1e32, -3.4028226550889e38, 999.25, -0.001, 65535,
                        1e38 if nb == 4 else 1e300))
        return v
    lo, hi = enc.int_range(kind == "i", nb)
    v = rng.choice((0, 1, 255, lo, hi, -1, -9999, -32768, 65535, 7, hi - 1))
    return v if rng.random() < 0.1 else max(lo, min(hi, v))


def decorate3(o, rng):
    """scaling parameters and special constants for a PDS3 array object"""
    t, nb = o["type"], o["nb"]
    kind = ("i" if enc.PDS3_INTS[t][1] else "u") if t in enc.PDS3_INTS else "f"
    extra, sc = {}, {"consts": []}
    planes = o.get("bands") if o["kind"] == "image" else o["items"]["BAND"]
    if planes and planes > 1 and rng.random() < 0.15:
        sc["factor"] = [pick(rng, *FACTORS[1:]) for _ in range(planes)]
        sc["offset"] = [pick(rng, *OFFSETS[1:]) for _ in range(planes)]
        extra["SCALING_FACTOR"] = "(" + ", ".join(map(repr, sc["factor"])) + ")"
        extra["OFFSET"] = "(" + ", ".join(map(repr, sc["offset"])) + ")"
    else:
        f, off = pick(rng, *FACTORS), pick(rng, *OFFSETS)
        sc["factor"], sc["offset"] = (1 if f is None else f), (0 if off is None else off)
        if f is not None:
            extra["SCALING_FACTOR"] = num(rng, f)[1]
        elif rng.random() < 0.05:
            extra["SCALING_FACTOR"] = rng.choice(('"N/A"', '"NULL"'))
        if off is not None:
            extra["OFFSET"] = num(rng, off)[1]
        elif rng.random() < 0.05:
            extra["OFFSET"] = rng.choice(('"N/A"', '"NULL"'))
    for name in rng.sample(CONST_NAMES, pick(rng, (4, 0), (3, 1), (2, 2), (1, 4))):
        if o["kind"] == "image" and name.startswith("CORE"):
            name = name[5:] if rng.random() < 0.3 and name != "CORE_NULL" else name
        v = const_for(rng, kind, nb)
        r = rng.random()
        if r < 0.05:
            extra[name] = rng.choice(('"N/A"', '"NULL"', "UNK", "NULL"))
            continue
        if r < 0.12:
            extra[name] = f"({v!r}, {v!r})"
        else:
            extra[name] = repr(v) if v != int(v) or kind == "f" or rng.random() < 0.9 or abs(v) > 1 << 53 \
                else repr(float(v))
        sc["consts"].append(v)
    plant = []
    for v in sc["consts"]:
        if kind == "f" or enc.int_range(kind == "i", nb)[0] <= v <= enc.int_range(kind == "i", nb)[1]:
            plant += [v, v]
    dt = np.dtype(f"{kind}{nb}").name
    if rng.random() < 0.5:
        plant += rng.sample(IMPLICIT.get(dt, []), min(2, len(IMPLICIT.get(dt, []))))
    if kind == "f" and rng.random() < 0.35:
        plant += rng.sample([math.nan, math.inf, -math.inf], rng.randrange(1, 4))
    if rng.random() < 0.6 and plant:
        o["plant"] = plant
    o["extra"], o["sc"] = extra, sc


def decorate4(o, rng):
    dt = np.dtype((gen_pds4.BIN | gen_pds4.CPLX)[o["type"]])
    if dt.kind == "c":
        o["sc"] = None
        return
    o["sf"] = pick(rng, *FACTORS)
    o["off"] = pick(rng, *OFFSETS)
    o["consts"] = []
    plant = []
    for k in rng.sample(CONST4, pick(rng, (4, 0), (3, 1), (2, 2))):
        v = const_for(rng, dt.kind, dt.itemsize)
        if dt.kind != "f":
            lo, hi = enc.int_range(dt.kind == "i", dt.itemsize)
            v = max(lo, min(hi, v))
        o["consts"].append([k, repr(v)])
        plant += [v, v]
    if plant and rng.random() < 0.7:
        o["plant"] = plant
    o["sc"] = {"factor": 1 if o["sf"] is None else o["sf"],
               "offset": 0 if o["off"] is None else o["off"], "consts": list(dict.fromkeys(plant))}


class Scaled:
    """what a scaled copy of an array must hold"""

    def __init__(self, arr, sc, implicit):
        self.arr, self.sc = arr, sc
        k = arr.dtype.kind
        must = np.zeros(arr.shape, bool)
        may = np.zeros(arr.shape, bool)
        with np.errstate(all="ignore"):
            for c in sc["consts"]:
                if k == "f":
                    must |= arr == np.array(c, dtype=arr.dtype)
                elif c == int(c) and np.iinfo(arr.dtype).min <= c <= np.iinfo(arr.dtype).max:
                    must |= arr == np.array(int(c), dtype=arr.dtype)
            if implicit:
                if k == "f":
                    must |= ~np.isfinite(arr)
                for c in IMPLICIT.get(arr.dtype.name, []):
                    must |= arr == np.array(c, dtype=arr.dtype)
                for c in PERHAPS.get(arr.dtype.name, []):
                    may |= arr == np.array(c, dtype=arr.dtype)
        self.must, self.may = must, may & ~must

    def check(self, got, float_dtype=None):
        a = self.arr
        if got.__class__.__name__ not in ("ndarray", "MaskedArray"):
            return f"not an array but {type(got).__name__}"
        if got.shape != a.shape:
            return f"shape {got.shape}, stored {a.shape}"
        mask = np.ma.getmaskarray(got)
        bad = (mask != self.must) & ~self.may
        if bad.any():
            ix = tuple(int(i) for i in np.argwhere(bad)[0])
            return (f"{int(bad.sum())} values wrongly {'masked' if mask[ix] else 'left unmasked'}, "
                    f"first {a[ix]!r} at {ix}")
        vals = np.ma.getdata(got)
        if vals.dtype.kind not in "iufO":
            return f"dtype {vals.dtype}"
        fl = vals.dtype.kind == "f"
        narrow = fl and (vals.dtype.itemsize < 8 or float_dtype == "f4")
        rtol = 6e-7 if narrow else 1e-12
        it = np.ndindex(*a.shape)
        planes = isinstance(self.sc["factor"], list)
        for ix in it:
            if mask[ix]:
                continue
            s = self.sc["factor"][ix[0]] if planes else self.sc["factor"]
            o = self.sc["offset"][ix[0]] if planes else self.sc["offset"]
            x = a[ix].item()
            g = vals[ix].item() if vals.dtype.kind != "O" else vals[ix]
            with np.errstate(all="ignore"):
                want = x * s + o
            if not fl:
                if a.dtype.kind == "f" or g != Fraction(x) * Fraction(s) + Fraction(o):
                    return (f"at {ix} it holds {g!r} ({vals.dtype}); the stored {x!r} "
                            f"({a.dtype}) * {s!r} + {o!r} is {want!r}")
                continue
            tol = rtol * (abs(x * s) + abs(o)) + (1e-37 if narrow else 0)
            if not abs(g - want) <= tol and not (g == want or want != want and g != g):
                return (f"at {ix} it holds {g!r} ({vals.dtype}); the stored {x!r} "
                        f"({a.dtype}) * {s!r} + {o!r} is {want!r}")
        if not fl and vals.dtype.kind in "iu" and (a.dtype.kind == "f"):
            return f"dtype {vals.dtype} from {a.dtype}"
        return None


def prescaled(w):
    """are the arrays of this product such that their reader has scaled them?"""
    return w.family == "fits" or w.family == "img" and w.spec["fmt"] != "jp2"


class C13(Prop):
    id = "C13"
    quick_n = 4000
    thorough_n = 90000
    rule = ("a run puts seeded requests (scaled copies, showing, dumping without purge, plain "
            "access; some interrupted or with failing writes) to one product, checks each scaled "
            "copy against exact arithmetic and every loaded object and the metadata against what "
            "is stored after every request, and scales in place at the end; non-trivial when an "
            "array was scaled, shown or dumped; distinct = distinct histories")
    assumptions = ["scaling of FITS and desktop images is what their readers deliver; for them "
                   "only constancy is checked",
                   "results in 32-bit floats may be off by 6e-7 of their terms, in 64-bit ones "
                   "by 1e-12"]

    def gen(self, rng, i, tier):
        fam = pick(rng, (6, "pds3"), (3, "pds4"), (3, "any"))
        if fam == "pds3":
            spec = gen_pds3.gen(rng, kinds=("image", "image", "qube", "table_bin", "text"),
                                nobj=(1, 4), comp=0.15, case_var=0.1)
            for o in spec["objs"]:
                if o["kind"] in ("image", "qube"):
                    decorate3(o, rng)
        elif fam == "pds4":
            spec = gen_pds4.gen(rng, kinds=("p4array",), nobj=(1, 4))
            for o in spec["objs"]:
                decorate4(o, rng)
        else:
            spec = gen_any(rng, nobj=(1, 4), weights={"pds3": 2, "pds4": 1, "fits": 3, "img": 2})
        ops = []
        for _ in range(rng.randrange(2, 10)):
            op = pick(rng, (5, "scaled"), (2, "show"), (3, "dump"), (1, "item"), (1, "reload"),
                      (1, "all"), (1, "specials"))
            f = None
            if rng.random() < 0.15:
                f = {"by": "line", "at": rng.random()}
            elif op == "dump" and rng.random() < 0.2:
                f = {"by": "io", "op": rng.choice(("openw", "write", "closew")),
                     "errno": rng.choice(("ENOSPC", "EIO", "EDQUOT")), "frac": rng.random(),
                     "nth": rng.randrange(4)}
            ops.append([op, rng.randrange(100), rng.randrange(1 << 20), f])
        return {"spec": spec, "ops": ops, "delivery": gen_delivery(rng, 0.7),
                "dseed": rng.randrange(1 << 30), "preload": rng.random() < 0.5}

    def oracle(self, w):
        out = {}
        spec = w.spec
        for o in spec.get("objs", ()):
            if not isinstance(o, dict) or o.get("sc") is None:
                continue
            name = o["name"] if spec["family"] == "pds3" else next(
                (k for k, e in w.expected.items() if e.kind == "p4array"
                 and k == o["id"].replace(" ", "_")), None)
            if spec["family"] == "pds4":
                name = o.get("_key") or name
            if name not in w.expected:
                continue
            arr = w.expected[name].arr
            sc = dict(o["sc"])
            if isinstance(sc["factor"], list) and len(sc["factor"]) != len(arr):
                continue
            implicit = spec["family"] == "pds3"
            if implicit and not o["extra"]:
                sc = {"factor": 1, "offset": 0, "consts": []}
            out[name] = Scaled(arr, sc, implicit)
        return out

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        outdir = os.path.join(env.root, "out")
        os.makedirs(outdir, exist_ok=True)
        before = {k: v for k, v in tree(env.root).items()}
        orac = self.oracle(w)
        with env.ctx(case) as ctx:
            m = self.scene(case, env, w, ctx, orac, outdir, out)
        out.take(ctx)
        if m:
            out.bad(m)
            return out
        after = tree(env.root)
        for k in before:
            if after.get(k) != before[k]:
                return out.bad(f"the file {k} has changed")
        return out

    def scene(self, case, env, w, ctx, orac, outdir, out):
        r = call(env.pdr.read, w.main)
        if not r.ok:
            return f"opening the product {r.text()}"
        d = r.value
        if case["preload"]:
            r = call(d.load, "all")
            if not r.ok:
                return f"loading all {r.text()}"
        meta0 = fingerprint(d.metadata)
        firsts, told, n = {}, [], 0
        derived = {k: None for k in w.derived}
        for op, x, y, f in case["ops"]:
            names = [k for k in d.keys() if k in w.expected]
            arrays = [k for k in names if isinstance(w.expected[k], Arr)]
            pool = arrays if op in ("scaled", "show", "specials") and arrays else names
            nm = pool[x % len(pool)]
            kw = {}
            if op == "scaled":
                if y % 4 == 0:
                    kw["float_dtype"] = np.dtype(("f4", "f8")[(y >> 2) % 2])
            elif op == "show":
                kw = {"scaled": bool(y & 1)}
                if (y >> 1) & 3 == 0:
                    kw["image_clip"] = (0, (2, 3), 1.5)[(y >> 3) % 3]
                if (y >> 5) & 3 == 0:
                    kw["band_ix"] = (y >> 7) % 3
                if (y >> 9) & 3 == 0:
                    kw["mask_color"] = (255, 0, 9)
                if (y >> 11) & 3 == 0:
                    kw["override_rgba"] = True
            elif op == "dump":
                kw = {"prefix": "px", "outpath": outdir, "scaled": (True, False, "both")[y % 3]}
                if (y >> 2) & 3 == 0:
                    kw["band_ix"] = "burst"
                if (y >> 4) & 3 == 0:
                    kw["image_clip"] = (0, (2, 3), 1.5)[(y >> 6) % 3]
                if (y >> 8) & 7 == 0:
                    kw["image_format"] = "png"
                if (y >> 11) & 3 == 0:
                    kw["float_dtype"] = np.dtype("f4")
            if f and f["by"] == "line":
                # rehearsed on another product in the same state of loading
                total = self.rehearse(env, w, d, op, nm, kw)
                with Lines(at=int(f["at"] * total)) as ln:
                    r = call(self.request, d, op, nm, kw)
                if ln.where:
                    ctx.fire("interrupt")
                    if r.ok:
                        return f"{op} {nm} swallowed an interrupt at {ln.where}"
            elif f:
                ctx.arm([{"kind": "ERR", "op": f["op"], "errno": f["errno"], "frac": f["frac"],
                          "nth": f["nth"]}], 100)
                r = call(self.request, d, op, nm, kw)
                ctx.heal()
                ctx.armed = False
            else:
                r = call(self.request, d, op, nm, kw)
            told.append(f"{op} {nm if op != 'dump' else ''}" +
                        (f" {kw}" if op != "dump" else f" scaled={kw['scaled']}")
                        + ("" if r.ok else f": {r.etype}"))
            out.note(op, nm, r.ok, r.etype)
            out.feats.append(op + ("" if r.ok else ":failed"))
            tell = f" (after {'; '.join(told[-6:])})"
            if op in ("scaled", "show", "dump"):
                n += 1
            if op == "scaled":
                m = None
                if r.ok:
                    m = self.judge(r.value, nm, kw, orac, firsts)
                    if m is None and prescaled(w):
                        m = w.expected[nm].diff(np.ma.getdata(r.value))
                elif r.interrupted:
                    pass
                elif nm in arrays:
                    m = r.text()
                if m:
                    return f"the scaled copy of {nm}: {m}{tell}"
            elif op == "show" and r.ok and hasattr(r.value, "tobytes"):
                key = ("show", nm, repr(kw))
                fp = fingerprint([r.value.mode, r.value.size, r.value.tobytes()])
                if firsts.setdefault(key, fp) != fp:
                    return f"showing {nm} with {kw} gave a different image than before{tell}"
            elif not r.ok and op in ("item", "reload", "all") and not r.interrupted:
                return f"{op} {nm} {r.text()}{tell}"
            r = None
            # nothing has changed
            for k, v in list(vars(d).items()):
                exp = w.expected.get(k) or (w.derived[k][1] if k in derived else None)
                if exp is not None and k in d.index:
                    diff = exp.diff(v)
                    if diff:
                        return f"the stored object {k} has changed: {diff}{tell}"
            if fingerprint(d.metadata) != meta0:
                return f"the metadata has changed{tell}"
        out.nontrivial = n > 0
        # in place
        for nm in [k for k in d.keys() if isinstance(w.expected.get(k), Arr)]:
            r0 = call(d.get_scaled, nm)
            r = call(d.get_scaled, nm, inplace=True)
            if not r.ok or not r0.ok:
                if r.ok != r0.ok:
                    return f"scaling {nm} in place {r.text()}, but as a copy it {r0.text()}"
                continue
            v = r.value
            if nm in orac:
                m = orac[nm].check(v)
                if m:
                    return f"scaled in place, {nm}: {m} (after {'; '.join(told[-6:])})"
                # reloaded, it is as stored, and scales to the same again
                r = call(fetch, d, nm, "reload")
                m = r.text() if not r.ok else w.expected[nm].diff(r.value)
                if not m:
                    r = call(d.get_scaled, nm)
                    m = orac[nm].check(r.value) if r.ok else r.text()
                    m = m and f"the scaled copy: {m}"
                if m:
                    return f"reloaded after being scaled in place, {nm}: {m}"
            else:
                fr = call(env.pdr.read, w.main)
                c = fr.value.get_scaled(nm)
                m = Arr(np.ma.getdata(c), rtol=1e-6, exact_kind=False).diff(np.ma.getdata(v)) \
                    if c.dtype.kind in "iuf" else None
                if m:
                    return f"scaled in place, {nm} is not as scaled as a copy: {m}"
        return None

    @staticmethod
    def request(d, op, nm, kw):
        if op == "scaled":
            return d.get_scaled(nm, **kw)
        if op == "show":
            return d.show(nm, **kw)
        if op == "dump":
            return d.dump_browse(**kw)
        if op == "item":
            return d[nm]
        if op == "reload":
            return fetch(d, nm, "reload")
        if op == "all":
            return d.load("all")
        return d.find_special_constants(nm)

    def rehearse(self, env, w, d, op, nm, kw):
        """how many lines does a request take, on a product that has loaded what d has?"""
        r = call(env.pdr.read, w.main)
        if not r.ok:
            return 1
        twin = r.value
        for k in d.keys():
            if k in w.expected and k not in d.unloaded():
                call(fetch, twin, k, "item")
        with Lines() as ln:
            call(self.request, twin, op, nm, kw)
        return ln.n

    def judge(self, v, nm, kw, orac, firsts):
        key = (nm, repr(kw.get("float_dtype")))
        fp = fingerprint(v)
        if firsts.setdefault(key, fp) != fp:
            return "differs from an earlier one"
        if nm in orac:
            return orac[nm].check(v, kw.get("float_dtype"))
        return None
