"""C14: a browse dump that returns has written complete files; failures reach the caller."""
from __future__ import annotations

import csv
import io
import math
import os

import numpy as np

from ..base import Prop, Out, call, fetch, gen_delivery, gen_any, pick, judge
from .. import seams
from .interrupts import Lines

FORMATS = ("jpg", "jpg", "jpg", "jpeg", "png", "tif", "bmp", "gif")
SIZES = {"jpg": "JPEG", "jpeg": "JPEG", "png": "PNG", "tif": "TIFF", "bmp": "BMP", "gif": "GIF"}


class Snap:
    """a loaded object as it was before the dump: its browse form must hold this"""

    def __init__(self, obj):
        name = type(obj).__name__
        self.kind = None
        if name in ("ndarray", "memmap"):
            if obj.ndim == 1:
                self.kind, self.vals = "vector", obj.tolist()
                self.f4 = obj.dtype == np.dtype("f4") or obj.dtype.newbyteorder("=") == np.float32
            else:
                self.kind, self.shape = "image", tuple(obj.shape)
        elif name == "DataFrame":
            self.kind = "table"
            self.names = [str(c) for c in obj.columns]
            self.rows = [list(r) for r in zip(*[obj.iloc[:, i].tolist()
                                                for i in range(obj.shape[1])])]
            self.f4 = [str(t) == "float32" for t in obj.dtypes]
            self.index = [str(i) for i in obj.index]
        elif obj is None:
            self.kind = None
        elif hasattr(obj, "to_string"):
            self.kind, self.text, self.ext = "text", obj.to_string(), "xml"
        else:
            self.kind, self.text, self.ext = "text", str(obj), "txt"


def same_cell(t, v, f4):
    """does the text of a CSV cell say this value?"""
    if isinstance(v, np.generic):
        v = v.item()
    if v is None or isinstance(v, float) and math.isnan(v) or type(v).__name__ in (
            "NAType", "NaTType"):
        return t == "" or t == "nan"
    if isinstance(v, bool):
        return t == str(v)
    if isinstance(v, int):
        try:
            return int(t) == v
        except ValueError:
            try:
                return float(t).is_integer() and int(float(t)) == v
            except (ValueError, OverflowError):
                return False
    if isinstance(v, float):
        try:
            g = float(t)
        except ValueError:
            return False
        return g == v or (f4 and np.float32(g) == np.float32(v))
    if isinstance(v, complex):
        try:
            g = complex(t)
        except ValueError:
            return False
        return g == v or f4 or (abs(g - v) <= 1e-6 * abs(v)) or (g != g and v != v)
    return t == str(v)


class C14(Prop):
    id = "C14"
    quick_n = 3500
    thorough_n = 90000
    rule = ("a run dumps browse products of a partly loaded product under seeded write faults "
            "(disk full, failing open, write or close, interrupts) and decodes every written "
            "file with its own readers; non-trivial when something had a browse form; "
            "distinct = distinct histories")
    assumptions = ["file systems report errors by open, write or close at the latest (loss "
                   "after a successful close without fsync is out of scope)"]
    components = {**Prop.components, "stub": ["pillow's direct writing to a file descriptor "
                                              "is redirected through the simulated file"]}

    def gen(self, rng, i, tier):
        spec = gen_any(rng, nobj=(1, 5))
        fault = pick(rng, (4, None), (3, "full"), (3, "err"), (1, "kbi"), (2, "line"))
        f = None
        if fault == "full":
            f = {"kind": "full", "pos": rng.random()}
        elif fault == "err":
            f = {"kind": "err", "op": rng.choice(("openw", "write", "closew")),
                 "errno": rng.choice(("ENOSPC", "EIO", "EDQUOT", "EMFILE", "EACCES")),
                 "frac": rng.choice((0.0, rng.random())), "pos": rng.random()}
        elif fault:
            f = {"kind": fault, "pos": rng.random()}
        kw = {"scaled": rng.choice((True, True, False, "both")), "purge": rng.random() < 0.5}
        if rng.random() < 0.3:
            kw["band_ix"] = rng.choice(("burst", "burst", 0, 1, 7))
        if rng.random() < 0.25:
            kw["override_rgba"] = True
        if rng.random() < 0.4:
            kw["image_format"] = rng.choice(FORMATS)
        if rng.random() < 0.2:
            kw["image_clip"] = rng.choice((0, 1, [2, 5]))
        if rng.random() < 0.1:
            kw["slice_axis"] = rng.choice((0, 1, 2))
        if rng.random() < 0.15:
            kw["prefix"] = rng.choice(("px", "a.b", "with space"))
        return {"spec": spec, "load": rng.choice(("all", "all", "some", "none")),
                "which": rng.randrange(1 << 16), "kw": kw, "fault": f,
                "existing": rng.random() < 0.2, "twice": rng.random() < 0.2,
                "cwd": rng.random() < 0.15,
                "delivery": {**gen_delivery(rng, 0.7),
                             **({"p_short_write": rng.choice((0.1, 0.6))}
                                if rng.random() < 0.4 else {})},
                "dseed": rng.randrange(1 << 30)}

    def forms(self, base, s, kw, fits):
        """the files a snapshot's browse form consists of: (path, size or None)"""
        if s.kind == "image":
            ext = kw.get("image_format", "jpg")
            if fits and kw["scaled"] in ("both", False):
                bases = [base + "_scaled"]
            elif kw["scaled"] == "both":
                bases = [base + "_scaled", base + "_unscaled"]
            else:
                bases = [base]
            sh = list(s.shape)
            if len(sh) == 2:
                return [(f"{b}.{ext}", (sh[1], sh[0])) for b in bases]
            if len(sh) == 3:
                ax = kw.get("slice_axis", 0)
                sh[0], sh[ax] = sh[ax], sh[0]
                size = (sh[2], sh[1])
                if sh[0] in (3, 4) and not kw.get("override_rgba"):
                    return [(f"{b}.{ext}", size) for b in bases]
                if kw.get("band_ix") == "burst":
                    return [(f"{b}_{i}.{ext}", size) for b in bases for i in range(sh[0])]
                return [(f"{b}.{ext}", size) for b in bases]
            return []
        if s.kind in ("vector", "table"):
            return [(base + ".csv", None)]
        if s.kind == "text":
            return [(f"{base}.{s.ext}", None)]
        return []

    def check(self, path, size, s):
        """None if this file is the complete browse form, else what is wrong"""
        try:
            with seams.real_open(path, "rb") as fh:
                data = fh.read()
        except OSError as ex:
            return f"cannot be read: {ex}"
        if s.kind == "text":
            try:
                t = data.decode("utf-8")
            except UnicodeDecodeError as ex:
                return f"holds no text: {ex}"
            return None if t == s.text else \
                f"holds {len(t)} characters of text, not the object's {len(s.text)}"
        if s.kind == "image":
            from PIL import Image
            try:
                with Image.open(io.BytesIO(data)) as im:
                    im.load()
                    if im.size != size:
                        return f"is an image of {im.size}, not {size}"
                    if im.format != SIZES[path.rsplit(".", 1)[1]]:
                        return f"is a {im.format}"
            except Exception as ex:
                return f"is no complete image: {type(ex).__name__}: {ex}"
            return None
        try:
            rows = list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))
        except Exception as ex:
            return f"is no table: {ex}"
        if s.kind == "vector":
            if rows[:1] != [["0"]] or len(rows) - 1 != len(s.vals):
                return f"has {len(rows) - 1} rows, the object {len(s.vals)}"
            for i, (r, v) in enumerate(zip(rows[1:], s.vals)):
                # (an empty line is one empty cell)
                if len(r) > 1 or not same_cell(r[0] if r else "", v, s.f4):
                    return f"row {i} is {r}, the object's {v!r}"
            return None
        if len(s.rows) == 1:
            if len(rows) - 1 != len(s.names):
                return f"has {len(rows) - 1} rows for {len(s.names)} columns"
            for n, r, v, f in zip(s.names, rows[1:], s.rows[0], s.f4):
                if len(r) != 2 or r[0] != n or not same_cell(r[1], v, f):
                    return f"has {r} for column {n} with {v!r}"
            return None
        if rows[:1] != [[""] + s.names]:
            return f"has columns {rows[:1]}, the object {s.names}"
        if len(rows) - 1 != len(s.rows):
            return f"has {len(rows) - 1} rows, the object {len(s.rows)}"
        for i, (r, vs) in enumerate(zip(rows[1:], s.rows)):
            if len(r) != len(vs) + 1:
                return f"row {i} has {len(r) - 1} cells"
            for t, v, f, n in zip(r[1:], vs, s.f4, s.names):
                if not same_cell(t, v, f):
                    return f"row {i} has {t!r} in column {n}, the object {v!r}"
        return None

    def prepare(self, case, env, w):
        r = call(env.pdr.read, w.main)
        if not r.ok:
            return None, f"opening the product {r.text()}"
        d = r.value
        names = list(w.expected)
        if case["load"] == "all":
            names = names
        elif case["load"] == "some":
            names = [n for j, n in enumerate(names) if case["which"] >> (j % 16) & 1]
        else:
            names = []
        for n in names:
            r = call(fetch, d, n, "item")
            if not r.ok:
                return None, f"{n} {r.text()}"
        return d, None

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        here = os.getcwd()
        try:
            return self.scene(case, env, w, out)
        finally:
            os.chdir(here)

    def scene(self, case, env, w, out):
        kw = dict(case["kw"])
        if isinstance(kw.get("image_clip"), list):
            kw["image_clip"] = tuple(kw["image_clip"])
        f = case["fault"]

        def outdir(n):
            p = os.path.join(env.root, n)
            os.makedirs(p, exist_ok=True)
            if case["cwd"]:
                os.chdir(p)
            return {} if case["cwd"] else {"outpath": p}

        total = (1, 1, 1)
        if f is not None:
            # how long is the dump, undisturbed?
            with env.ctx(case) as ctx:
                ctx.armed = False
                d, m = self.prepare(case, env, w)
                if m:
                    return out.bad(m)
                s0 = ctx.n
                ctx.disk_left = 1 << 40
                with Lines() as ln:
                    rd = outdir("rehearsal")
                    r = call(lambda: d.dump_browse(**kw, **rd))
                ops = [e[0] for e in ctx.log[s0:]]
                total = (ctx.n - s0, ln.n, (1 << 40) - ctx.disk_left,
                         ops.count(f.get("op")))
                r = d = None
        with env.ctx(case) as ctx:
            ctx.armed = False
            d, m = self.prepare(case, env, w)
            if m:
                return out.bad(m)
            od = outdir("out")
            fits = str(d.filename).lower().endswith((".fits", ".fit", ".fits.gz", ".fz"))
            prefix = kw.get("prefix") or os.path.splitext(os.path.basename(str(d.filename)))[0]
            loaded = [k for k in d.index if k in vars(d)]
            snaps = {k: Snap(vars(d)[k]) for k in loaded}
            base = os.path.join(env.root, "out", prefix + "_")
            if case["existing"]:
                for k in loaded:
                    for p, _ in self.forms(base + k, snaps[k], kw, fits):
                        with seams.real_open(p, "wb") as fh:
                            fh.write(b"old browse product, longer than most new ones " * 400)
            ctx.armed = True
            where = None
            if f is None:
                r = call(lambda: d.dump_browse(**kw, **od))
            elif f["kind"] == "line":
                with Lines(at=int(f["pos"] * total[1])) as ln:
                    r = call(lambda: d.dump_browse(**kw, **od))
                if ln.where:
                    ctx.fire("interrupt")
                    where = ln.where
            else:
                if f["kind"] == "full":
                    ctx.arm([], 0)
                    ctx.disk_left = int(f["pos"] * total[2])
                elif f["kind"] == "kbi":
                    ctx.arm([{"kind": "KBI", "pos": f["pos"]}], total[0])
                else:
                    ctx.arm([{"kind": "ERR", "op": f["op"], "errno": f["errno"],
                              "frac": f["frac"], "nth": int(f["pos"] * total[3])}], 0)
                r = call(lambda: d.dump_browse(**kw, **od))
            fired = dict(ctx.fired)
            ctx.heal()
            m = self.verdict(case, kw, d, r, loaded, snaps, base, fits, fired, where, out)
            if m is None and case["twice"] and not r.ok and not kw["purge"]:
                # once there is room again
                r = call(lambda: d.dump_browse(**kw, **od))
                m = self.verdict(case, kw, d, r, loaded, snaps, base, fits, {}, None, out)
                if m:
                    m = "dumped again after a failure: " + m
            if m is None and kw["purge"]:
                # what has been purged can be had again
                for k in loaded:
                    if k in w.expected and k not in vars(d):
                        r2 = call(fetch, d, k, "item")
                        kind, text = judge(w.expected[k], d, k, r2)
                        if kind != "exact":
                            m = f"{k}, purged and loaded again: {text}"
        out.take(ctx)
        if m:
            out.bad(m)
        return out

    def verdict(self, case, kw, d, r, loaded, snaps, base, fits, fired, where, out):
        out.note(r.ok, r.etype, sorted(fired), where)
        out.feats.append(("returned" if r.ok else "raised") + (":" + ",".join(sorted(fired))
                                                              if fired else ""))
        tell = f" ({kw}" + (f", {fired}" if fired else "") + (f" at {where}" if where else "") + ")"
        if r.ok and fired:
            return f"the failure did not reach the caller{tell}"
        n = 0
        for k in loaded:
            s = snaps[k]
            purged = k not in vars(d)
            forms = self.forms(base + k, s, kw, fits)
            n += bool(forms)
            if purged and not kw["purge"]:
                return f"{k} is no longer loaded{tell}"
            if not (r.ok or purged):
                continue
            for p, size in forms:
                m = self.check(p, size, s)
                if m:
                    return (f"{'after the dump returned' if r.ok else 'after the failure, ' + k + ' was purged, but'}"
                            f" {os.path.basename(p)} {m}{tell}")
            if s.kind == "image" and not forms and r.ok:
                return f"the dump returned, with {k} of shape {s.shape} left out{tell}"
        if not r.ok and not fired:
            # (nothing was injected: objects that have no browse form)
            ok4 = any(s.kind == "image" and (len(s.shape) > 3 or self.odd(s, kw))
                      for s in snaps.values())
            out.feats.append("undumpable" if ok4 else f"unexpected:{r.etype} {r.emsg[:90]}")
        out.nontrivial = n > 0
        return None

    @staticmethod
    def odd(s, kw):
        return False
