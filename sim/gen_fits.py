"""
Generator of FITS files, written card by card and byte by byte (no astropy),
read directly or through a PDS3 or PDS4 label.
"""
from __future__ import annotations

import gzip
import os
import random
import struct

import numpy as np

from . import enc
from .gen_pds3 import pick, _copy
from .gen_pds4 import x
from .world import World, Arr, Tab, Exp, Txt

BITPIX = {8: (">B", "u1", False, 1), 16: (">h", "i2", True, 2),
          32: (">i", "i4", True, 4), 64: (">q", "i8", True, 8),
          -32: (">f", "f4", None, 4), -64: (">d", "f8", None, 8)}
ALL = ("image", "table", "stub")
NAMES = ("SCI", "ERR", "DQ", "EXT_A", "Cal Data", "b_lower")


class Cards(Exp):
    """every header card, in order, with its comment"""

    def __init__(self, items):
        self.items = items

    def diff(self, got):
        if not hasattr(got, "getall"):
            return f"not header cards but {type(got).__name__}: {str(got)[:60]!r}"
        g = [(k, v) for k, v in got.items()]
        for a, b in zip(g, self.items):
            same = a[0] == b[0] and (a[1] == b[1] or (
                isinstance(a[1], float) and abs(a[1] - b[1]) <= 1e-12 * abs(b[1])))
            if not same:
                return f"card {a!r}, stored {b!r}"
        if len(g) != len(self.items):
            return f"{len(g)} cards and comments, stored {len(self.items)}"
        return None


class AnyCards(Exp):
    def diff(self, got):
        return None if hasattr(got, "getall") else f"not header cards but {type(got).__name__}"


def _col(rng, n, odd=False):
    t = rng.choice("JJIKEEDBAL" + ("CMXP" if odd else ""))
    c = {"name": f"C{n}_{enc.word(rng, 3)}" if rng.random() > .15 else "SAME",
         "f": t, "rep": rng.randrange(1, 9) if t == "A" else pick(rng, (7, 1), (1, rng.randrange(2, 4))),
         "zero": t == "I" and rng.random() < 0.15}
    if odd:
        r = rng.random()
        if t in "JK" and r < .15:
            c["zero"] = True
        elif t in "BIJ" and not c["zero"] and r < .3:
            c["scal"] = rng.choice(([.5, 3.0], [2.0, 0.0], [-.25, 100.0]))
        elif t in "JIEDCM" and r < .45:
            c["dim"] = [rng.randrange(2, 4), rng.randrange(2, 4)]
            c["rep"] = c["dim"][0] * c["dim"][1]
        elif t == "A" and r < .3:
            c["cells"] = rng.randrange(2, 4)
        if t == "X":
            c["rep"] = rng.randrange(2, 20)
        elif t == "P":
            c["rep"], c["of"] = 1, rng.choice("JEI")
    return c


def _acol(rng, n):
    return {"name": f"C{n}_{enc.word(rng, 3)}" if rng.random() > .1 else "SAME",
            "f": rng.choice("IFEDA"), "w": rng.randrange(1, 9), "gap": pick(rng, (3, 0), (2, 1), (1, 3))}


def _hdu(rng, i, kinds, big, odd=False):
    kind = rng.choice(kinds)
    if i == 0 and kind == "table":
        kind = "stub"
    if i > 0 and kind == "stub" and not odd and rng.random() < .8:
        kind = rng.choice([k for k in kinds if k != "stub"] or ["image"])
    h = {"kind": kind, "name": None}
    if i > 0:
        h["name"] = pick(rng, (7, rng.choice(NAMES)), (1, None))
    elif rng.random() < .15:
        h["name"] = "MAIN"
    if kind == "image":
        nd = pick(rng, (1, 1), (5, 2), (3, 3))
        hi = {1: 80, 2: 16, 3: 7}[nd] * (6 if big else 1)
        h["bitpix"] = rng.choice(sorted(BITPIX))
        h["shape"] = [rng.randrange(1, hi) for _ in range(nd)]
        h["scale"] = pick(rng, (5, None), (1, [2.0, 10.0]), (1, [0.5, 0.0]))
        h["uint"] = h["bitpix"] in (16, 32) and rng.random() < .2
        if h["uint"]:
            h["scale"] = None
        if odd and h["bitpix"] > 0 and not h["uint"] and rng.random() < .25:
            h["blank"] = rng.choice((1, 2, 77, 99))
        elif odd and i > 0 and h["bitpix"] > 0 and not h["scale"] and not h["uint"] and \
                nd > 1 and rng.random() < .3:
            h["tiles"], h["name"] = True, h["name"] or "TILED"
    elif kind == "table" and odd and rng.random() < .3:
        h["kind"] = "ascii"
        h["rows"] = rng.randrange(1, 12)
        h["cols"] = [_acol(rng, n) for n in range(rng.randrange(1, 6))]
    elif kind == "table":
        h["rows"] = rng.randrange(1, 300 if big else 12)
        h["cols"] = [_col(rng, n, odd) for n in range(rng.randrange(1, 6))]
    if odd:
        h["odd"] = True
        if i > 0 and rng.random() < .15:
            h["name"] = rng.choice(("SCI HEADER", "HEADER"))
    h["cards"] = rng.randrange(0, 50 if rng.random() < .1 else 5)
    return h


def gen(rng, kinds=ALL, nobj=None, big=0.05, via=("direct",), opened=None, gz=0.2,
        odd=0.0):
    n = nobj if isinstance(nobj, int) else rng.randrange(*(nobj or (1, 5)))
    if nobj is None and rng.random() < .04:     # (many units, several of one name)
        n = rng.randrange(6, 15)
    spec = {"family": "fits", "seed": rng.randrange(1 << 40),
            "base": f"f{rng.randrange(10, 99)}_{enc.word(rng, 4).lower()}",
            "via": rng.choice(via)}
    spec["gz"] = spec["via"] == "direct" and rng.random() < gz
    spec["ext"] = rng.choice(("fits", "fit", "FITS"))
    if spec["gz"]:
        spec["ext"] = "fits"
    odd = rng.random() < odd
    spec["hdus"] = [_hdu(rng, i, kinds, rng.random() < big, odd and spec["via"] == "direct")
                    for i in range(n)]
    if spec["via"] != "direct":
        # the label names objects; units are found by position
        spec["ptr"] = rng.choice(("rec", "bytes", "plain"))
        spec["hdrobj"] = rng.random() < .5
        spec["fncase"] = rng.choice(("same", "same", "upper", "lower"))
        spec["ids"] = rng.choice(("name", "name", "local_identifier", "both", "none"))
        spec["lsc"] = {f"U{i}_IMAGE": [("SCALING_FACTOR", 2.5), ("OFFSET", -3.0)]
                       for i in range(n) if rng.random() < .3}
        if all(h["kind"] == "stub" for h in spec["hdus"]):
            spec["hdus"][0] = _hdu(rng, 0, ("image",), False)
    return spec


# ---------------------------------------------------------------------------
def _card(k, v, c=None):
    if isinstance(v, bool):
        s = f"{k:<8}= {'T' if v else 'F':>20}"
    elif isinstance(v, str):
        s = f"{k:<8}= '{v:<8}'"
        s = f"{s:<30}"
    elif isinstance(v, float):
        s = f"{k:<8}= {repr(v).upper():>20}"
    elif v is None:         # a card without a value
        s = f"{k:<8}= {'':>20}"
    else:
        s = f"{k:<8}= {v:>20}"
    if c:
        s += f" / {c}"
    return s


def _header(rng, base, ncards, odd=False):
    items, text = [], []

    def add(k, v, c=None):
        text.append(_card(k, v, c))
        items.append((k, v))
        if c:
            items.append((k + "_comment", c))

    for k, v, c in base:
        add(k, v, c)
    for i in range(ncards):
        k = f"{enc.word(rng, 3)}{i}"
        r = rng.random()
        v = rng.randrange(-9999, 9999) if r < .3 else \
            rng.randrange(-9999, 9999) / 8 if r < .5 else \
            rng.random() < .5 if r < .6 else enc.word(rng, rng.randrange(1, 12)) if r < .93 \
            else None
        if odd and rng.random() < .4:
            r = rng.random()
            t = " ".join(enc.word(rng, rng.randrange(1, 9)) for _ in range(rng.randrange(1, 7)))
            if r < .4:
                k = rng.choice(("COMMENT", "HISTORY"))
                text.append(f"{k:<8}{t}")
                items.append((k, t))
            elif r < .55:
                text.append("")
            elif r < .7:
                k = f"{enc.word(rng, 9)} {k}"
                text.append(f"HIERARCH {k} = {len(t)}")
                items.append((k, len(t)))
            elif r < .85:
                t = "-".join([t] * (90 // len(t) + 1))
                text.append(f"{k:<8}= '{t[:60]}&'")
                for j in range(60, len(t), 60):
                    text.append(f"CONTINUE  '{t[j:j + 60]}{'&' if j + 60 < len(t) else ''}'")
                items.append((k, t))
            elif len(items) and r < .95:
                add(rng.choice(("AGAIN", "TWICE")), len(t))
            else:
                text.append(f"{k:<8}= {'(1.5, -2.0)':>20}")
                items.append((k, str(complex(1.5, -2))))
            continue
        add(k, v, enc.word(rng, rng.choice((1, 5, 5, 9))) if rng.random() < .5 else None)
    out = "".join(f"{t:<80}" for t in text) + f"{'END':<80}"
    assert all(len(t) <= 80 for t in text)
    out += " " * (-len(out) % 2880)
    return items, out.encode("ascii")


def _build(h, i, rng):
    """cards, data bytes, expectation of the body"""
    base = [("SIMPLE", True, "a FITS file") if i == 0 else
            ("XTENSION", {"table": "BINTABLE", "ascii": "TABLE"}.get(h["kind"], "IMAGE")
             if not h.get("tiles") else "BINTABLE", None)]
    if h["kind"] == "stub":
        base += [("BITPIX", 8, None), ("NAXIS", 0, None)]
        exp, data = Arr(np.array([]), exact_kind=False), b""
    elif h["kind"] == "ascii":
        return _build_ascii(h, rng, base)
    elif h.get("tiles"):
        return _build_tiles(h, rng, base)
    elif h["kind"] == "image":
        code, dt, signed, nb = BITPIX[h["bitpix"]]
        n = 1
        for s in h["shape"]:
            n *= s
        if signed is None:
            v = [enc.rand_real(rng, nb) for _ in range(n)]
        else:
            v = [enc.rand_int(rng, signed, nb) for _ in range(n)]
        if "blank" in h:
            v = [h["blank"] if rng.random() < .3 else a for a in v]
        data = struct.pack(f">{n}{code[1]}", *v)
        base += [("BITPIX", h["bitpix"], None), ("NAXIS", len(h["shape"]), "axes")]
        for ax, s in enumerate(reversed(h["shape"])):
            base.append((f"NAXIS{ax + 1}", s, None))
        arr = np.array(v, dtype=dt).reshape(h["shape"])
        exp = Arr(arr)
        if h["uint"]:
            z = 1 << (h["bitpix"] - 1)
            base += [("BSCALE", 1, None), ("BZERO", z, None)]
            exp = Arr(np.array([a + z for a in v],
                               dtype=f"u{nb}").reshape(h["shape"]))
        elif h["scale"]:
            sc, ze = h["scale"]
            base += [("BSCALE", sc, None), ("BZERO", ze, None)]
            w = np.array([a * sc + ze for a in map(float, v)]).reshape(h["shape"])
            exp = Arr(w, rtol=2e-6 if nb < 4 or h["bitpix"] == -32 else 1e-12)
            if h["bitpix"] in (8, 16, -32):
                # single precision: error relative to the terms of the sum
                exp = Near(w, [abs(float(a) * sc) + abs(ze) for a in v], 1e-6)
            exp.exact_kind = False
        if "blank" in h:
            base.append(("BLANK", h["blank"], None))
            sc, ze = h["scale"] or (1.0, 0.0)
            f = [float("nan") if a == h["blank"] else a * sc + ze for a in map(float, v)]
            exp = Near(np.array(f).reshape(h["shape"]),
                       [abs(float(a) * sc) + abs(ze) for a in v],
                       1e-6 if h["bitpix"] in (8, 16) else 1e-12)
    else:
        base += [("BITPIX", 8, None), ("NAXIS", 2, None)]
        cols, heap = [], b""
        for c in h["cols"]:
            one = {"J": ">i", "I": ">h", "E": ">f", "D": ">d", "B": ">B",
                   "K": ">q", "L": ">c", "C": ">2f", "M": ">2d"}
            col = []
            for _ in range(h["rows"]):
                if c["f"] == "A" and c.get("cells"):
                    s = [enc.word(rng, rng.randrange(1, c["rep"] + 1)) for _ in range(c["cells"])]
                    col.append((s, b"".join(t.encode().ljust(c["rep"], b" ") for t in s)))
                    continue
                if c["f"] == "X":
                    s = [rng.random() < .5 for _ in range(c["rep"])]
                    t = "".join("01"[b] for b in s)
                    t += "0" * (-len(t) % 8)
                    col.append((s, bytes(int(t[k:k + 8], 2) for k in range(0, len(t), 8))))
                    continue
                if c["f"] == "P":
                    m, nb = rng.randrange(0, 5), {"J": 4, "I": 2, "E": 4}[c["of"]]
                    s = [enc.rand_real(rng, 4) if c["of"] == "E" else enc.rand_int(rng, True, nb)
                         for _ in range(m)]
                    col.append(([s], struct.pack(">2i", m, len(heap))))
                    heap += struct.pack(f">{m}{one[c['of']][1]}", *s)
                    continue
                if c["f"] == "A":
                    s = enc.word(rng, rng.randrange(1, c["rep"] + 1))
                    col.append(([s], s.encode().ljust(c["rep"], b" ")))
                    continue
                vs, bs = [], b""
                for _ in range(c["rep"]):
                    if c["f"] in "JIBK":
                        nb = {"J": 4, "I": 2, "B": 1, "K": 8}[c["f"]]
                        a = enc.rand_int(rng, c["f"] != "B", nb)
                        bs += struct.pack(one[c["f"]], a)
                        vs.append(a + (1 << 8 * nb - 1) if c["zero"] else a)
                        if c.get("scal"):
                            vs[-1] = float(a) * c["scal"][0] + c["scal"][1]
                    elif c["f"] in "CM":
                        a = complex(enc.rand_real(rng, 4 if c["f"] == "C" else 8),
                                    enc.rand_real(rng, 4 if c["f"] == "C" else 8))
                        bs += struct.pack(one[c["f"]], a.real, a.imag)
                        vs.append(a)
                    elif c["f"] in "ED":
                        a = enc.rand_real(rng, 4 if c["f"] == "E" else 8)
                        bs += struct.pack(one[c["f"]], a)
                        vs.append(a)
                    else:
                        a = rng.random() < .5
                        bs += b"T" if a else b"F"
                        vs.append(a)
                col.append((vs, bs))
            cols.append(col)
        data = b"".join(b"".join(c[r][1] for c in cols) for r in range(h["rows"]))
        base += [("NAXIS1", sum(len(c[0][1]) for c in cols), None),
                 ("NAXIS2", h["rows"], None), ("PCOUNT", len(heap), None), ("GCOUNT", 1, None),
                 ("TFIELDS", len(cols), None)]
        names = [c["name"] for c in h["cols"]]
        flat, fcols, fdts = [], [], []
        for k, c in enumerate(h["cols"]):
            base += [(f"TTYPE{k + 1}", c["name"], None),
                     (f"TFORM{k + 1}", f"1P{c['of']}(4)" if c["f"] == "P" else
                      f"{c['rep'] * c.get('cells', 1)}{c['f']}", None)]
            if c["zero"]:
                base += [(f"TSCAL{k + 1}", 1, None),
                         (f"TZERO{k + 1}", {"I": 1 << 15, "J": 1 << 31, "K": 1 << 63}[c["f"]], None)]
            if c.get("scal"):
                base += [(f"TSCAL{k + 1}", c["scal"][0], None), (f"TZERO{k + 1}", c["scal"][1], None)]
            if c.get("dim"):
                base.append((f"TDIM{k + 1}", f"({c['dim'][0]},{c['dim'][1]})", None))
            if c.get("cells"):
                base.append((f"TDIM{k + 1}", f"({c['rep']},{c['cells']})", None))
            nm = c["name"]
            if names.count(nm) > 1:
                nm += f"_{names[:k].count(nm)}"
            m = len(cols[k][0][0])
            for j in range(m):
                flat.append(nm if m == 1 else f"{nm}_{j}")
                fcols.append([r[0][j] for r in cols[k]])
                fdts.append("float32" if c.get("scal") else
                            {"E": "float32", "D": "float", "A": "padded", "L": "bool", "X": "bool",
                             "C": "complex", "M": "complex", "P": "list"}.get(c["f"], "int"))
        data += heap
        exp = Tab(flat, fcols, fdts)
    if i > 0 and h["kind"] != "table":
        base += [("PCOUNT", 0, None), ("GCOUNT", 1, None)]
    elif i == 0:
        base += [("EXTEND", True, None)]
    if h["name"]:
        base.append(("EXTNAME", h["name"], None))
    return base, data, exp


def _build_ascii(h, rng, base):
    names = [c["name"] for c in h["cols"]]
    at, form, flat, cols, dts = 0, [], [], [], []
    for k, c in enumerate(h["cols"]):
        at += c["gap"]
        w = {"I": c["w"] + 1, "A": c["w"], "F": 12, "E": 15, "D": 24}[c["f"]]
        form.append((at, w))
        at += w
        col = []
        for _ in range(h["rows"]):
            if c["f"] == "I":
                t = str(rng.randrange(-10 ** c["w"] + 1, 10 ** c["w"]))
                col.append((int(t), t.rjust(w)))
            elif c["f"] == "A":
                t = enc.word(rng, rng.randrange(1, w + 1))
                col.append((t, t.ljust(w)))
            elif c["f"] == "F":
                t = f"{rng.randrange(-10 ** 8, 10 ** 8) / 1000:.3f}"
                col.append((float(t), t.rjust(w)))
            else:
                v = rng.uniform(-10, 10) * 10.0 ** rng.randrange(-30, 30)
                t = f"{v:.7E}" if c["f"] == "E" else f"{v:.15E}"
                col.append((float(t), t.replace("E", c["f"]).rjust(w)))
        cols.append(col)
        # (single letters that differ only in case do not occur)
        flat.append(c["name"] + (f"_{names[:k].count(c['name'])}"
                                 if names.count(c["name"]) > 1 else ""))
        dts.append({"I": "int", "A": "padded", "E": "float32"}.get(c["f"], "float"))
    data = b""
    for r in range(h["rows"]):
        row = bytearray(b" " * at)
        for (a, w), col in zip(form, cols):
            row[a:a + w] = col[r][1].encode()
        data += bytes(row)
    base += [("BITPIX", 8, None), ("NAXIS", 2, None), ("NAXIS1", at, None),
             ("NAXIS2", h["rows"], None), ("PCOUNT", 0, None), ("GCOUNT", 1, None),
             ("TFIELDS", len(form), None)]
    for k, (c, (a, w)) in enumerate(zip(h["cols"], form)):
        base += [(f"TTYPE{k + 1}", c["name"], None), (f"TBCOL{k + 1}", a + 1, None),
                 (f"TFORM{k + 1}", {"F": "F12.3", "E": "E15.7", "D": "D24.15"}
                  .get(c["f"], f"{c['f']}{w}"), None)]
    if h["name"]:
        base.append(("EXTNAME", h["name"], None))
    return base, data, Tab(flat, [[v for v, _ in c] for c in cols], dts)


def _build_tiles(h, rng, base):
    """an image kept as a table of compressed rows"""
    code, dt, signed, nb = BITPIX[h["bitpix"]]
    n = int(np.prod(h["shape"]))
    v = [enc.rand_int(rng, signed, nb) for _ in range(n)]
    w = h["shape"][-1]
    heap, desc = b"", b""
    for r in range(0, n, w):
        t = gzip.compress(struct.pack(f">{w}{code[1]}", *v[r:r + w]), mtime=0)
        desc += struct.pack(">2i", len(t), len(heap))
        heap += t
    base += [("BITPIX", 8, None), ("NAXIS", 2, None), ("NAXIS1", 8, None),
             ("NAXIS2", n // w, None), ("PCOUNT", len(heap), None), ("GCOUNT", 1, None),
             ("TFIELDS", 1, None), ("TTYPE1", "COMPRESSED_DATA", None),
             ("TFORM1", f"1PB({max(1, len(heap))})", None), ("ZIMAGE", True, None),
             ("ZCMPTYPE", "GZIP_1", None), ("ZBITPIX", h["bitpix"], None),
             ("ZNAXIS", len(h["shape"]), None)]
    for ax, s in enumerate(reversed(h["shape"])):
        base += [(f"ZNAXIS{ax + 1}", s, None), (f"ZTILE{ax + 1}", s if ax == 0 else 1, None)]
    if h["name"]:
        base.append(("EXTNAME", h["name"], None))
    return base, desc + heap, Arr(np.array(v, dtype=dt).reshape(h["shape"]))


class Near(Exp):
    """values in single precision: close relative to the size of their terms"""

    def __init__(self, arr, terms, tol):
        self.arr, self.terms, self.tol = arr, np.array(terms).reshape(arr.shape), tol

    def diff(self, got):
        if type(got).__name__ != "ndarray":
            return f"not an array but {type(got).__name__}: {str(got)[:60]!r}"
        if got.shape != self.arr.shape:
            return f"shape {got.shape}, stored {self.arr.shape}"
        g = np.asarray(got, dtype="f8")
        bad = ~((np.abs(g - self.arr) <= self.tol * self.terms) | ((g != g) & (self.arr != self.arr)))
        if bad.any():
            ix = tuple(int(v) for v in np.argwhere(bad)[0])
            return (f"{int(bad.sum())} of {bad.size} values differ, first at {ix}: "
                    f"{got[ix]!r}, stored {self.arr[ix]!r}")
        return None


def materialize(spec, root, keep=False):
    w = World(root)
    os.makedirs(root, exist_ok=True)
    w.dir = root
    body, units = b"", []
    for i, h in enumerate(spec["hdus"]):
        rng = random.Random(f"{spec['seed']}:{i}")
        base, data, exp = _build(h, i, rng)
        items, htext = _header(rng, base, h["cards"], h.get("odd"))
        hpos, dpos = len(body), len(body) + len(htext)
        data += b"\0" * (-len(data) % 2880)
        body += htext + data
        units.append((h, items, exp, hpos, dpos, len(data)))
    fn = f"{spec['base']}.{spec['ext']}" + (".gz" if spec["gz"] else "")
    p = os.path.join(root, fn)
    w.write(p, gzip.compress(body, mtime=0) if spec["gz"] else body)
    w.paths = [p]
    w.spec = spec
    w.derived = {}

    def put(name, exp, kind, loc):
        exp.file, exp.kind, exp.loc = p, kind, (0,) + loc
        exp.comp = "gz" if spec["gz"] else None
        w.expected[name] = exp

    if spec["via"] == "direct":
        names = [h["name"] or ("PRIMARY" if i == 0 else "")
                 for i, (h, *_) in enumerate(units)]
        final = [n if names.count(n) == 1 else f"{n}_{names[:i].count(n)}"
                 for i, n in enumerate(names)]
        order = []
        for n in names:      # grouped by name, in order of first appearance
            for f, m in zip(final, names):
                if m == n and f not in order:
                    order.append(f)
        w.keys = order
        for f, (h, items, exp, hpos, dpos, n) in zip(final, units):
            put(f, exp, "fits_" + h["kind"], (dpos, n))
            # (of tiled images astropy shows the image's header, not the table's)
            w.derived[f + "_HEADER"] = (f, AnyCards() if h.get("tiles") else Cards(items))
        w.main = p
        w.label_text = None
        return w
    objs = []
    if spec["via"] == "pds3":        # (file names there need not be of the right case)
        fn = {"upper": fn.upper(), "lower": fn.lower()}.get(spec.get("fncase"), fn)
    for i, (h, items, exp, hpos, dpos, n) in enumerate(units):
        if spec["hdrobj"]:
            objs.append((f"H{i}_HEADER" if spec["via"] == "pds3" else f"head {i}",
                         "header", hpos, dpos - hpos, h, Cards(items)))
        if h["kind"] == "stub":
            continue
        nm = {"image": f"U{i}_IMAGE", "table": f"U{i}_TABLE"}[h["kind"]] \
            if spec["via"] == "pds3" else f"unit {i}"
        objs.append((nm, h["kind"], dpos, n, h, exp))
    if spec["via"] == "pds3":
        lab = ["PDS_VERSION_ID = PDS3", "RECORD_TYPE = FIXED_LENGTH",
               "RECORD_BYTES = 2880", f"FILE_RECORDS = {len(body) // 2880}"]
        for nm, kind, pos, n, h, exp in objs:
            if spec["ptr"] == "plain" and pos == 0:
                lab.append(f'^{nm} = "{fn}"')
            elif spec["ptr"] == "bytes":
                lab.append(f'^{nm} = ("{fn}", {pos + 1} <BYTES>)')
            else:
                lab.append(f'^{nm} = ("{fn}", {pos // 2880 + 1})')
        lab += ['DATA_SET_ID = "VPSIM-T-TEST-3-V1.0"', f'PRODUCT_ID = "{spec["base"]}"']
        for nm, kind, pos, n, h, exp in objs:
            lab.append(f"OBJECT = {nm}")
            if kind == "header":
                lab += [f"  BYTES = {n}", "  HEADER_TYPE = FITS"]
            elif kind == "image":
                s = h["shape"]
                lab += [f"  LINES = {s[-2] if len(s) > 1 else 1}",
                        f"  LINE_SAMPLES = {s[-1]}", f"  SAMPLE_BITS = {abs(h['bitpix'])}",
                        f"  SAMPLE_TYPE = {'IEEE_REAL' if h['bitpix'] < 0 else 'MSB_INTEGER'}"]
                # (the label repeats what has been done to the array already)
                lsc = (spec.get("lsc") or {}).get(nm)
                lab += [f"  {k} = {v}" for k, v in lsc or ()]
            else:
                lab += [f"  ROWS = {h['rows']}", f"  COLUMNS = {len(h['cols'])}",
                        "  INTERCHANGE_FORMAT = BINARY"]
            lab.append(f"END_OBJECT = {nm}")
            put(nm, exp, "fits_" + kind, (pos, n))
            if kind != "header":
                i = int(nm[1:].split("_")[0])
                w.derived[nm + "_HEADER"] = (nm, Cards(units[i][1]))
        lp = os.path.join(root, spec["base"] + ".LBL")
        text = "\r\n".join(lab) + "\r\nEND\r\n"
        w.write(lp, text.encode())
        w.keys = ["LABEL"] + [o[0] for o in objs]
        e = Txt(text.replace("\r\n", "\n"), rstrip=True)
        e.file, e.kind = lp, "label"
        w.expected["LABEL"] = e
        w.meta = {"PRODUCT_ID": spec["base"], "RECORD_BYTES": 2880}
    else:
        items, counts, ids = [x("File", x("file_name", fn))], {}, spec.get("ids", "name")
        w.keys = []
        for nm, kind, pos, n, h, exp in objs:
            key = nm.replace(" ", "_")
            head = [x("offset", pos, unit="byte")]
            if ids == "name":
                head.insert(0, x("name", nm))
            elif ids != "none":
                head.insert(0, x("local_identifier", nm))
                if ids == "both":
                    head.insert(0, x("name", f"the {kind} at {pos}"))
            else:
                tag = {"header": "HEADER", "image": "ARRAY"}.get(kind, "TABLE")
                key = f"{tag}_{counts.setdefault(tag, 0)}"
                counts[tag] += 1
            w.keys.append(key)
            if kind == "header":
                items.append(x("Header", "\n".join(head + [
                    x("object_length", n, unit="byte"),
                    x("parsing_standard_id", "FITS 3.0")])))
            elif kind == "image":
                t = {8: "UnsignedByte", 16: "SignedMSB2", 32: "SignedMSB4",
                     64: "SignedMSB8", -32: "IEEE754MSBSingle",
                     -64: "IEEE754MSBDouble"}[h["bitpix"]]
                # (the label may repeat how the stored numbers are to be scaled)
                lsc = "" if f"U{nm.split()[1]}_IMAGE" not in (spec.get("lsc") or {}) else \
                    x("scaling_factor", 2.5) + x("value_offset", -3.0)
                axes = [x("Axis_Array", x("axis_name", f"ax{k}") + x("elements", m)
                          + x("sequence_number", k + 1)) for k, m in enumerate(h["shape"])]
                items.append(x("Array", "\n".join(
                    head + [x("axes", len(h["shape"])),
                            x("axis_index_order", "Last Index Fastest"),
                            x("Element_Array", x("data_type", t) + lsc)] + axes)))
            else:
                items.append(x("Table_Binary", "\n".join(head + [
                    x("records", h["rows"]),
                    x("Record_Binary", x("fields", 0) + x("groups", 0)
                      + x("record_length", n // h["rows"], unit="byte"))])))
            put(key, exp, "fits_" + kind, (pos, n))
            if kind != "header" and (not spec["hdrobj"] or spec.get("ids") == "none"):
                w.derived[key + "_HEADER"] = (key, Cards(units[int(nm.split()[1])][1]))
        lid = f"urn:nasa:pds:vpsim:data:{spec['base']}"
        ident = x("Identification_Area", x("logical_identifier", lid)
                  + x("version_id", "1.0") + x("title", "a simulated product")
                  + x("information_model_version", "1.14.0.0")
                  + x("product_class", "Product_Observational"))
        text = '<?xml version="1.0" encoding="UTF-8"?>\n' + x(
            "Product_Observational", ident + x("File_Area_Observational", "\n".join(items)),
            xmlns="http://pds.nasa.gov/pds4/pds/v1") + "\n"
        lp = os.path.join(root, spec["base"] + ".xml")
        w.write(lp, text.encode())
        w.keys.append("label")
        w.meta = {"logical_identifier": lid}
    w.label_path, w.label_text, w.main = lp, text, lp
    return w


def shrinks(spec):
    for i in range(len(spec["hdus"])):
        if len(spec["hdus"]) > 1 and not (
                i == 0 and (spec["hdus"][1]["kind"] in ("table", "ascii")
                            or spec["hdus"][1].get("tiles"))):
            s = _copy(spec)
            del s["hdus"][i]
            yield s
    for i, h in enumerate(spec["hdus"]):
        for key in ("blank", "tiles", "scale"):
            if h.get(key) is not None and h.get(key) is not False:
                s = _copy(spec)
                s["hdus"][i].pop(key)
                s["hdus"][i].setdefault("scale", None)
                yield s
        for key in ("cards",):
            if h.get(key):
                s = _copy(spec)
                s["hdus"][i][key] = 0
                yield s
        if h.get("rows", 1) > 1:
            s = _copy(spec)
            s["hdus"][i]["rows"] //= 2
            yield s
        if len(h.get("cols") or ()) > 1:
            for j in range(len(h["cols"])):
                s = _copy(spec)
                del s["hdus"][i]["cols"][j]
                yield s
        for ax in range(len(h.get("shape") or ())):
            if h["shape"][ax] > 1:
                s = _copy(spec)
                s["hdus"][i]["shape"][ax] //= 2
                yield s
    if spec.get("gz"):
        s = _copy(spec)
        s["gz"] = False
        yield s
