"""
Generator of PDS3 products: a JSON spec is drawn from a seeded generator, and
`materialize` turns a spec into real files plus the expected value of every
object, computed from the values that were written (never from the library).
"""
from __future__ import annotations

import bz2
import gzip
import io
import os
import random
import re
import struct
import zipfile

import numpy as np

from . import enc
from .world import World, Arr, Recs, Tab, Txt

IMAGE_TYPES = sorted(enc.PDS3_INTS) + sorted(enc.PDS3_REALS) + ["VAX_REAL"]


# ---------------------------------------------------------------------------
# drawing specs
# ---------------------------------------------------------------------------
def pick(rng, *pairs):
    """weighted choice over (weight, value)"""
    tot = sum(w for w, _ in pairs)
    x = rng.random() * tot
    for w, v in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][1]


def _sample_type(rng, small=False):
    t = rng.choice(IMAGE_TYPES)
    if t == "VAX_REAL":
        return t, 4
    if t in enc.PDS3_REALS:
        return t, rng.choice((4, 8))
    return t, pick(rng, (3, 1), (4, 2), (2, 4), (1, 8))


def g_image(rng, big=False, ptab=0.08):
    t, nb = _sample_type(rng)
    bands = pick(rng, (6, None), (1, 1), (2, 2), (3, 3), (1, 5))
    if ptab == 1:
        bands = None
    hi = pick(rng, (3, 90), (1, 260)) if big else 14
    o = {"kind": "image", "type": t, "nb": nb, "lines": rng.randrange(1, hi),
         "samples": rng.randrange(1, hi), "bands": bands, "bst": None,
         "pre": 0, "suf": 0}
    if bands is not None:
        o["bst"] = rng.choice(
            ("BAND_SEQUENTIAL", "LINE_INTERLEAVED", "SAMPLE_INTERLEAVED"))
    if rng.random() < 0.35 and (bands in (None, 1) or o["bst"] == "LINE_INTERLEAVED"):
        if rng.random() < 0.7:
            o["pre"] = nb * rng.randrange(1, 5)
        if rng.random() < 0.6:
            o["suf"] = nb * rng.randrange(1, 5)
    if rng.random() < ptab and bands is None:
        # the bytes before each line are a row of a table of their own
        cols = [_bcol(rng, i, plain=True) for i in range(rng.randrange(1, 5))]
        cols[0]["gap"] = 0
        size = sum(c["gap"] + _colbytes(c) for c in cols)
        o["ptab"] = {"cols": cols, "spare": -size % nb,
                     "wrap": size % nb > 0 or rng.random() < .5}
        o["pre"], o["suf"] = size + o["ptab"]["spare"], 0
    return o


def g_qube(rng, big=False):
    t, nb = _sample_type(rng)
    hi = 24 if big else 7
    axes = rng.choice((["SAMPLE", "LINE", "BAND"], ["BAND", "SAMPLE", "LINE"],
                       ["SAMPLE", "BAND", "LINE"]))
    o = {"kind": "qube", "type": t, "nb": nb, "axes": axes,
         "items": {"SAMPLE": rng.randrange(1, hi), "LINE": rng.randrange(1, hi),
                   "BAND": pick(rng, (1, 1), (6, rng.randrange(2, hi)))},
         "fix": None}
    if rng.random() < 0.5:
        ax = rng.choice(("SAMPLE", "LINE", "BAND"))
        if not (ax == "BAND" and o["items"]["BAND"] == 1):
            o["fix"] = [rng.choice(("SUFFIX", "SUFFIX", "PREFIX")), ax,
                        rng.randrange(1, 4)]
            # the items before/after may be wider than the core's, their widths may be
            # listed one by one, there may be some on the other side as well, and
            # none of them may be declared for the other axes
            o["fixmul"] = pick(rng, (3, 1), (1, 2), (1, 4))
            o["fixseq"] = rng.random() < .3
            o["fixboth"] = rng.randrange(1, 3) if rng.random() < .2 else 0
            o["fixnone"] = rng.random() < .25
    if rng.random() < .25:
        o["bst"] = True
    return o


def _bitcols(rng, nbytes):
    bits, out, pos, n = nbytes * 8, [], 1, 0
    while pos <= bits and len(out) < 5:
        w = rng.randrange(1, min(9, bits - pos + 2))
        if rng.random() < 0.3:
            k = rng.randrange(2, 4)
            if pos - 1 + w * k <= bits:
                out.append({"name": f"BF{n}", "start": pos, "items": k, "bits": w})
                pos += w * k + rng.randrange(0, 2)
                n += 1
                continue
        out.append({"name": f"BF{n}", "start": pos, "items": None, "bits": w})
        pos += w + rng.randrange(0, 3)
        n += 1
    return out


def _bcol(rng, n, plain=False):
    """one binary column"""
    r = rng.random()
    c = {"name": f"COL{n}_{enc.word(rng, 3)}", "gap": pick(rng, (5, 0), (1, rng.randrange(1, 5))),
         "items": None, "sf": None, "off": None, "bits": None}
    if r < 0.42:
        c["type"] = rng.choice(sorted(enc.PDS3_INTS))
        c["bytes"] = rng.choice((1, 2, 2, 4, 4, 8))
    elif r < 0.62:
        c["type"] = rng.choice(sorted(enc.PDS3_REALS))
        c["bytes"] = rng.choice((4, 8))
    elif r < 0.77:
        c["type"] = rng.choice(("CHARACTER", "CHARACTER", "DATE", "TIME"))
        c["bytes"] = rng.randrange(1, 13)
    elif r < 0.81:
        c["type"], c["bytes"] = "BOOLEAN", 1
    elif r < 0.845:
        c["type"], c["bytes"] = "VAX_REAL", 4
    elif r < 0.88:
        c["type"], c["bytes"] = "IBM_REAL", rng.choice((4, 8))
    elif r < 0.905:
        c["type"], c["bytes"] = "EBCDIC_CHARACTER", rng.randrange(1, 9)
    elif plain:
        c["type"], c["bytes"] = "MSB_INTEGER", 2
    else:
        c["type"] = rng.choice(("MSB_BIT_STRING", "LSB_BIT_STRING",
                                "MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"))
        c["bytes"] = rng.choice((1, 2, 4))
        if c["type"].startswith("MSB") and rng.random() < .5:
            c["bytes"] = rng.choice((3, 5, 6, 7, 8))
        c["bits"] = _bitcols(rng, c["bytes"])
        return c
    if c["type"] in enc.PDS3_INTS or c["type"] in enc.PDS3_REALS:
        if not plain and rng.random() < 0.2:
            c["items"] = rng.randrange(2, 5)
            c["ioff"] = pick(rng, (3, 0), (1, rng.randrange(1, 4)))
        if rng.random() < 0.25:
            c["sf"] = rng.choice((0.5, 2.0, 0.001, 1.5, 1.0, 2, 10, 1000, 1, -3))
        if rng.random() < 0.2:
            c["off"] = rng.choice((10.0, -2.5, 0.0, 1.0, 1, -273, 40000))
    return c


def g_table_bin(rng, big=False, name=None):
    ncol = rng.randrange(1, 7)
    cols = []
    prev_cont = False
    for i in range(ncol):
        # (what containers cannot do: known_findings.jsonl)
        if cols and not prev_cont and rng.random() < 0.12:
            cc = [_bcol(rng, f"{i}{j}", plain=True) for j in range(rng.randrange(1, 4))]
            cols.append({"container": f"CONT{i}_{enc.word(rng, 2)}", "reps": rng.randrange(1, 4),
                         "cols": cc, "gap": 0,
                         "spare": pick(rng, (3, 0), (1, 1))})
            prev_cont = True
        else:
            cols.append(_bcol(rng, i))
            prev_cont = False
    o = {"kind": "table_bin", "rows": rng.randrange(1, 400 if big else 12),
         "cols": cols, "pre": 0, "suf": 0, "spare": 0,
         "fmt": pick(rng, (6, None), (1, "same"), (1, "lower"), (1, "labeldir"))}
    if rng.random() < 0.2:
        o["pre"] = rng.randrange(1, 9)
    elif rng.random() < 0.3:
        o["suf"] = rng.randrange(1, 9)
    if o["pre"]:
        for c in cols:
            if "container" in c:
                c["spare"] = 0
    if o["pre"] == 0 and rng.random() < 0.2:
        o["spare"] = rng.randrange(1, 6)
    if any("container" in c for c in cols):
        o["fmt"] = None
    if rng.random() < 0.04 and o["fmt"] is None:
        # repeated column names are told apart by numbers
        for c in cols:
            if "container" not in c:
                c["name"] = "SAME"
    return o


def _acol(rng, n):
    r = rng.random()
    c = {"name": f"COL{n}_{enc.word(rng, 3)}", "items": None, "sf": None, "off": None}
    if r < 0.4:
        c["type"], c["bytes"] = "ASCII_INTEGER", rng.randrange(2, 10)
    elif r < 0.75:
        c["type"], c["bytes"] = "ASCII_REAL", rng.randrange(7, 13)
    else:
        c["type"], c["bytes"] = rng.choice(("CHARACTER", "TIME")), rng.randrange(2, 12)
    if c["type"].startswith("ASCII"):
        if rng.random() < 0.2:
            c["sf"] = rng.choice((0.5, 2.0, 0.01, 3, 100, -1))
        if rng.random() < 0.15:
            c["off"] = rng.choice((10.0, -2.5, 7, -100))
    return c


def g_table_fixed(rng, big=False):
    cols = [_acol(rng, i) for i in range(rng.randrange(2, 7))]
    sep, quote = rng.choice((",", ",", " ", "  ")), rng.random() < 0.5
    for c in cols:
        if rng.random() < .12:
            c["items"] = rng.randrange(2, 5)
            c["ioff"] = len(sep) + (2 if quote and c["type"] in ("CHARACTER", "TIME") else 0)
    # bytes behind the row proper: its line's end, perhaps with more before it
    rowsuf = pick(rng, (7, 0), (1, 2), (1, rng.randrange(3, 12)))
    return {"kind": "table_fixed", "rows": rng.randrange(1, 300 if big else 12),
            "cols": cols, "sep": sep, "quote": quote,
            "rowsuf": min(rowsuf, 2) if sep == "," else rowsuf,
            "commas": pick(rng, (6, None), (2, "few"), (2, "many")),
            "rowpre": rng.randrange(1, 12) if sep != "," and rng.random() < .15 else 0,
            "fmt": pick(rng, (6, None), (1, "same"), (1, "lower"), (1, "labeldir"))}


def g_table_delim(rng, big=False):
    cols = [_acol(rng, i) for i in range(rng.randrange(2, 7))]
    for c in cols:
        # (a field may be empty)
        c["missing"] = pick(rng, (9, 0), (1, 0.3))
    return {"kind": "table_delim", "rows": rng.randrange(1, 300 if big else 12),
            "cols": cols,
            "delim": rng.choice((None, "COMMA", "VERTICAL_BAR", "SEMICOLON", "TAB")),
            "quote": rng.random() < 0.5, "pos": "BYTES"}


def g_histogram(rng, big=False):
    t = rng.choice(sorted(enc.PDS3_INTS))
    return {"kind": "histogram", "type": t, "nb": rng.choice((1, 2, 4, 4, 8)),
            "items": rng.choice((1, 2, 16, 64, 256))}


def g_text(rng, big=False):
    return {"kind": "text", "lines": rng.randrange(1, 400 if big else 20),
            "teol": rng.choice(("\r\n", "\n", "\r\n", "\r"))}


def g_header(rng, big=False):
    return {"kind": "header", "lines": rng.randrange(1, pick(rng, (2, 200), (1, 2200)) if big else 12),
            "latin": rng.random() < 0.2, "pos": "BYTES"}


def g_array_bin(rng, big=False):
    t = rng.choice(sorted(enc.PDS3_INTS) + sorted(enc.PDS3_REALS))
    nb = rng.choice((4, 8)) if t in enc.PDS3_REALS else rng.choice((1, 2, 4, 8))
    ndim = rng.randrange(1, 4)
    return {"kind": "array_bin", "type": t, "nb": nb, "element": False,
            "shape": [rng.randrange(1, 30 if big else 7) for _ in range(ndim)]}


def g_array_ascii(rng, big=False):
    ndim = rng.randrange(1, 3)
    return {"kind": "array_ascii", "shape": [rng.randrange(1, 12) for _ in range(ndim)],
            "exp": rng.random() < 0.3}


GEN = {
    "image": g_image, "qube": g_qube, "table_bin": g_table_bin,
    "table_fixed": g_table_fixed, "table_delim": g_table_delim,
    "histogram": g_histogram, "text": g_text, "header": g_header,
    "array_bin": g_array_bin, "array_ascii": g_array_ascii,
}
ALL = tuple(GEN)
GEN["prefixed"] = lambda rng, big=False: g_image(rng, big, 1)
NAMES = {
    "image": ("IMAGE", "BROWSE_IMAGE", "QUALITY_IMAGE", "ERROR_IMAGE", "HISTOGRAM_IMAGE"),
    "qube": ("QUBE", "SPECTRAL_QUBE", "BACK_QUBE"),
    "table_bin": ("TABLE", "TIME_SERIES", "SPECTRUM", "ENG_TABLE", "SERIES",
                  "CAL_SPECTRUM", "IMAGE_TIME_TABLE", "QUB_TABLE"),
    "table_fixed": ("TABLE", "ASCII_TABLE", "INDEX_TABLE", "GAZ_TABLE", "SERIES"),
    "table_delim": ("SPREADSHEET", "ORBIT_SPREADSHEET", "EXTRA_SPREADSHEET"),
    "histogram": ("HISTOGRAM", "IMAGE_HISTOGRAM", "RAW_HISTOGRAM"),
    "text": ("TEXT", "NOTE_TEXT", "EXTRA_TEXT", "TABLE_TEXT", "HEADER_TEXT", "IMAGE_TEXT",
             "MAP_PROJECTION_CATALOG"),
    "header": ("HEADER", "IMAGE_HEADER", "TABLE_HEADER", "EXT_HEADER"),
    "array_bin": ("ARRAY", "DATA_ARRAY", "GRID_ARRAY", "IMAGE_ARRAY"),
    "array_ascii": ("ARRAY", "ASCII_ARRAY", "LIST_ARRAY", "TABLE_ARRAY"),
}
OWN_FILE = {"text", "array_ascii"}   # one object, alone in a file
EXT = {"image": "IMG", "qube": "QUB", "table_bin": "DAT", "table_fixed": "TAB",
       "table_delim": "CSV", "histogram": "DAT", "text": "TXT", "header": "DAT",
       "array_bin": "DAT", "array_ascii": "ASC"}

NAMES["prefixed"] = NAMES["image"]
EXT["prefixed"] = EXT["image"]


def gen(rng, kinds=ALL, nobj=None, big=0.06, comp=0.3, attached=0.4,
        multi_file=0.35, case_var=0.2, opened=("label",), stream=0.3,
        dup=0.03, subdirs=False, bottom=False):
    """draw a product spec; `bottom`: also tables placed by their end alone (which
    nothing can place any more once the file is cut, so not where files are)"""
    n = nobj if isinstance(nobj, int) else rng.randrange(*(nobj or (1, 4)))
    byrows = kinds is ALL and rng.random() < .06
    if byrows:
        kinds, n, stream = ("table_delim", "table_delim", "header", "text"), pick(
            rng, (3, 1), (1, 2)) if nobj is None else n, .95
        attached = 0
    spec = {"family": "pds3", "seed": rng.randrange(1 << 40), "eol": rng.choice(("\r\n", "\r\n", "\n")),
            "base": f"V{rng.randrange(10, 99)}_{enc.word(rng, 4)}"}
    if rng.random() < .12:      # file names with more dots than one
        spec["base"] = f"V{rng.randrange(1, 9)}.{rng.randrange(9)}_{enc.word(rng, 4)}"
    if rng.random() < .1:       # a folder whose name looks like a file's
        spec["dir"] = rng.choice(("set.fits.d", "NOTES.PDF.D", "V1.LBL", "x.gz", "maps.xml",
                                  "a b.jpg", "old.zip", "tables.csv"))
    names, objs = set(), []
    for _ in range(n):
        kind = rng.choice(kinds)
        avail = [x for x in NAMES[kind] if x not in names]
        if not avail:
            continue
        o = GEN[kind](rng, big=rng.random() < big)
        o["name"] = rng.choice(avail)
        if o.get("ptab") and o["name"] == "HISTOGRAM_IMAGE":   # (taken for an image's too)
            o["name"] = next((x for x in ("IMAGE", "RAW_IMAGE") if x not in names), None)
            if o["name"] is None:
                continue
        names.add(o["name"])
        objs.append(o)
    att = rng.random() < attached
    if all(o["kind"] in OWN_FILE for o in objs):
        att = False
    spec["attached"] = att
    # files
    files = []
    if att:
        files.append({"ext": rng.choice(("IMG", "DAT", "PDS")), "own": False})
    for o in objs:
        own = o["kind"] in OWN_FILE
        cands = [i for i, f in enumerate(files) if not f["own"]]
        if own or not cands or rng.random() < multi_file:
            files.append({"ext": EXT[o["kind"]], "own": own})
            o["file"] = len(files) - 1
        else:
            o["file"] = rng.choice(cands)
        o["gap"] = 0 if own else pick(rng, (4, 0), (1, rng.randrange(1, 40)),
                                      (1, rng.randrange(1, 700)))
        o["ptr"] = rng.choice(("rec", "bytes"))
    for i, f in enumerate(files):
        f["stem"] = spec["base"] if i == 0 else f"{spec['base']}_{i}"
        f["comp"] = rng.choice(("gz", "bz2", "zip")) if rng.random() < comp else None
        if f["comp"] and rng.random() < .3:
            # several members or streams, or merely stored
            f["how"] = rng.randrange(2, 5)
        f["case"] = rng.choice(("lower", "title")) if rng.random() < case_var else "same"
        f["tail"] = pick(rng, (3, 0), (1, rng.randrange(1, 60)))
    spec["files"], spec["objs"] = files, objs
    # record structure
    if rng.random() < stream:
        spec["rtype"], spec["rb"] = rng.choice(("STREAM", "STREAM" if byrows else "UNDEFINED")), None
    else:
        spec["rtype"], spec["rb"] = "FIXED_LENGTH", rng.choice((16, 32, 80, 100, 128, 256, 512, 1024))
    for o in objs:
        if spec["rb"] is None:
            o["ptr"] = "bytes"
    spec["lblpad"] = rng.choice((" ", " ", "\0")) if att else ""
    spec["lblcase"] = "same"
    spec["open"] = rng.choice(opened)
    if att:
        spec["open"] = "label"
    spec["filler"] = pick(rng, (6, 3), (1, 40), (1, 0))
    spec["rich"] = pick(rng, (6, 0), (1, 4), (1, 25))
    for o in objs:
        if o.get("fmt") and rng.random() < .4:
            o["fmtparts"] = rng.randrange(1, 4)
        if o["ptr"] == "rec":
            # records of the object's own length; records by name
            if o["kind"] in ("image", "qube", "table_bin", "array_bin", "histogram") \
                    and not o.get("ptab") and rng.random() < .12:
                o["recb"] = rng.randrange(8, 300)
            o["qty"] = rng.random() < .1
        elif bottom and spec["rtype"] == "UNDEFINED" and o["kind"] in ("table_fixed", "table_bin") \
                and sum(x["file"] == o["file"] for x in objs) == 1 \
                and not (att and o["file"] == 0) and not files[o["file"]]["comp"] \
                and not any(o.get(k) for k in ("pre", "suf", "rowpre", "rowsuf")) \
                and rng.random() < .5:
            # a number that means nothing without a record length: the table ends the file
            o["ptr"], files[o["file"]]["tail"] = "bottom", 0
    # tables and headers whose place and length are stated in rows
    for k, o in reversed(list(enumerate(list(objs)))):
        if spec["rtype"] != "STREAM" or o["kind"] not in ("table_delim", "header") \
                or att and o["file"] == 0 \
                or sum(x["file"] == o["file"] for x in objs) > 1 \
                or rng.random() >= (.8 if o["kind"] == "table_delim" else .5):
            continue
        if o["kind"] == "header":
            o.update(pos="ROWS", latin=False, gap=0, ptr="row")
            continue
        o.update(pos="ROWS", gap=0, ptr="row", skiprows=rng.choice((0, 0, 1, 3)))
        free = [x for x in NAMES["header"] if x not in names]
        if o["skiprows"] and rng.random() < .5 and free:
            # the rows before the table are a header
            name = rng.choice(free)
            names.add(name)
            objs.insert(k, {"kind": "header", "lines": o["skiprows"], "latin": False,
                            "pos": "ROWS", "name": name, "gap": 0,
                            "file": o["file"], "ptr": "row"})
            o["skiprows"] = 0
    return spec


# ---------------------------------------------------------------------------
# building objects
# ---------------------------------------------------------------------------
def _vals(rng, t, nb, n):
    """n values of a PDS3 numeric type: (values, bytes)"""
    if t in enc.PDS3_INTS:
        order, signed = enc.PDS3_INTS[t]
        v = [enc.rand_int(rng, signed, nb) for _ in range(n)]
        return v, enc.pack_int(v, order, signed, nb)
    if t in enc.PDS3_REALS:
        order = enc.PDS3_REALS[t]
        v = [enc.rand_real(rng, nb) for _ in range(n)]
        return v, enc.pack_real(v, order, nb)
    if t == "VAX_REAL":
        p = [enc.rand_vax(rng) for _ in range(n)]
        return [x[0] for x in p], b"".join(x[1] for x in p)
    if t == "IBM_REAL":
        p = [enc.rand_ibm(rng, nb) for _ in range(n)]
        return [x[0] for x in p], b"".join(x[1] for x in p)
    raise ValueError(t)


def plant(o, vals, raw, spec):
    """put some of o["plant"]'s values among an array's"""
    t, nb = o["type"], o["nb"]
    if not o.get("plant") or t not in enc.PDS3_INTS and t not in enc.PDS3_REALS:
        return vals, raw
    r = random.Random(f"plant:{spec['seed']}:{o['name']}")
    vals, n = list(vals), len(vals)
    for i in range(n):
        if r.random() < 0.3 or i == 0:
            v = r.choice(o["plant"])
            if t in enc.PDS3_REALS:
                v = float(v)
                v = struct.unpack(">f", struct.pack(">f", v))[0] if nb == 4 else v
            vals[i] = v
    if t in enc.PDS3_INTS:
        return vals, enc.pack_int(vals, *enc.PDS3_INTS[t], nb)
    return vals, enc.pack_real(vals, enc.PDS3_REALS[t], nb)


def _npkind(t, nb):
    if t in enc.PDS3_INTS:
        return np.dtype(("i" if enc.PDS3_INTS[t][1] else "u") + str(nb))
    return np.dtype("f4" if nb == 4 else "f8")


def _cell_type(t, nb):
    return {"type": t, "nb": nb}


def b_image(o, rng, spec):
    nb = o["nb"]
    bands = o["bands"] or 1
    L, S = o["lines"], o["samples"]
    vals, raw = plant(o, *_vals(rng, o["type"], nb, bands * L * S), spec)
    px = [raw[i * nb:(i + 1) * nb] for i in range(bands * L * S)]
    at = lambda b, l, s: px[(b * L + l) * S + s]  # noqa
    out = bytearray()
    fill = lambda n: bytes(rng.randrange(256) for _ in range(n))  # noqa
    if o.get("ptab"):
        prows = _prefix_table(o, rng, spec)
        fill = lambda n: prows.pop(0) if n else b""  # noqa
    bst = o["bst"] or "BAND_SEQUENTIAL"
    if bst == "BAND_SEQUENTIAL":
        for b in range(bands):
            for l in range(L):
                out += fill(o["pre"])
                out += b"".join(at(b, l, s) for s in range(S))
                out += fill(o["suf"])
    elif bst == "LINE_INTERLEAVED":
        for l in range(L):
            out += fill(o["pre"])
            for b in range(bands):
                out += b"".join(at(b, l, s) for s in range(S))
            out += fill(o["suf"])
    else:
        for l in range(L):
            out += fill(o["pre"])
            for s in range(S):
                out += b"".join(at(b, l, s) for b in range(bands))
            out += fill(o["suf"])
    arr = np.array(vals, dtype=_npkind(o["type"], nb)).reshape(bands, L, S)
    if bands == 1:
        arr = arr[0]
    blk = [("LINES", L), ("LINE_SAMPLES", S), ("SAMPLE_TYPE", o["type"]),
           ("SAMPLE_BITS", nb * 8)]
    if o["bands"] is not None:
        blk += [("BANDS", o["bands"]), ("BAND_STORAGE_TYPE", o["bst"])]
    if o["pre"]:
        blk.append(("LINE_PREFIX_BYTES", o["pre"]))
    if o["suf"]:
        blk.append(("LINE_SUFFIX_BYTES", o["suf"]))
    if o.get("ptab"):
        blk.append(("^LINE_PREFIX_STRUCTURE", f'"{o["ptab"]["fn"]}"'))
    for k, v in (o.get("extra") or {}).items():
        blk.append((k, v))
    return bytes(out), "IMAGE", blk, Arr(arr)


def _prefix_table(o, rng, spec):
    """the rows before an image's lines; also writes the file describing them"""
    t = o["ptab"]
    lay, pvl, pos = [], [], 1
    for c in t["cols"]:
        pos += c["gap"]
        pvl += _col_pvl(c, pos)
        lay.append((pos - 1, c))
        pos += _colbytes(c)
    names = [c["name"] for _, c in lay for _ in range(c["items"] or 1)]
    dts = [_coldtype(c) for _, c in lay for _ in range(c["items"] or 1)]
    cols = [[] for _ in names]
    rows = []
    for _ in range(o["lines"]):
        row, k = bytearray(rng.randrange(256) for _ in range(o["pre"])), 0
        for off, c in lay:
            vals, raw = _bcell(c, rng)
            row[off:off + len(raw)] = raw
            for v in vals:
                cols[k].append(_scaled(c, v))
                k += 1
        rows.append(bytes(row))
    if t["wrap"]:
        pvl = [("OBJECT", "LINE_PREFIX_TABLE"), ("INTERCHANGE_FORMAT", "BINARY"),
               ("ROWS", o["lines"]), ("COLUMNS", len(lay)), ("ROW_BYTES", o["pre"]),
               *pvl, ("END_OBJECT", "LINE_PREFIX_TABLE")]
    t["fn"] = f"{spec['base']}_{o['name']}_P.FMT"
    spec.setdefault("_aux", []).append(
        {"name": t["fn"], "dir": "", "text": _render(pvl, spec["eol"], end=False)})
    exp = Tab(_numbered(names), cols, dts, reclen=o["pre"] + o["samples"] * o["nb"])
    exp.atol = {i: 2 * abs(c["off"]) for i, c in enumerate(
        c for _, c in lay for _ in range(c["items"] or 1)) if c["off"]}
    spec.setdefault("_tabs", []).append((o["name"], exp))
    return rows


def b_qube(o, rng, spec):
    nb, it = o["nb"], o["items"]
    B, L, S = it["BAND"], it["LINE"], it["SAMPLE"]
    dims = dict(it)
    side, ax, cnt = o["fix"] or (None, None, 0)
    mul, both = o.get("fixmul", 1), o.get("fixboth", 0)
    if side:
        dims[ax] += (cnt + both) * mul
    core_vals, core_raw = plant(o, *_vals(rng, o["type"], nb, B * L * S), spec)
    lo = {"BAND": 0, "LINE": 0, "SAMPLE": 0}
    if side:
        lo[ax] = (cnt if side == "PREFIX" else both) * mul
    order = [a for a in reversed(o["axes"])]  # slowest first
    out = bytearray()
    d0, d1, d2 = (dims[a] for a in order)
    _, junk = _vals(rng, o["type"], nb, 16)
    jpx = [junk[i * nb:(i + 1) * nb] for i in range(16)]
    pos = {}
    for i in range(d0):
        pos[order[0]] = i - lo[order[0]]
        for j in range(d1):
            pos[order[1]] = j - lo[order[1]]
            for k in range(d2):
                pos[order[2]] = k - lo[order[2]]
                b, l, s = pos["BAND"], pos["LINE"], pos["SAMPLE"]
                if 0 <= b < B and 0 <= l < L and 0 <= s < S:
                    x = (b * L + l) * S + s
                    out += core_raw[x * nb:(x + 1) * nb]
                else:
                    out += rng.choice(jpx)
    arr = np.array(core_vals, dtype=_npkind(o["type"], nb)).reshape(B, L, S)
    if B == 1:
        arr = arr[0]
    blk = [("AXES", 3), ("AXIS_NAME", "(" + ",".join(o["axes"]) + ")"),
           ("CORE_ITEMS", "(" + ",".join(str(it[a]) for a in o["axes"]) + ")"),
           ("CORE_ITEM_BYTES", nb), ("CORE_ITEM_TYPE", o["type"])]
    if side:
        for sd, n in ((side, cnt), ("PREFIX" if side == "SUFFIX" else "SUFFIX", both)):
            if not n:
                continue
            items = ",".join(str(n if a == ax else 0) for a in o["axes"])
            width = nb * mul
            if o.get("fixseq"):
                width = "(" + ",".join([str(width)] * n) + ")"
            blk += [(f"{sd}_ITEMS", f"({items})"), (f"{ax}_{sd}_ITEM_BYTES", width)]
            if o.get("fixnone"):
                other = next(a for a in o["axes"] if a != ax)
                blk.append((f"{other}_{sd}_ITEM_BYTES", nb))
    if o.get("bst"):
        blk.append(("BAND_STORAGE_TYPE", {
            "SAMPLE,LINE,BAND": "BAND_SEQUENTIAL", "BAND,SAMPLE,LINE": "SAMPLE_INTERLEAVED",
            "SAMPLE,BAND,LINE": "LINE_INTERLEAVED"}[",".join(o["axes"])]))
    for k, v in (o.get("extra") or {}).items():
        blk.append((k, v))
    return bytes(out), "QUBE", blk, Arr(arr)


def _char(rng, n):
    w = enc.word(rng, rng.randrange(1, n + 1))
    return w + " " * (n - len(w))


def _bcell(c, rng):
    """one stored value: (list of values, bytes) -- several for items"""
    t, nb = c["type"], c["bytes"]
    if c.get("bits"):
        raw = bytes(rng.randrange(256) for _ in range(nb))
        order = raw if not t.startswith("LSB") else raw[::-1]
        s = "".join(f"{b:08b}" for b in order)
        out = []
        for b in c["bits"]:
            for k in range(b["items"] or 1):
                st = b["start"] - 1 + k * b["bits"]
                out.append(s[st:st + b["bits"]])
        return [out], raw
    if t in ("CHARACTER", "DATE", "TIME"):
        w = _char(rng, nb)
        return [w.encode()], w.encode()
    if t == "EBCDIC_CHARACTER":
        w = _char(rng, nb)
        return [w], w.encode("cp500")
    if t == "BOOLEAN":
        v = rng.randrange(2)
        return [bool(v)], bytes([v])
    n = c["items"] or 1
    small = c["sf"] is not None or c["off"] is not None
    if small and t in enc.PDS3_INTS:
        order, signed = enc.PDS3_INTS[t]
        top = 100 if rng.random() < .5 else 1 << (min(nb, 4) * 8 - signed)
        v = [rng.randrange(-top if signed else 0, top) for _ in range(n)]
        raw = enc.pack_int(v, order, signed, nb)
    elif small and t in enc.PDS3_REALS:
        v = [enc.f32(rng.uniform(-1000, 1000)) for _ in range(n)]
        raw = enc.pack_real(v, enc.PDS3_REALS[t], nb)
    else:
        v, raw = _vals(rng, t, nb, n)
    if c.get("ioff"):
        parts = [raw[i * nb:(i + 1) * nb] for i in range(n)]
        raw = bytes([rng.randrange(256) for _ in range(c["ioff"])]).join(parts)
    return v, raw


def _colbytes(c):
    n = c["items"] or 1
    return c["bytes"] * n + (c.get("ioff") or 0) * (n - 1)


def _coldtype(c):
    t, nb = c["type"], c["bytes"]
    if c.get("bits") or t in ("CHARACTER", "DATE", "TIME", "EBCDIC_CHARACTER"):
        return "obj"
    if t == "BOOLEAN":
        return "bool"
    if t in enc.PDS3_INTS and c["sf"] is None and c["off"] is None:
        return "int"
    return "float32" if nb == 4 and t != "IBM_REAL" and t in (
        set(enc.PDS3_REALS) | {"VAX_REAL"}) else "float"


def _scaled(c, v):
    if v is None:
        return v
    if c["sf"]:
        v = v * c["sf"]
    if c["off"]:
        v = v + c["off"]
    return v


def _col_pvl(c, start):
    out = [("OBJECT", "COLUMN"), ("NAME", c["name"]), ("DATA_TYPE", c["type"]),
           ("START_BYTE", start), ("BYTES", _colbytes(c))]
    if c["items"]:
        out += [("ITEMS", c["items"]), ("ITEM_BYTES", c["bytes"])]
        if c.get("ioff"):
            out.append(("ITEM_OFFSET", c["bytes"] + c["ioff"]))
    if c["sf"] is not None:
        out.append(("SCALING_FACTOR", c["sf"]))
    if c["off"] is not None:
        out.append(("OFFSET", c["off"]))
    for b in c.get("bits") or ():
        out += [("OBJECT", "BIT_COLUMN"), ("NAME", b["name"]),
                ("BIT_DATA_TYPE", "MSB_UNSIGNED_INTEGER"
                 if not c["type"].startswith("LSB") else "LSB_UNSIGNED_INTEGER"),
                ("START_BIT", b["start"])]
        if b["items"]:
            out += [("ITEMS", b["items"]), ("ITEM_BITS", b["bits"]),
                    ("BITS", b["bits"] * b["items"])]
        else:
            out.append(("BITS", b["bits"]))
        out.append(("END_OBJECT", "BIT_COLUMN"))
    out.append(("END_OBJECT", "COLUMN"))
    return out


def _numbered(names):
    """repeated names are told apart by a running number"""
    count = {}
    for n in names:
        count[n] = count.get(n, 0) + 1
    seen, out = {}, []
    for n in names:
        if count[n] > 1:
            out.append(f"{n}_{seen.get(n, 0)}")
            seen[n] = seen.get(n, 0) + 1
        else:
            out.append(n)
    return out


def b_table_bin(o, rng, spec):
    pvl, layout, pos = [], [], 1
    for c in o["cols"]:
        pos += c["gap"]
        if "container" in c:
            cpos, inner = 1, []
            for cc in c["cols"]:
                cpos += cc["gap"]
                inner.append((cpos, cc))
                cpos += _colbytes(cc)
            size = cpos - 1 + c["spare"]
            pvl += [("OBJECT", "CONTAINER"), ("NAME", c["container"]),
                    ("START_BYTE", pos), ("BYTES", size),
                    ("REPETITIONS", c["reps"])]
            for st, cc in inner:
                pvl += _col_pvl(cc, st)
            pvl.append(("END_OBJECT", "CONTAINER"))
            for r in range(c["reps"]):
                for st, cc in inner:
                    layout.append((pos - 1 + r * size + st - 1, cc))
            pos += size * c["reps"]
        else:
            pvl += _col_pvl(c, pos)
            layout.append((pos - 1, c))
            pos += _colbytes(c)
    row_bytes = pos - 1 + o["spare"]
    rec = o["pre"] + row_bytes + o["suf"]
    names, dts, cols, atol = [], [], [], {}
    for _, c in layout:
        for _ in range(c["items"] or 1):
            names.append(c["name"])
            if c["off"]:
                atol[len(dts)] = 2 * abs(c["off"])
            dts.append(_coldtype(c))
    names = _numbered(names)
    cols = [[] for _ in names]
    out = bytearray()
    for _ in range(o["rows"]):
        row = bytearray(rng.randrange(256) for _ in range(rec))
        k = 0
        for off, c in layout:
            vals, raw = _bcell(c, rng)
            row[o["pre"] + off:o["pre"] + off + len(raw)] = raw
            for v in vals:
                cols[k].append(_scaled(c, v))
                k += 1
        out += row
    blk = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", o["rows"]),
           ("COLUMNS", len(o["cols"])), ("ROW_BYTES", row_bytes)]
    if o["pre"]:
        blk.append(("ROW_PREFIX_BYTES", o["pre"]))
    if o["suf"]:
        blk.append(("ROW_SUFFIX_BYTES", o["suf"]))
    blk += _fmt(o, pvl, spec)
    cls = "TABLE" if not o["name"].endswith(("SERIES", "SPECTRUM")) else \
        o["name"].split("_")[-1]
    exp = Tab(names, cols, dts, reclen=rec)
    exp.atol = atol
    return bytes(out), cls, blk, exp


def _fmt(o, pvl, spec):
    """have the columns described in the label, in a format file, or partly in each"""
    if not o.get("fmt"):
        return pvl
    cuts, depth = [0], 0
    for i, (k, _) in enumerate(pvl):
        depth += (k == "OBJECT") - (k == "END_OBJECT")
        if not depth:
            cuts.append(i + 1)
    rng = random.Random(f"fmt:{spec['seed']}:{o['name']}")
    if not o.get("fmtparts") or len(cuts) < 4:
        parts = [(0, len(pvl), True)]
    else:
        mid = sorted(rng.sample(cuts[1:-1], min(len(cuts) - 2, o["fmtparts"])))
        at = [0] + mid + [len(pvl)]
        parts = [(a, b, i == 0 or rng.random() < .7) for i, (a, b) in enumerate(zip(at, at[1:]))]
    out = []
    for n, (a, b, away) in enumerate(parts):
        if not away:
            out += pvl[a:b]
            continue
        fn = f"{spec['base']}_{o['name']}{n or ''}.FMT"
        disk = fn if o["fmt"] != "lower" else fn.lower()
        spec.setdefault("_aux", []).append(
            {"name": disk, "dir": "LABEL" if o["fmt"] == "labeldir" else "",
             "text": _render(pvl[a:b], spec["eol"], end=False)})
        out.append(("^STRUCTURE", f'"{fn}"'))
    return out


def _aval(c, rng):
    """one ASCII value: (value, text)"""
    w = c["bytes"]
    if c.get("only"):
        s = rng.choice(c["only"])
        return s, s
    if c.get("missing") and c["type"].startswith("ASCII") and rng.random() < c["missing"]:
        return None, ""
    if c["type"] == "ASCII_INTEGER":
        hi = 10 ** min(w - 1, 9) - 1
        v = rng.choice((rng.randrange(-hi // 10, hi), rng.randrange(0, 10)))
        if len(str(v)) > w:
            v = abs(v) % (hi or 1)
        return v, str(v)
    if c["type"] == "ASCII_REAL":
        if w >= 11 and rng.random() < 0.3:
            s = f"{rng.uniform(-9, 9):.3E}"
        else:
            dec = rng.randrange(1, w - 4)
            hi = 10 ** (w - dec - 2) - 1
            s = f"{rng.uniform(-hi / 10 + 0.1, hi):.{dec}f}"
        if len(s) > w:
            s = "1.5"
        return float(s), s
    s = enc.word(rng, rng.randrange(1, w + 1))
    return s, s


def b_table_fixed(o, rng, spec):
    sep, pvl, pos, lay = o["sep"], [], 1, []
    for i, c in enumerate(o["cols"]):
        q = o["quote"] and c["type"] in ("CHARACTER", "TIME")
        start = pos + (1 if q else 0)
        c2 = dict(c)
        pvl += _col_pvl(c2, start)
        lay.append((c, q))
        pos += _colbytes(c) + (2 if q else 0)
        if i < len(o["cols"]) - 1:
            pos += len(sep)
    pre, suf = o.get("rowpre", 0), o.get("rowsuf", 0)
    row_bytes = pos - 1 + (0 if suf else 2)
    lay = [x for x in lay for _ in range(x[0]["items"] or 1)]
    cols = [[] for _ in lay]
    out = []
    for _ in range(o["rows"]):
        parts = []
        commas = 0
        for k, (c, q) in enumerate(lay):
            v, s = _aval(c, rng)
            if sep != "," and o.get("commas") and c["type"] == "CHARACTER" and len(s) > 2 \
                    and not c.get("only") and commas + 2 < len(lay):
                # (never so many that the row has as many parts as columns:
                # known_findings.jsonl, comma-in-text)
                if o["commas"] == "many" and not commas and c["bytes"] > 2 * len(lay):
                    v = s = ",".join(enc.word(rng, 1) for _ in range(len(lay) + 1))
                    commas += 100
                else:
                    v = s = s[0] + "," + s[2:]
                    commas += 1
            cols[k].append(_scaled(c, v))
            s = s.rjust(c["bytes"]) if c["type"].startswith("ASCII") else s.ljust(c["bytes"])
            parts.append(f'"{s}"' if q else s)
        out.append("".join(rng.choice("ABC 27") for _ in range(pre)) + sep.join(parts)
                   + "".join(rng.choice("XYZ 19") for _ in range(suf - 2))
                   + "\r\n")
    data = "".join(out).encode()
    assert len(data) == (pre + row_bytes + suf) * o["rows"], (len(data), row_bytes, o)
    blk = [("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", o["rows"]),
           ("COLUMNS", len(o["cols"])), ("ROW_BYTES", row_bytes)]
    if suf:
        blk.append(("ROW_SUFFIX_BYTES", suf))
    if pre:
        blk.append(("ROW_PREFIX_BYTES", pre))
    blk += _fmt(o, pvl, spec)
    dts = [_adt(c) for c, _ in lay]
    cls = "TABLE" if not o["name"].endswith("SERIES") else "SERIES"
    return data, cls, blk, Tab(_numbered([c["name"] for c, _ in lay]), cols, dts,
                               reclen=pre + row_bytes + suf, ascii=True)


def _adt(c):
    if c["type"] == "ASCII_INTEGER" and c["sf"] is None and c["off"] is None:
        return "int"
    return "float" if c["type"].startswith("ASCII") else "str"


def b_table_delim(o, rng, spec):
    d = {None: ",", "COMMA": ",", "VERTICAL_BAR": "|", "SEMICOLON": ";",
         "TAB": "\t"}[o["delim"]]
    pvl = []
    for i, c in enumerate(o["cols"]):
        pvl += [("OBJECT", "FIELD"), ("NAME", c["name"]), ("FIELD_NUMBER", i + 1),
                ("BYTES", c["bytes"] + (2 if o["quote"] else 0)),
                ("DATA_TYPE", c["type"])]
        if c["sf"] is not None:
            pvl.append(("SCALING_FACTOR", c["sf"]))
        if c["off"] is not None:
            pvl.append(("OFFSET", c["off"]))
        pvl.append(("END_OBJECT", "FIELD"))
    cols, out = [[] for _ in o["cols"]], []
    for _ in range(o["rows"]):
        parts = []
        for k, c in enumerate(o["cols"]):
            # (a row of nothing but an empty field is an empty line)
            v, s = _aval(c if len(o["cols"]) > 1 else {**c, "missing": 0}, rng)
            cols[k].append(_scaled(c, v))
            if c["type"] in ("CHARACTER", "TIME") and o["quote"]:
                s = f'"{s}"'
            parts.append(s)
        out.append(d.join(parts) + "\r\n")
    data = "".join(out).encode()
    skip = o.get("skiprows") or 0
    if skip:
        data = "".join(f"{enc.word(rng, 9)} {enc.word(rng, 5)}\r\n"
                       for _ in range(skip)).encode() + data
    maxrow = max(len(x) for x in out)
    blk = [("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", o["rows"]),
           ("FIELDS", len(o["cols"])), ("ROW_BYTES", maxrow)]
    if o["pos"] == "BYTES":
        blk.append(("BYTES", len(data)))
    if o["delim"]:
        blk.append(("FIELD_DELIMITER", f'"{o["delim"]}"'))
    blk += pvl
    exp = Tab(_numbered([c["name"] for c in o["cols"]]), cols, [_adt(c) for c in o["cols"]],
              ascii=True)
    exp.by_rows = o["pos"] == "ROWS"
    return data, "SPREADSHEET", blk, exp


def b_histogram(o, rng, spec):
    v, raw = _vals(rng, o["type"], o["nb"], o["items"])
    name = o["name"]
    names = [name] if o["items"] == 1 else [f"{name}_{i}" for i in range(o["items"])]
    blk = [("ITEMS", o["items"]), ("DATA_TYPE", o["type"]), ("ITEM_BYTES", o["nb"])]
    return raw, "HISTOGRAM", blk, Tab(names, [[x] for x in v], ["int"] * len(v))


def b_text(o, rng, spec):
    lines = [" ".join(enc.word(rng, rng.randrange(1, 9))
                      for _ in range(rng.randrange(0, 8)))
             for _ in range(o["lines"])]
    raw = "".join(x + o["teol"] for x in lines)
    blk = [("PUBLICATION_DATE", "1999-01-01"), ("NOTE", '"a text"')]
    return raw.encode(), "TEXT", blk, Txt("".join(x + "\n" for x in lines))


def b_header(o, rng, spec):
    lines = [enc.word(rng, rng.randrange(1, 30)) for _ in range(o["lines"])]
    if o["latin"]:
        lines = [x + "\xe9" for x in lines]
    raw = "".join(x + "\r\n" for x in lines).encode("latin-1")
    blk = [("BYTES", len(raw)), ("HEADER_TYPE", "TEXT"), ("RECORDS", o["lines"])]
    if o["pos"] == "ROWS":
        del blk[0]
    exp = Txt("".join(x + "\n" for x in lines))
    exp.by_rows = o["pos"] == "ROWS"
    return raw, "HEADER", blk, exp


def b_array_bin(o, rng, spec):
    n = 1
    for s in o["shape"]:
        n *= s
    v, raw = _vals(rng, o["type"], o["nb"], n)
    arr = np.array(v, dtype=_npkind(o["type"], o["nb"])).reshape(o["shape"])
    items = str(o["shape"][0]) if len(o["shape"]) == 1 else \
        "(" + ",".join(map(str, o["shape"])) + ")"
    blk = [("AXES", len(o["shape"])), ("AXIS_ITEMS", items),
           ("INTERCHANGE_FORMAT", "BINARY")]
    sub = o.get("sub")
    if not sub:
        return raw, "ARRAY", blk + [("DATA_TYPE", o["type"]), ("BYTES", o["nb"])], Arr(arr)
    if sub == "element":       # every item a record of the one element
        return raw, "ARRAY", blk + _element("VALUE", o["type"], o["nb"], 1), Recs({"VALUE": arr})
    # every item a COLLECTION of elements
    cols, pos, pvl = {}, 1, []
    recs = np.zeros((n, sum(f["nb"] + f["gap"] for f in sub)), dtype="u1")
    for i, f in enumerate(sub):
        v, raw = _vals(rng, f["type"], f["nb"], n)
        pos += f["gap"]
        recs[:, pos - 1:pos - 1 + f["nb"]] = np.frombuffer(raw, "u1").reshape(n, f["nb"])
        cols[f"VALUE_{chr(65 + i)}"] = np.array(
            v, dtype=_npkind(f["type"], f["nb"])).reshape(o["shape"])
        pvl += _element(f"VALUE_{chr(65 + i)}", f["type"], f["nb"], pos)
        pos += f["nb"]
    blk += [("OBJECT", "COLLECTION"), ("NAME", "VALUES"), ("START_BYTE", 1),
            ("BYTES", recs.shape[1]), *pvl, ("END_OBJECT", "COLLECTION")]
    return recs.tobytes(), "ARRAY", blk, Recs(cols)


def _element(name, t, nb, start):
    return [("OBJECT", "ELEMENT"), ("NAME", name), ("DATA_TYPE", t), ("START_BYTE", start),
            ("BYTES", nb), ("END_OBJECT", "ELEMENT")]


def array_items(rng, o):
    """let the items of a binary ARRAY be ELEMENTs or COLLECTIONs of them"""
    if rng.random() < .4:
        o["sub"] = "element"
        return
    o["sub"] = []
    for _ in range(rng.randrange(1, 5)):
        a = g_array_bin(rng)       # (gaps between them: known_findings.jsonl)
        o["sub"].append({"type": a["type"], "nb": a["nb"], "gap": 0})


def b_array_ascii(o, rng, spec):
    n = 1
    for s in o["shape"]:
        n *= s
    strs = [f"{rng.uniform(-999, 999):.{rng.randrange(1, 5)}f}" for _ in range(n)]
    if o["exp"]:
        strs = [f"{rng.uniform(-9, 9):.4E}" for _ in range(n)]
    text, w = "", o["shape"][-1]
    for i, s in enumerate(strs):
        text += s + ("\r\n" if (i + 1) % w == 0 else "  ")
    arr = np.array([float(s) for s in strs]).reshape(o["shape"])
    items = str(o["shape"][0]) if len(o["shape"]) == 1 else \
        "(" + ",".join(map(str, o["shape"])) + ")"
    blk = [("AXES", len(o["shape"])), ("AXIS_ITEMS", items),
           ("INTERCHANGE_FORMAT", "ASCII")]
    return text.encode(), "ARRAY", blk, Arr(arr, rtol=1e-12)


BUILD = {
    "image": b_image, "qube": b_qube, "table_bin": b_table_bin,
    "table_fixed": b_table_fixed, "table_delim": b_table_delim,
    "histogram": b_histogram, "text": b_text, "header": b_header,
    "array_bin": b_array_bin, "array_ascii": b_array_ascii,
}


# ---------------------------------------------------------------------------
# labels and files
# ---------------------------------------------------------------------------
def _render(pairs, eol, end=True, indent=True):
    out, depth = [], 0
    for k, v in pairs:
        if k in ("END_OBJECT", "END_GROUP"):
            depth -= 1
        bare = k is None or v is None
        out.append(("  " * depth if indent else "") + ((k or v) if bare else f"{k} = {v}"))
        if k in ("OBJECT", "GROUP"):
            depth += 1
    text = eol.join(out) + eol
    return text + ("END" + eol if end else "")


def casevar(name, how):
    if how == "lower":
        return name.lower()
    if how == "title":
        return "".join(ch.lower() if i % 2 else ch.upper() for i, ch in enumerate(name))
    return name


def compress(data, how, inner="X", parts=1):
    if parts > 1 and how in ("gz", "bz2"):
        step = -(-len(data) // parts) or 1
        return b"".join(compress(data[i:i + step], how)
                        for i in range(0, len(data) or 1, step))
    if how == "gz":
        return gzip.compress(data, mtime=0)
    if how == "bz2":
        return bz2.compress(data)
    if how == "zip":
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            z.writestr(zipfile.ZipInfo(inner), data, zipfile.ZIP_STORED
                       if parts > 1 else zipfile.ZIP_DEFLATED)
        return b.getvalue()
    return data


def _quantity(rng):
    u = rng.choice(("km", "DEG", "m/s", "W*m**-2*sr**-1", "Degrees C"))
    v = rng.choice((rng.randrange(-999, 999), rng.randrange(-999, 999) / 8, -3.5e-07))
    return f"{v!r} <{u}>", {"value": v, "units": u}


def _stmt(rng, n, eol):
    """a less plain statement: key, written form, parsed value"""
    w = enc.word
    k = rng.choice(("VPR", "VPR", "END_TIME", "ENDING", "MRO:VPX", "OBJECT_COUNT", "GROUP_ID",
                    "START")) + f"_{w(rng, 3)}_{n}"
    r = rng.randrange(13)
    if r == 0:
        t, v = _quantity(rng)
    elif r == 1:
        qs = [_quantity(rng) for _ in range(rng.randrange(2, 4))]
        t, v = "(" + ", ".join(q[0] for q in qs) + ")", tuple(q[1] for q in qs)
    elif r == 2:
        b, v = rng.choice((2, 8, 16)), rng.randrange(1 << 16)
        t = f"{b}#{ {2: '{:b}', 8: '{:o}', 16: '{:X}'}[b].format(v)}#"
    elif r == 3:
        v = tuple(rng.randrange(256) for _ in range(rng.randrange(2, 5)))
        t = "(" + ", ".join(f"16#{x:X}#" for x in v) + ")"
    elif r in (4, 5):
        ws = list(dict.fromkeys(w(rng, rng.randrange(3, 8)) for _ in range(rng.randrange(1, 5))))
        q = rng.choice(("", '"', "'"))
        gap = ", " if rng.random() < .6 else "," + eol + " " * rng.randrange(30)
        t = gap.join(q + x + q for x in ws)
        t, v = ("{" + t + "}", set(ws)) if r == 4 or len(ws) < 2 else \
            ("(" + t + ")", tuple(ws))
    elif r == 6:
        v = (f"{rng.randrange(1970, 2030)}-{rng.randrange(1, 13):02d}-{rng.randrange(1, 29):02d}"
             f"T{rng.randrange(24):02d}:{rng.randrange(60):02d}:{rng.randrange(60):02d}"
             + rng.choice(("", ".123", "Z")))
        t = v
    elif r == 7:
        v = rng.choice(("NULL", "UNK", "N/A"))
        t = rng.choice((v, f'"{v}"'))
    elif r == 8:
        v = rng.randrange(-10**6, 10**6) / 1000
        t = f"{v:.6E}"
    elif r == 9:
        v = "".join(rng.choice("abcdefgh<>,;:()#%&' ") for _ in range(rng.randrange(1, 30)))
        v = "x" + " ".join(v.split()) + "x"
        t = f'"{v}"'
    elif r == 10:
        v = tuple(tuple(rng.randrange(-9, 99) for _ in range(2)) for _ in range(3))
        t = "(" + (", " if rng.random() < .5 else "," + eol + "  ").join(
            f"({a}, {b})" for a, b in v) + ")"
    elif r == 11:
        v = w(rng, 8)
        t = f"'{v}'"
    else:
        v = int(f"{rng.randrange(1, 10**9)}")
        t = f"+{v}"
    if w(random.Random(k), 1) in "ABC":
        # a text over several lines that has statements in it, but does not begin
        # a line with one
        rows = [w(rng, 6).lower() + " of"]
        for _ in range(rng.randrange(1, 4)):
            rows.append(w(rng, rng.randrange(2, 9)).lower() + " " + rng.choice(("", "if ", "OR "))
                        + rng.choice((w(rng, 5), w(rng, 9), "LINES", "^IMAGE")) + rng.choice((" = ", "="))
                        + rng.choice(("3", w(rng, 4))) + rng.choice(("", " there")))
        v = " ".join(rows)
        return k, '"' + (eol + " " * rng.randrange(9)).join(rows) + '"', v
    if rng.random() < .15:
        t += " " * rng.randrange(1, 5) + f"/* {w(rng, 4)} = {w(rng, 3)} */"
    return k, t, v


def rich(spec):
    """statements of less plain forms, comments and groups: pairs to be written, values
    by key, keys and values by group, group by key"""
    rng = random.Random(f"rich:{spec['seed']}")
    eol = spec["eol"]
    pairs, values, blocks, inside = [], {}, {}, {}
    for k, t, v in spec.get("stmts", ()):
        pairs.append((k, t))
        values[k] = v
    open_ = []
    for n in range(spec.get("rich", 0)):
        r = rng.random()
        if r < .1:
            pairs.append((None, rng.choice(("/* {} */", "/* {} = {} */", "/* END_GROUP = {} */",
                                            "/* VP_Z = {0} */"))
                          .format(enc.word(rng, 6), enc.word(rng, 3))))
        elif r < .25 and len(open_) < 3:
            g = f"VPG_{n}"
            pairs.append(("GROUP", g))
            blocks[g] = {}
            if open_:
                blocks[open_[-1]][g] = blocks[g]
            open_.append(g)
        elif r < .4 and open_:
            pairs.append(("END_GROUP", rng.choice((open_[-1], None))))
            open_.pop()
        else:
            k, t, v = _stmt(rng, n, eol)
            pairs.append((k, t))
            values[k] = v
            if open_:
                blocks[open_[-1]][k] = v
                inside[k] = open_[0]
    while open_:
        pairs.append(("END_GROUP", open_.pop()))
    return pairs, values, blocks, inside


def filler(spec):
    """harmless statements: (key, written form, parsed value)"""
    rng = random.Random(f"filler:{spec['seed']}")
    out = []
    if spec.get("uni"):
        out.append(("VP_UNI", f'"{spec["uni"]}"', spec["uni"]))
    for i in range(spec.get("filler", 3)):
        k = f"VP_{enc.word(rng, 4)}_{i}"
        r = rng.random()
        if r < 0.3:
            v = rng.randrange(-10000, 10000)
            out.append((k, str(v), v))
        elif r < 0.5:
            v = rng.randrange(-10000, 10000) / 16
            out.append((k, repr(v), v))
        elif r < 0.8:
            ws = [enc.word(rng, rng.randrange(4, 9)) for _ in range(rng.randrange(1, 6))]
            w = " ".join(ws)
            # (a text may go on over several lines, and begin on the second)
            form = rng.random()
            if form < 0.3:
                gap = spec["eol"] + " " * rng.randrange(1, 30)
                n = rng.randrange(1, 4)
                written = gap.join(" ".join(ws[j:j + n]) for j in range(0, len(ws), n))
                out.append((k, (gap if form < 0.08 else "") + f'"{written}"', w))
            else:
                out.append((k, f'"{w}"', w))
        elif r < 0.9:
            v = tuple(rng.randrange(100) for _ in range(rng.randrange(2, 5)))
            sep = ", " if rng.random() < 0.7 else "," + spec["eol"] + "    "
            out.append((k, "(" + sep.join(map(str, v)) + ")", v))
        else:
            w = enc.word(rng, 6)
            out.append((k, w, w))
    return out


def padding(need, neol):
    """statements that take up exactly `need` bytes (or none, if too few)"""
    out, i = [], 0
    least = 8 + 3 + 1 + neol
    while need >= least:
        n = need if need < 2 * 70 else 70
        out.append((f"VP_P{i:04d}", "X" * (n - least + 1)))
        need -= n
        i += 1
    return out


def plan(spec):
    """lay out a spec: label text, file contents, expectations; writes nothing"""
    spec = dict(spec)
    spec["_aux"] = []
    rb = spec["rb"]
    built = []
    for o in spec["objs"]:
        rng = random.Random(f"{spec['seed']}:{o['name']}")
        data, cls, blk, exp = BUILD[o["kind"]](o, rng, spec)
        built.append((o, data, cls, blk, exp))
    files = spec["files"]
    label_len = 0
    label = ""
    for _ in range(12):
        # place the objects
        bodies = [bytearray() for _ in files]
        base = [0] * len(files)
        if spec["attached"]:
            base[0] = label_len
        ptrs, loc = [], {}
        for o, data, cls, blk, exp in built:
            f = o["file"]
            pos = base[f] + len(bodies[f]) + o["gap"]
            orb = o.get("recb") or rb
            if o["ptr"] == "rec":
                pos = -(-pos // orb) * orb
            grng = random.Random(f"gap:{spec['seed']}:{o['name']}")
            pad = pos - base[f] - len(bodies[f])
            bodies[f] += bytes(grng.randrange(256) for _ in range(pad))
            bodies[f] += data
            loc[o["name"]] = (f, pos, len(data))
            where = {"rec": lambda: str(pos // orb + 1) + (" <RECORDS>" if o.get("qty") else ""),
                     "bottom": lambda: str(2 + pos % 7),
                     "bytes": lambda: f"{pos + 1} <BYTES>",
                     "row": lambda: str(bodies[f].count(b"\n", 0, pos - base[f])
                                        + (o.get("skiprows") or 0) + 1)}[o["ptr"]]()
            if spec["attached"] and f == 0:
                ptrs.append((f"^{o['name']}", where))
            else:
                fn = f'{files[f]["stem"]}.{files[f]["ext"]}'
                if o["ptr"] != "bottom" and pos == 0 and (o["kind"] in OWN_FILE or (spec["seed"] + f) % 3) \
                        and not o.get("skiprows"):
                    form = f'"{fn}"'
                else:
                    form = f'("{fn}", {where})'
                ptrs.append((f"^{o['name']}", form))
        head = [("PDS_VERSION_ID", "PDS3"), ("RECORD_TYPE", spec["rtype"])]
        if rb:
            head.append(("RECORD_BYTES", rb))
            head.append(("FILE_RECORDS", max(1, sum(map(len, bodies)) // rb)))
            if spec["attached"]:
                head.append(("LABEL_RECORDS", f"{label_len // rb:03d}"
                             if False else max(1, label_len // rb)))
        head += ptrs
        head += [("DATA_SET_ID", '"VPSIM-T-TEST-3-V1.0"'),
                 ("PRODUCT_ID", f'"{spec["base"]}"')]
        head += [(k, w) for k, w, _ in filler(spec)]
        head += rich(spec)[0]
        head += [tuple(kv) for kv in spec.get("extra_meta", ())]
        for o, data, cls, blk, exp in built:
            name = o["name"]
            head.append(("OBJECT", name))
            if o.get("recb"):
                head.append(("RECORD_BYTES", o["recb"]))
            head += blk
            head.append(("END_OBJECT", name))
        if spec.get("padto"):
            head += padding(spec["padto"] - len(_render(head, spec["eol"], end=False).encode()),
                            len(spec["eol"]))
        label = _render(head, spec["eol"])
        if spec.get("endpad"):
            # blanks between the end marker and its line's end
            n = len(spec["eol"])
            label = label[:-n] + " " * spec["endpad"] + label[-n:]
        if not spec["attached"]:
            break
        need = len(label.encode()) + spec.get("minpad", 8)
        if rb:
            need = -(-need // rb) * rb
        if need == label_len:
            break
        label_len = max(need, label_len)
        if need < label_len:
            # shorter text in a longer label area is fine
            break
    for i, f in enumerate(files):
        trng = random.Random(f"tail:{spec['seed']}:{i}")
        if not f["own"]:
            bodies[i] += bytes(trng.randrange(256) for _ in range(f["tail"]))
    return spec, built, label, label_len, bodies, loc


def materialize(spec, root, keep=False):
    """write the product under root and return its World"""
    spec, built, label, label_len, bodies, loc = plan(spec)
    w = World(root)
    if spec.get("dir"):
        root = os.path.join(root, spec["dir"])
    files = spec["files"]
    sub = "DATA" if any(a["dir"] for a in spec["_aux"]) else ""
    d = os.path.join(root, sub) if sub else root
    os.makedirs(d, exist_ok=True)
    w.dir = d
    for a in spec["_aux"]:
        ad = os.path.join(root, a["dir"]) if a["dir"] else d
        os.makedirs(ad, exist_ok=True)
        w.write(os.path.join(ad, a["name"]), a["text"].encode())
        w.aux.append(os.path.join(ad, a["name"]))
    paths = []
    for i, f in enumerate(files):
        nominal = f'{f["stem"]}.{f["ext"]}'
        data = bytes(bodies[i])
        if spec["attached"] and i == 0:
            lab = label.encode()
            room = label_len - len(lab)
            pad = "".join(spec["eol"] + f"AFTER_{k} = {k}" for k in range(room // 9 + 1)) \
                + spec["eol"] if spec.get("lbltail") else spec["lblpad"] * room
            data = lab + pad.encode()[:room] + data
        disk = casevar(nominal, f["case"])
        if f["comp"]:
            data = compress(data, f["comp"], nominal, f.get("how") or 1)
            disk += "." + f["comp"]
            if f["case"] == "title":
                disk = disk[:-len(f["comp"])] + f["comp"].upper() \
                    if not (spec["attached"] and i == 0) else disk
        p = os.path.join(d, disk)
        w.write(p, data)
        paths.append(p)
    if spec["attached"]:
        w.main = paths[0]
    else:
        lp = os.path.join(d, spec["base"] + ".LBL")
        w.write(lp, label.encode())
        w.main = lp
    w.label_path = w.main
    w.label_len = label_len
    if spec["open"] == "data" and not spec["attached"] and not files[0]["comp"]:
        w.main = paths[0]
    w.paths = paths
    w.spec = spec
    w.label_text = label
    w.keys = ["LABEL"] + [o["name"] for o, *_ in built]
    for o, data, cls, blk, exp in built:
        exp.file = paths[o["file"]]
        exp.loc = loc[o["name"]]
        exp.comp = files[o["file"]]["comp"]
        exp.kind = o["kind"]
        w.expected[o["name"]] = exp
    for im, exp in spec.get("_tabs", ()):
        name = f"{im}_LINE_PREFIX_TABLE"
        par = w.expected[im]
        exp.file, exp.loc, exp.comp, exp.kind = par.file, par.loc, par.comp, "table_bin"
        w.expected[name] = exp
        w.keys.append(name)
    w.expected["LABEL"] = Txt(label.replace("\r\n", "\n").replace("\r", "\n"),
                              rstrip=True)
    w.expected["LABEL"].file = w.label_path
    w.expected["LABEL"].kind = "label"
    w.meta = {k: v for k, _, v in filler(spec)}
    _, values, w.blocks, w.inside = rich(spec)
    w.meta.update({k: tuple(v) if isinstance(v, list) else v for k, v in values.items()})
    w.meta["PRODUCT_ID"] = spec["base"]
    w.meta["RECORD_TYPE"] = spec["rtype"]
    return w


def shrinks(spec):
    """smaller specs to try, most drastic first"""
    for i in range(len(spec["objs"])):
        if len(spec["objs"]) > 1:
            s = _copy(spec)
            del s["objs"][i]
            used = {o["file"] for o in s["objs"]} | ({0} if s["attached"] else set())
            yield s if len(used) == len(s["files"]) else s
    for f in range(len(spec["files"])):
        for key, val in (("comp", None), ("case", "same"), ("tail", 0)):
            if spec["files"][f][key] != val:
                s = _copy(spec)
                s["files"][f][key] = val
                yield s
    if spec.get("filler"):
        s = _copy(spec)
        s["filler"] = 0
        yield s
    if spec.get("rich"):
        for k in (0, spec["rich"] // 2, spec["rich"] - 1):
            s = _copy(spec)
            s["rich"] = k
            yield s
    for i, o in enumerate(spec["objs"]):
        for key in ("rows", "lines", "samples"):
            if isinstance(o.get(key), int) and o[key] > 1:
                s = _copy(spec)
                s["objs"][i][key] = max(1, o[key] // 2)
                yield s
        if len(o.get("cols") or ()) > 1:
            for j in range(len(o["cols"])):
                s = _copy(spec)
                del s["objs"][i]["cols"][j]
                if "container" not in s["objs"][i]["cols"][0] or "container" in o["cols"][0]:
                    # (known_findings.jsonl: container-first)
                    yield s
        for key, val in (("gap", 0), ("fmt", None), ("pre", 0), ("suf", 0),
                         ("spare", 0), ("fix", None), ("ptab", None)):
            if o.get(key):
                s = _copy(spec)
                s["objs"][i][key] = val
                yield s


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_copy(v) for v in x]
    return x
