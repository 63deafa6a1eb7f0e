"""
Generator of desktop-format images (PNG, TIFF, BMP and GIF written byte by byte;
JPEG2000 and WebP, lossless, by pillow), read directly or through a PDS3 label.
"""
from __future__ import annotations

import io
import os
import random
import struct
import zlib

import numpy as np

from . import enc
from .gen_pds3 import pick, _copy
from .world import World, Arr, Txt

ALL = ("png", "tif", "bmp", "gif", "jp2", "webp", "jpg")
MODES = {"png": ("L", "I16", "RGB", "RGBA", "P", "LA", "1"),
         "jpg": ("L", "RGB", "RGB", "CMYK"),
         "tif": ("L", "I16", "F", "RGB", "RGBA"), "bmp": ("RGB", "P"),
         "gif": ("P",), "jp2": ("L", "RGB"), "webp": ("RGB", "RGBA")}


def gen(rng, kinds=ALL, nobj=None, big=0.05, via=("direct",), opened=None):
    kind = rng.choice(kinds)
    hi = 60 if rng.random() < big else 12
    spec = {"family": "img", "seed": rng.randrange(1 << 40),
            "base": f"i{rng.randrange(10, 99)}_{enc.word(rng, 4).lower()}",
            "via": rng.choice(via), "fmt": kind, "mode": rng.choice(MODES[kind]),
            "w": rng.randrange(1, hi), "h": rng.randrange(1, hi),
            "frames": 1, "upper": rng.random() < .3}
    if kind == "jp2":
        spec["w"], spec["h"] = spec["w"] + 8, spec["h"] + 8
    if kind in ("gif", "webp") and spec["via"] == "direct" and rng.random() < .75:
        spec["frames"] = rng.randrange(2, 5)
        if rng.random() < .08:
            spec["frames"] = rng.randrange(10, 16)
        if kind == "webp":
            spec["mode"] = "RGB"
    if kind == "jpg" and spec["via"] == "direct" and spec["mode"] == "RGB" and rng.random() < .5:
        spec["frames"] = rng.randrange(2, 4)
    if kind == "gif" and spec["frames"] > 1:
        spec["partial"] = rng.random() < .5
    if kind == "tif":
        spec["rps"] = pick(rng, (1, 0), (1, rng.randrange(1, 9)))
    spec["nimg"] = 1
    if spec["via"] == "pds3":
        spec["nimg"] = rng.randrange(1, 3)
        spec["lsc"] = rng.random() < .3
    return spec


def _chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def png(a, mode, pal=None):
    h, w = a.shape[:2]
    ct, bd = {"L": (0, 8), "I16": (0, 16), "RGB": (2, 8), "RGBA": (6, 8),
              "P": (3, 8), "LA": (4, 8), "1": (0, 1)}[mode]
    raw = b"".join(b"\0" + (np.packbits(a[r]) if mode == "1" else a[r]).astype(">u2" if mode == "I16" else "u1").tobytes()
                   for r in range(h))
    z = zlib.compress(raw)
    half = max(1, len(z) // 2)
    out = b"\x89PNG\r\n\x1a\n" + _chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, bd, ct, 0, 0, 0))
    if pal is not None:
        out += _chunk(b"PLTE", pal.astype("u1").tobytes())
    return out + _chunk(b"IDAT", z[:half]) + _chunk(b"IDAT", z[half:]) + _chunk(b"IEND", b"")


def bmp(a, mode, pal=None):
    h, w = a.shape[:2]
    rows = b""
    for r in range(h - 1, -1, -1):
        line = a[r][:, ::-1].tobytes() if mode == "RGB" else a[r].tobytes()
        rows += line + b"\0" * (-len(line) % 4)
    table = b""
    if mode == "P":
        table = b"".join(bytes([int(b), int(g), int(r_), 0]) for r_, g, b in pal)
    off = 54 + len(table)
    return (struct.pack("<2sIHHI", b"BM", off + len(rows), 0, 0, off)
            + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24 if mode == "RGB" else 8, 0,
                          len(rows), 2835, 2835, len(pal) if mode == "P" else 0, 0)
            + table + rows)


def tif(a, mode, rng, rps=0):
    h, w = a.shape[:2]
    e = rng.choice("<>")
    dt = {"L": "u1", "I16": "u2", "F": "f4", "RGB": "u1", "RGBA": "u1"}[mode]
    data = a.astype(np.dtype(dt).newbyteorder(e)).tobytes()
    spp = {"RGB": 3, "RGBA": 4}.get(mode, 1)
    bits = {"I16": 16, "F": 32}.get(mode, 8)
    rps = min(rps or h, h)
    line = len(data) // h
    counts = [line * min(rps, h - r) for r in range(0, h, rps)]
    ns = len(counts)
    first = rng.random() < .5     # data before or after the directory
    ents = [(256, 4, [w]), (257, 4, [h]), (258, 3, [bits] * spp), (259, 3, [1]),
            (262, 3, [2 if spp > 1 else 1]), (273, 4, [None] * ns), (277, 3, [spp]),
            (278, 4, [rps]), (279, 4, counts), (284, 3, [1])]
    if mode == "RGBA":
        ents.append((338, 3, [2]))
    ents.append((339, 3, [3 if mode == "F" else 1] * spp))
    n = len(ents)
    ifd = 8 + (len(data) + len(data) % 2 if first else 0)
    extra = ifd + 2 + n * 12 + 4
    ext = b""
    dpos = 8 if first else None
    size = 0
    for t, ty, v in ents:
        if len(v) * (2 if ty == 3 else 4) > 4:
            size += len(v) * (2 if ty == 3 else 4)
    if dpos is None:
        dpos = extra + size
    body = struct.pack(e + "H", n)
    for t, ty, v in ents:
        v = [dpos + k * rps * line if q is None else q for k, q in enumerate(v)]
        f = "H" if ty == 3 else "I"
        p = struct.pack(e + f * len(v), *v)
        if len(p) > 4:
            body += struct.pack(e + "HHII", t, ty, len(v), extra + len(ext))
            ext += p
        else:
            body += struct.pack(e + "HHI", t, ty, len(v)) + p.ljust(4, b"\0")
    body += struct.pack(e + "I", 0) + ext
    head = (b"II" if e == "<" else b"MM") + struct.pack(e + "HI", 42, ifd)
    if first:
        return head + data + b"\0" * (len(data) % 2) + body
    return head + body + data


def _lzw(ix):
    """GIF data that clears its code table before it can grow"""
    bits = []

    def put(c):
        bits.extend((c >> k) & 1 for k in range(9))

    for i, v in enumerate(ix):
        if i % 200 == 0:
            put(256)
        put(v)
    put(257)
    out = bytearray()
    for i in range(0, len(bits), 8):
        out.append(sum(b << k for k, b in enumerate(bits[i:i + 8])))
    blocks = b""
    for i in range(0, len(out), 255):
        c = bytes(out[i:i + 255])
        blocks += bytes([len(c)]) + c
    return b"\x08" + blocks + b"\0"


def gif(frames, pals, at=None):
    h, w = frames[0].shape
    out = b"GIF89a" + struct.pack("<HHBBB", w, h, 0xF7, 0, 0) + pals[0].astype("u1").tobytes()
    if len(frames) > 1:
        out += b"\x21\xFF\x0BNETSCAPE2.0\x03\x01\0\0\0"
    for i, (a, p) in enumerate(zip(frames, pals)):
        if len(frames) > 1:
            out += b"\x21\xF9\x04\x04" + struct.pack("<H", 10) + b"\0\0"
        x, y = at[i] if at else (0, 0)
        out += b"\x2C" + struct.pack("<HHHHB", x, y, a.shape[1], a.shape[0], 0x87 if i else 0)
        if i:
            out += p.astype("u1").tobytes()
        out += _lzw([int(v) for v in a.ravel()])
    return out + b"\x3B"


def _one(spec, rng):
    """(bytes, [expected arrays, channels first])"""
    npr = np.random.RandomState(rng.randrange(1 << 31))
    h, w, m, fmt = spec["h"], spec["w"], spec["mode"], spec["fmt"]
    frames, exps, pals, at = [], [], [], []
    for _ in range(spec["frames"]):
        pal = npr.randint(0, 256, (256, 3))
        pal[:, 0] = (pal[:, 1] + 7) % 256      # never a gray ramp
        shape = (h, w) if m in ("L", "I16", "F", "P", "1") else \
            (h, w, {"RGB": 3, "RGBA": 4, "CMYK": 4, "LA": 2}[m])
        a = npr.randint(0, 65536 if m == "I16" else 256, shape)
        if m == "F":
            a = npr.standard_normal(shape).astype("f4") * 1000
        elif m == "I16":
            a = a.astype("u2")
        elif m == "1":
            a = a > 127
        else:
            a = a.astype("u1")
        if fmt == "webp" and m == "RGBA":
            a[..., 3] = np.maximum(a[..., 3], 1)
            a[0, 0, 3] = 7
        if spec.get("partial") and frames:
            # the frame covers only a part of the picture, over the one before it
            y, x = npr.randint(0, h), npr.randint(0, w)
            a = a[y:y + npr.randint(1, h + 1), x:x + npr.randint(1, w + 1)]
            at.append((x, y))
            exp = exps[-1].transpose(1, 2, 0).copy()
            exp[y:y + a.shape[0], x:x + a.shape[1]] = pal[a]
        else:
            at.append((0, 0))
            exp = pal[a].astype("u1") if m == "P" else a
        frames.append(a)
        pals.append(pal)
        exps.append(np.ascontiguousarray(np.moveaxis(exp, 2, 0)) if exp.ndim == 3 else exp)
    a = frames[0]
    if fmt == "png":
        return png(a, m, pals[0] if m == "P" else None), exps
    if fmt == "bmp":
        return bmp(a, m, pals[0] if m == "P" else None), exps
    if fmt == "tif":
        return tif(a, m, rng, spec.get("rps", 0)), exps
    if fmt == "gif":
        return gif(frames, pals, at), exps
    from PIL import Image
    b = io.BytesIO()
    ims = [Image.fromarray(f, mode="CMYK" if m == "CMYK" else None) for f in frames]
    if fmt == "jpg":
        # (a lossy format: what the file encodes is what its decoder says)
        q = rng.choice((50, 75, 95))
        exps = []
        for im in ims:
            one = io.BytesIO()
            im.save(one, "JPEG", quality=q)
            a = np.array(Image.open(io.BytesIO(one.getvalue())))
            exps.append(np.ascontiguousarray(np.moveaxis(a, 2, 0)) if a.ndim == 3 else a)
        if len(ims) > 1:
            ims[0].save(b, "MPO", quality=q, save_all=True, append_images=ims[1:])
        else:
            ims[0].save(b, "JPEG", quality=q)
        return b.getvalue(), exps
    if fmt == "jp2":
        ims[0].save(b, "JPEG2000", irreversible=False)
    elif len(ims) > 1:
        ims[0].save(b, "WEBP", lossless=True, exact=True, save_all=True,
                    append_images=ims[1:], minimize_size=False)
    else:
        ims[0].save(b, "WEBP", lossless=True, exact=True)
    return b.getvalue(), exps


def materialize(spec, root, keep=False):
    w = World(root)
    os.makedirs(root, exist_ok=True)
    w.dir = root
    w.spec = spec
    w.derived = {}
    w.label_text = None
    files = []
    for i in range(spec["nimg"]):
        rng = random.Random(f"{spec['seed']}:{i}")
        data, exps = _one(spec, rng)
        ext = spec["fmt"].upper() if spec["upper"] else spec["fmt"]
        p = os.path.join(root, f"{spec['base']}_{i}.{ext}")
        w.write(p, data)
        w.paths.append(p)
        files.append((p, data, exps))

    def put(name, arr, p, n):
        e = Arr(arr)
        e.file, e.kind, e.loc = p, "img_" + spec["fmt"], (0, 0, n)
        w.expected[name] = e

    if spec["via"] == "direct":
        p, data, exps = files[0]
        w.main = p
        if spec["frames"] == 1:
            w.keys = ["IMAGE"]
            put("IMAGE", exps[0], p, len(data))
        else:
            w.keys = [f"FRAME_{i}" for i in range(spec["frames"])]
            if spec["fmt"] == "jpg":
                w.keys = ["IMAGE"] + [f"Undefined_{i}" for i in range(1, spec["frames"])]
            for nm, a in zip(w.keys, exps):
                put(nm, a, p, len(data))
        w.meta = {"width": spec["w"], "height": spec["h"]}
        return w
    lab = ["PDS_VERSION_ID = PDS3", "RECORD_TYPE = UNDEFINED"]
    names = []
    for i, (p, data, exps) in enumerate(files):
        nm = "IMAGE" if i == 0 else f"X{i}_IMAGE"
        names.append(nm)
        lab.append(f'^{nm} = "{os.path.basename(p)}"')
    lab += ['DATA_SET_ID = "VPSIM-T-TEST-3-V1.0"', f'PRODUCT_ID = "{spec["base"]}"']
    for nm, (p, data, exps) in zip(names, files):
        lab += [f"OBJECT = {nm}", f"  LINES = {spec['h']}", f"  LINE_SAMPLES = {spec['w']}",
                "  SAMPLE_BITS = 8", "  SAMPLE_TYPE = UNSIGNED_INTEGER"]
        if spec.get("lsc") and spec["fmt"] != "jp2":
            lab += ["  SCALING_FACTOR = 2.5", "  OFFSET = -3.0"]
        lab.append(f"END_OBJECT = {nm}")
        put(nm, exps[0], p, len(data))
    text = "\r\n".join(lab) + "\r\nEND\r\n"
    lp = os.path.join(root, spec["base"] + ".LBL")
    w.write(lp, text.encode())
    e = Txt(text.replace("\r\n", "\n"), rstrip=True)
    e.file, e.kind = lp, "label"
    w.expected["LABEL"] = e
    w.keys = ["LABEL"] + names
    w.label_path, w.label_text, w.main = lp, text, lp
    w.meta = {"PRODUCT_ID": spec["base"]}
    return w


def shrinks(spec):
    for k, lo in (("frames", 1), ("nimg", 1), ("w", 8 if spec["fmt"] == "jp2" else 1),
                  ("h", 8 if spec["fmt"] == "jp2" else 1)):
        if spec[k] > lo:
            s = _copy(spec)
            s[k] = max(lo, spec[k] // 2)
            yield s
