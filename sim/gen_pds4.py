"""Generator of PDS4 products (XML label plus data files); see gen_pds3."""
from __future__ import annotations

import os
import random
import struct

import numpy as np

from . import enc
from .world import World, Arr, Tab, Exp
from .gen_pds3 import pick, _copy

BIN = {  # name -> (struct code, numpy kind)
    "IEEE754MSBSingle": ">f4", "IEEE754MSBDouble": ">f8",
    "IEEE754LSBSingle": "<f4", "IEEE754LSBDouble": "<f8",
    "SignedMSB2": ">i2", "SignedMSB4": ">i4", "SignedMSB8": ">i8",
    "SignedLSB2": "<i2", "SignedLSB4": "<i4", "SignedLSB8": "<i8",
    "UnsignedMSB2": ">u2", "UnsignedMSB4": ">u4", "UnsignedMSB8": ">u8",
    "UnsignedLSB2": "<u2", "UnsignedLSB4": "<u4", "UnsignedLSB8": "<u8",
    "SignedByte": "i1", "UnsignedByte": "u1",
}
CPLX = {"ComplexMSB8": ">c8", "ComplexLSB8": "<c8",
        "ComplexMSB16": ">c16", "ComplexLSB16": "<c16"}
DELIMS = {"Comma": ",", "Horizontal Tab": "\t", "Semicolon": ";",
          "Vertical Bar": "|"}
RDELIMS = {"Carriage-Return Line-Feed": "\r\n", "Line-Feed": "\n"}


def g_array(rng, big=False):
    nd = pick(rng, (1, 1), (4, 2), (3, 3), (1, 4))
    hi = {1: 60, 2: 14, 3: 7, 4: 5}[nd] * (5 if big else 1)
    t = rng.choice(sorted(BIN) + sorted(CPLX)) if rng.random() < .95 \
        else rng.choice(sorted(CPLX))
    tag = {1: "Array_1D", 2: rng.choice(("Array_2D", "Array_2D_Image", "Array_2D_Map")),
           3: rng.choice(("Array_3D", "Array_3D_Image", "Array_3D_Spectrum")),
           4: "Array"}[nd]
    return {"kind": "p4array", "type": t, "tag": tag,
            "shape": [rng.randrange(1, hi) for _ in range(nd)],
            "sf": pick(rng, (4, None), (1, 2.0), (1, 0.1)),
            "off": pick(rng, (4, None), (1, 10), (1, -2.5))}


def _field(rng, n, what):
    f = {"name": f"field {n} {enc.word(rng, 3)}" if rng.random() < .3
         else f"F{n}_{enc.word(rng, 3)}"}
    if rng.random() < .04:      # named like a group without a name, but is none
        f["name"] = rng.choice((f"GROUP_{n}", f"GROUP{n}_MEAN", f"OF GROUP_{n} X"))
    r = rng.random()
    if what == "bin":
        if r < 0.75:
            f["type"] = rng.choice(sorted(BIN))
            f["len"] = np.dtype(BIN[f["type"]]).itemsize
        else:
            f["type"] = "ASCII_String"
            f["len"] = rng.randrange(1, 12)
    else:
        if r < 0.35:
            f["type"], f["len"] = rng.choice(("ASCII_Integer", "ASCII_NonNegative_Integer")), \
                pick(rng, (4, rng.randrange(3, 10)), (1, rng.randrange(10, 19)))
        elif r < 0.4:
            f["type"] = rng.choice(("ASCII_Numeric_Base2", "ASCII_Numeric_Base8",
                                    "ASCII_Numeric_Base16"))
            f["len"] = rng.randrange(2, 14)
        elif r < 0.65:
            f["type"], f["len"] = "ASCII_Real", rng.randrange(7, 13)
        elif r < 0.75:
            f["type"], f["len"] = "ASCII_Boolean", 5
        else:
            f["type"], f["len"] = rng.choice(("ASCII_String", "UTF8_String")), rng.randrange(1, 12)
    f["gap"] = pick(rng, (4, 0), (1, rng.randrange(1, 4)))
    return f


def _group(rng, n, what, depth=0, named=None):
    fs = []
    named = rng.random() < .2 if named is None else named
    for j in range(rng.randrange(1, 4 if depth == 0 else 3)):
        if depth < 1 and rng.random() < .3:
            fs.append(_group(rng, f"{n}{j}", what, depth + 1, named))
        else:
            fs.append(_field(rng, f"{n}{j}", what))
    # (bytes between the repetitions, too)
    return {"group": fs, "reps": rng.randrange(1, 4), "gap": pick(rng, (3, 0), (1, 2)),
            "spare": pick(rng, (3, 0), (1, rng.randrange(1, 3))),
            "named": named}


def _fields(rng, what, p):
    return [_group(rng, i, what) if rng.random() < p else _field(rng, i, what)
            for i in range(rng.randrange(1, 7))]


def _uniform(rng):
    """sampling parameters of which no record has a value of its own"""
    if rng.random() > .12:
        return []
    return [{"name": f"U{i}_{enc.word(rng, 3)}", "first": rng.randrange(-50, 50) / 4,
             "step": rng.choice((1, 2, 0.5, -0.25, 10))} for i in range(rng.randrange(1, 3))]


def g_tbin(rng, big=False):
    fs = _fields(rng, "bin", .12)
    return {"kind": "p4tbin", "records": rng.randrange(1, 200 if big else 11),
            "fields": fs, "spare": pick(rng, (3, 0), (1, rng.randrange(1, 5))),
            "uni": _uniform(rng)}


def g_tchar(rng, big=False):
    return {"kind": "p4tchar", "records": rng.randrange(1, 200 if big else 11),
            "fields": _fields(rng, "char", .1),
            "rd": rng.choice(sorted(RDELIMS)), "spare": 0, "uni": _uniform(rng)}


def g_tdel(rng, big=False):
    return {"kind": "p4tdel", "records": rng.randrange(1, 200 if big else 11),
            "fields": _fields(rng, "char", .1), "uni": _uniform(rng),
            "fd": rng.choice(sorted(DELIMS)), "rd": rng.choice(sorted(RDELIMS)),
            "quote": rng.random() < 0.4, "objlen": rng.random() < 0.7,
            "missing": pick(rng, (5, 0), (1, .15))}


def g_header(rng, big=False):
    return {"kind": "p4header", "n": rng.randrange(1, 3000 if big else 200)}


GEN = {"p4array": g_array, "p4tbin": g_tbin, "p4tchar": g_tchar,
       "p4tdel": g_tdel, "p4header": g_header}
ALL = tuple(GEN)


def gen(rng, kinds=ALL, nobj=None, big=0.05, multi_file=0.35, opened=("label",)):
    n = nobj if isinstance(nobj, int) else rng.randrange(*(nobj or (1, 4)))
    spec = {"family": "pds4", "seed": rng.randrange(1 << 40),
            "base": f"v{rng.randrange(10, 99)}_{enc.word(rng, 4).lower()}",
            "open": rng.choice(opened),
            "lblext": rng.choice(("xml", "xml", "lblx", "XML", "Xml", "LBLX", "2BL", "2CL")),
            "filler": rng.randrange(0, 4)}
    if spec["lblext"][0] == "2":   # only the Chang'E missions' labels end so
        if spec["open"] == "label":
            spec["base"] = f"CE{rng.randrange(1, 7)}_{spec['base']}"
        else:                      # (and are not found from their data files)
            spec["lblext"] = "xml"
    objs, nf = [], 0
    for i in range(n):
        kind = rng.choice(kinds)
        o = GEN[kind](rng, big=rng.random() < big)
        o["id"] = rng.choice((f"obj_{i}", f"Data Object {i}", f"Obj-{i}_{enc.word(rng, 3)}"))
        o["idkind"] = pick(rng, (4, "name"), (4, "local_identifier"), (1, "none"),
                           (2, "both"))
        if nf == 0 or rng.random() < multi_file:
            nf += 1
        o["file"] = nf - 1
        o["gap"] = pick(rng, (3, 0), (1, rng.randrange(1, 40)))
        objs.append(o)
    if len(objs) > 1 and rng.random() < .12:
        # names need not be unique: several objects of one name
        for o in objs:
            if rng.random() < .8:
                o["idkind"], o["shared"] = "name", "Science Data"
    spec["nfiles"] = nf
    spec["tail"] = pick(rng, (2, 0), (1, rng.randrange(1, 60)))
    spec["objs"] = objs
    return spec


def _vals(rng, dt, n):
    dt = np.dtype(dt)
    if dt.kind == "c":
        half = np.dtype(f"{dt.byteorder}f{dt.itemsize // 2}")
        v = _vals(rng, half, 2 * n)
        return v.view(dt)
    if dt.kind == "f":
        v = [enc.rand_real(rng, dt.itemsize) for _ in range(n)]
        with np.errstate(all="ignore"):
            return np.array(v, dtype=dt)
    return np.array([enc.rand_int(rng, dt.kind == "i", dt.itemsize) for _ in range(n)],
                    dtype=dt)


def x(tag, body, **attrs):
    a = "".join(f' {k}="{v}"' for k, v in attrs.items())
    body = str(body)
    if body.startswith("<"):
        return f"<{tag}{a}>\n{body}\n</{tag}>"
    return f"<{tag}{a}>{body}</{tag}>"


def discipline(spec):
    """elements from other namespaces: [prefix, URI, [[element, text], ...]]"""
    ns = spec.get("ns")
    if not ns:
        return ""
    return x("Discipline_Area", "\n".join(
        x(f"{p}:Part", "\n".join(x(f"{p}:{k}", v) for k, v in els))
        for p, _, els in ns))


def b_array(o, rng):
    dt = (BIN | CPLX)[o["type"]]
    n = 1
    for s in o["shape"]:
        n *= s
    v = _vals(rng, dt, n)
    if o.get("plant") and "Complex" not in o["type"]:
        r = random.Random(f"plant:{o['id']}:{n}")
        for i in range(n):
            if i == 0 or r.random() < 0.3:
                v[i] = r.choice(o["plant"])
    ea = x("data_type", o["type"])
    # (unscaled access is what Data offers; scaling is asked for explicitly)
    if o["sf"] is not None and "Complex" not in o["type"]:
        ea += "\n" + x("scaling_factor", o["sf"])
    if o["off"] is not None and "Complex" not in o["type"]:
        ea += "\n" + x("value_offset", o["off"])
    names = ["Line", "Sample", "Band", "Time"]
    body = [x("axes", len(o["shape"])), x("axis_index_order", "Last Index Fastest"),
            x("Element_Array", ea)]
    for i, s in enumerate(o["shape"]):
        body.append(x("Axis_Array", x("axis_name", names[i]) + x("elements", s)
                      + x("sequence_number", i + 1)))
    if o.get("consts"):
        body.append(x("Special_Constants", "".join(x(k, t) for k, t in o["consts"])))
    arr = v.astype(np.dtype(dt).newbyteorder("=")).reshape(o["shape"])
    return v.tobytes(), o["tag"], body, Arr(arr)


def _txt(f, rng, delim=None):
    t, w = f["type"], f["len"]
    if t == "ASCII_Integer":
        v = rng.randrange(-10 ** (w - 2), 10 ** (w - 2))
        return v, str(v)
    if t == "ASCII_NonNegative_Integer":
        v = rng.randrange(0, 10 ** (w - 1))
        return v, str(v)
    if "_Base" in t:
        b = int(t.rpartition("Base")[2])
        v = rng.randrange(0, b ** rng.randrange(1, w + 1))
        return v, {2: "{:b}", 8: "{:o}", 16: "{:X}"}[b].format(v)
    if t == "ASCII_Real":
        s = f"{rng.uniform(-99, 99):.{rng.randrange(1, w - 4)}f}"
        return float(s), s
    if t == "ASCII_Boolean":
        s = rng.choice(("true", "false", "1", "0"))
        return s in ("true", "1"), s
    s = enc.word(rng, rng.randrange(1, w + 1))
    return s, s


def _dt(f):
    t = f["type"]
    if t in BIN:
        k = np.dtype(BIN[t])
        return "int" if k.kind in "iu" else ("float32" if k.itemsize == 4 else "float")
    return {"ASCII_Numeric_Base2": "int", "ASCII_Numeric_Base8": "int",
            "ASCII_Numeric_Base16": "int", "ASCII_Integer": "int", "ASCII_NonNegative_Integer": "int",
            "ASCII_Real": "float", "ASCII_Boolean": "bool"}.get(t, "str")


def lay_out(fields, cls):
    """
    Fixed-width fields: their label elements, the bytes they take up, and the leaves in
    the order of the label: field, offsets (one for each repetition), whether in a group
    """
    pos, fx, leaves = 0, [], []
    for n, f in enumerate(fields, 1):
        pos += f["gap"]
        if "group" in f:
            gx, size, inner, ng = lay_out(f["group"], cls)
            size += f.get("spare", 0)
            fx.append(x("Group_" + cls, (x("name", f"grp {n}") if f.get("named") else "")
                        + x("repetitions", f["reps"])
                        + x("fields", len(f["group"]) - ng) + x("groups", ng)
                        + x("group_location", pos + 1, unit="byte")
                        + x("group_length", size * f["reps"], unit="byte")
                        + "\n".join(gx)))
            for g, offs, _ in inner:
                leaves.append((g, [pos + r * size + o for r in range(f["reps"])
                                   for o in offs], True))
            pos += size * f["reps"]
        else:
            fx.append(x(cls, x("name", f["name"]) + x("field_number", n)
                        + x("field_location", pos + 1, unit="byte")
                        + x("data_type", f["type"])
                        + x("field_length", f["len"], unit="byte")))
            leaves.append((f, [pos], False))
            pos += f["len"]
    return fx, pos, leaves, sum("group" in f for f in fields)


def _full(fields, prefix=""):
    """the names under which the leaves' columns are known"""
    for n, f in enumerate(fields, 1):
        if "group" in f:
            yield from _full(f["group"], prefix + (f"grp {n}, " if f.get("named") else ""))
        else:
            yield prefix + f["name"]


def uniform(o):
    """label elements, names, columns and types of uniformly sampled parameters"""
    ux, names, cols = [], [], []
    n = o["records"]
    for u in o.get("uni") or ():
        v = [u["first"] + i * u["step"] for i in range(n)]
        ux.append(x("Uniformly_Sampled", x("sampling_parameter_name", u["name"])
                    + x("sampling_parameter_interval", u["step"])
                    + x("sampling_parameter_unit", "s")
                    + x("first_sampling_parameter_value", v[0])
                    + x("last_sampling_parameter_value", v[-1])
                    + x("sampling_parameter_scale", "Linear")))
        names.append(u["name"])
        cols.append(v)
    return ux, names, cols, ["float"] * len(names)


def b_tbin(o, rng):
    fx, size, leaves, ngroups = lay_out(o["fields"], "Field_Binary")
    reclen = size + o["spare"]
    data = bytearray(rng.randrange(256) for _ in range(reclen * o["records"]))
    ux, names, cols, dts = uniform(o)
    for (f, offs, grouped), name in zip(leaves, _full(o["fields"])):
        for k, at in enumerate(offs):
            if f["type"] in BIN:
                v = _vals(rng, BIN[f["type"]], o["records"])
                raw = [v[i:i + 1].tobytes() for i in range(o["records"])]
                vals = v.tolist()
            else:
                vals = [enc.word(rng, f["len"]) for _ in range(o["records"])]
                raw = [s.encode() for s in vals]
            for i in range(o["records"]):
                data[i * reclen + at:i * reclen + at + f["len"]] = raw[i]
            names.append(f"{name}_{k}" if grouped else name)
            cols.append(vals)
            dts.append(_dt(f))
    rec = x("fields", len(o["fields"]) - ngroups) + x("groups", ngroups) + \
        x("record_length", reclen, unit="byte") + "\n".join(fx)
    body = [x("records", o["records"]), *ux, x("Record_Binary", rec)]
    return bytes(data), "Table_Binary", body, Tab(names, cols, dts, reclen=reclen)


def b_tchar(o, rng):
    fx, size, leaves, ngroups = lay_out(o["fields"], "Field_Character")
    rd = RDELIMS[o["rd"]]
    reclen = size + len(rd)
    lines = [[" "] * size for _ in range(o["records"])]
    ux, names, cols, dts = uniform(o)
    for (f, offs, grouped), name in zip(leaves, _full(o["fields"])):
        for k, at in enumerate(offs):
            vals = []
            for line in lines:
                v, s = _txt(f, rng)
                vals.append(v)
                line[at:at + f["len"]] = list(
                    s.rjust(f["len"]) if rng.random() < .5 and f["type"].startswith("ASCII_")
                    and not f["type"].endswith("String") else s.ljust(f["len"]))
            names.append(f"{name}_{k}" if grouped else name)
            cols.append(vals)
            dts.append("padded" if _dt(f) == "str" else _dt(f))
    rec = x("fields", len(o["fields"]) - ngroups) + x("groups", ngroups) \
        + x("record_length", reclen, unit="byte") + "\n".join(fx)
    body = [x("records", o["records"]), *ux, x("record_delimiter", o["rd"]),
            x("Record_Character", rec)]
    return "".join("".join(line) + rd for line in lines).encode(), "Table_Character", body, \
        Tab(names, cols, dts, reclen=reclen, ascii=True)


def b_tdel(o, rng):
    d, rd = DELIMS[o["fd"]], RDELIMS[o["rd"]]

    def elements(fields):
        fx = []
        for n, f in enumerate(fields, 1):
            if "group" in f:
                gx, ng = elements(f["group"])
                fx.append(x("Group_Field_Delimited",
                            (x("name", f"grp {n}") if f.get("named") else "")
                            + x("repetitions", f["reps"])
                            + x("fields", len(f["group"]) - ng) + x("groups", ng)
                            + "\n".join(gx)))
            else:
                fx.append(x("Field_Delimited", x("name", f["name"]) + x("field_number", n)
                            + x("data_type", f["type"])
                            + x("maximum_field_length", f["len"] + 2, unit="byte")))
        return fx, sum("group" in f for f in fields)

    fx, ngroups = elements(o["fields"])
    ux, names, cols, dts = uniform(o)
    order = {}

    def number(fields, grouped):
        for f in fields:
            if "group" in f:
                number(f["group"], True)
            else:
                order[id(f)] = (len(order), f, grouped)

    number(o["fields"], False)
    got = [[] for _ in order]       # for each leaf, for each record, its values

    def write(fields, parts):
        for f in fields:
            if "group" in f:
                for _ in range(f["reps"]):
                    write(f["group"], parts)
                continue
            v, s = _txt(f, rng)
            if f["type"].endswith("String") and o["quote"] and rng.random() < .7:
                if len(s) > 2 and rng.random() < .4:
                    s = v = s[0] + d + s[2:]
                s = f'"{s}"'
            if rng.random() < o.get("missing", 0):
                v, s = ("", rng.choice(("", '""'))) if f["type"].endswith("String") \
                    else (None, rng.choice(("", "", " ")))
            got[order[id(f)][0]][-1].append(v)
            parts.append(s)

    out = []
    for _ in range(o["records"]):
        for g in got:
            g.append([])
        parts = []
        write(o["fields"], parts)
        out.append(d.join(parts) + rd)
    for (k, f, grouped), name in zip(order.values(), _full(o["fields"])):
        for r in range(len(got[k][0])):
            names.append(f"{name}_{r}" if grouped else name)
            cols.append([rec[r] for rec in got[k]])
            dts.append(_dt(f))
    data = "".join(out).encode()
    rec = x("fields", len(fx) - ngroups) + x("groups", ngroups) \
        + x("maximum_record_length", max(map(len, out)), unit="byte") + "\n".join(fx)
    body = [x("parsing_standard_id", "PDS DSV 1"), x("records", o["records"]), *ux,
            x("record_delimiter", o["rd"]), x("field_delimiter", o["fd"]),
            x("Record_Delimited", rec)]
    if o["objlen"]:
        body.insert(0, x("object_length", len(data), unit="byte"))
    t = Tab(names, cols, dts, ascii=True)
    t.length_stated = bool(o["objlen"])
    return data, "Table_Delimited", body, t


class Raw(Exp):
    def __init__(self, data):
        self.data = data

    def diff(self, got):
        if isinstance(got, str):
            got = got.encode()
        if not isinstance(got, (bytes, bytearray)):
            return f"not header bytes but {type(got).__name__}: {str(got)[:80]!r}"
        if bytes(got) != self.data:
            return f"header of {len(got)} bytes differs from the stored {len(self.data)}"
        return None


def b_header(o, rng):
    data = "".join(rng.choice("ABCDEFGH =\r\n") for _ in range(o["n"])).encode()
    body = [x("object_length", len(data), unit="byte"),
            x("parsing_standard_id", "7-Bit ASCII Text")]
    return data, "Header", body, Raw(data)


BUILD = {"p4array": b_array, "p4tbin": b_tbin, "p4tchar": b_tchar,
         "p4tdel": b_tdel, "p4header": b_header}


def materialize(spec, root, keep=False):
    w = World(root)
    os.makedirs(root, exist_ok=True)
    w.dir = root
    built = []
    counts = {"HEADER": 0, "ARRAY": 0, "TABLE": 0}
    for i, o in enumerate(spec["objs"]):
        rng = random.Random(f"{spec['seed']}:{o['id']}")
        built.append((o,) + BUILD[o["kind"]](o, rng))
    nf = max((o["file"] for o in spec["objs"]), default=0) + 1
    areas, keys = [], []
    for f in range(nf):
        fn = f"{spec['base']}_{f}.dat"
        body = bytearray()
        items = [x("File", x("file_name", fn))]
        for o, data, tag, xs, exp in built:
            if o["file"] != f:
                continue
            gr = random.Random(f"gap:{spec['seed']}:{o['id']}")
            body += bytes(gr.randrange(256) for _ in range(o["gap"]))
            pos = len(body)
            body += data
            head = []
            kind = "HEADER" if tag == "Header" else ("ARRAY" if "Array" in tag else "TABLE")
            if o["idkind"] == "name":
                head.append(x("name", o.get("shared") or o["id"]))
                name = o["id"].replace(" ", "_")
                if o.get("shared"):
                    name = o["shared"].replace(" ", "_")
                    if sum(bool(b[0].get("shared")) for b in built) > 1:
                        counts["shared"] = counts.get("shared", -1) + 1
                        name += f"_{counts['shared']}"
            elif o["idkind"] in ("local_identifier", "both"):
                if o["idkind"] == "both":
                    head.append(x("name", f"the {kind.lower()} of {o['id']}"))
                head.append(x("local_identifier", o["id"]))
                name = o["id"].replace(" ", "_")
            else:
                name = f"{kind}_{counts[kind]}"
            counts[kind] += 1
            head.append(x("offset", pos, unit="byte"))
            items.append(x(tag, "\n".join(head + xs)))
            exp.file = os.path.join(root, fn)
            exp.loc = (f, pos, len(data))
            exp.kind = o["kind"]
            exp.oname = name
            w.expected[name] = exp
            keys.append(name)
        tr = random.Random(f"tail:{spec['seed']}:{f}")
        body += bytes(tr.randrange(256) for _ in range(spec["tail"]))
        p = os.path.join(root, fn)
        w.write(p, bytes(body))
        w.paths.append(p)
        areas.append(x("File_Area_Observational", "\n".join(items)))
    fr = random.Random(f"filler:{spec['seed']}")
    fill = "".join(x("Alias", x("alternate_id", enc.word(fr, 6))) for _ in range(spec["filler"]))
    lid = f"urn:nasa:pds:vpsim:data:{spec['base']}"
    ident = x("Identification_Area", x("logical_identifier", lid)
              + x("version_id", "1.0") + x("title", "a simulated product")
              + x("information_model_version", "1.14.0.0")
              + x("product_class", "Product_Observational")
              + (x("Alias_List", fill) if fill else ""))
    obs = x("Observation_Area", x("Time_Coordinates", x("start_date_time", "2001-01-01T00:00:00Z")
                                  + x("stop_date_time", "2001-01-02T00:00:00Z"))
            + discipline(spec))
    text = '<?xml version="1.0" encoding="UTF-8"?>\n' + x(
        "Product_Observational", "\n".join([ident, obs] + areas),
        xmlns="http://pds.nasa.gov/pds4/pds/v1",
        **{f"xmlns:{p}": u for p, u, _ in spec.get("ns", ())}) + "\n"
    lp = os.path.join(root, f"{spec['base']}_0.{spec['lblext']}"
                      if spec["open"] == "data" else f"{spec['base']}.{spec['lblext']}")
    w.write(lp, text.encode())
    w.label_path, w.label_text = lp, text
    w.main = w.paths[0] if spec["open"] == "data" else lp
    w.keys = keys + ["label"]
    w.meta = {"logical_identifier": lid, "version_id": "1.0",
              "title": "a simulated product"}
    w.spec = spec
    return w


def shrinks(spec):
    for i in range(len(spec["objs"])):
        if len(spec["objs"]) > 1:
            s = _copy(spec)
            del s["objs"][i]
            yield s
    for i, o in enumerate(spec["objs"]):
        if o.get("records", 1) > 1:
            s = _copy(spec)
            s["objs"][i]["records"] = max(1, o["records"] // 2)
            yield s
        if len(o.get("fields") or ()) > 1:
            for j in range(len(o["fields"])):
                s = _copy(spec)
                del s["objs"][i]["fields"][j]
                yield s
        for ax in range(len(o.get("shape") or ())):
            if o["shape"][ax] > 1:
                s = _copy(spec)
                s["objs"][i]["shape"][ax] = max(1, o["shape"][ax] // 2)
                yield s
        if o.get("gap"):
            s = _copy(spec)
            s["objs"][i]["gap"] = 0
            yield s
