"""C12: files are found by name alone, not by directory order or luck."""
from __future__ import annotations

import json
import os
import random

import numpy as np

from ..base import (Prop, Out, call, fetch, gen_delivery, pick, is_placeholder, _copy)
from ..gen_pds3 import compress
from .. import enc, seams

DIRS = ("d0", "d1", "d2")
DECOY = ("{n}.bak", "{n}~", "{s}_1.{e}", "{s}.{e}x", "X{n}", "{n}.tmp", "{s}.{e}.old", "{s}",
         "{s}.BAK", "{n}.tar", "{s}{e}")


def variant(name, how):
    stem, _, ext = name.rpartition(".")
    how, _, comp = how.partition("+")
    if how == "lower":
        name = name.lower()
    elif how == "title":
        name = name[0].upper() + name[1:].lower()
    elif how == "ext":
        name = f"{stem}.{ext.lower()}"
    elif how == "stem":
        name = f"{stem.lower()}.{ext}"
    elif how == "upper":
        name = name.upper()
    return name + (f".{comp}" if comp else "")


COMPS = ("gz", "bz2", "zip", "GZ", "Zip")


def draw_variant(rng):
    h = pick(rng, (4, "same"), (2, "lower"), (1, "title"), (1, "ext"), (1, "stem"), (1, "upper"))
    if rng.random() < 0.25:
        h += "+" + rng.choice(COMPS)
    return h


def strip_comp(low):
    for c in (".gz", ".bz2", ".zip"):
        if low.endswith(c):
            return low[:-len(c)]
    return low


def candidates(have, dirs, name):
    """
    the reference model: which files (out of `have`, {dir: names}) a pointer to
    `name` may mean -- several only if names alone do not decide
    """
    sub, _, name = name.rpartition("/")
    for d in dirs:
        d = f"{d}/{sub}" if sub else d
        names = have.get(d, ())
        if name in names:
            return [f"{d}/{name}"]
        low = name.lower()
        m = [n for n in names if n.lower() == low or strip_comp(n.lower()) == low]
        if m:
            return [f"{d}/{n}" for n in sorted(m)]
    return []


def anywhere(have, dirs, name):
    out = []
    for d in dirs:
        out += candidates(have, [d], name)
        sub, _, nm = name.rpartition("/")
        dd = f"{d}/{sub}" if sub else d
        out += [f"{dd}/{n}" for n in have.get(dd, ()) if n.lower() == nm.lower()
                or strip_comp(n.lower()) == nm.lower()]
    return sorted(set(out))


class C12(Prop):
    id = "C12"
    quick_n = 3000
    thorough_n = 90000
    cross = True
    rule = ("a run lays out a product over up to three directories with off-case, compressed, "
            "decoy and missing files, reads it under several directory listing orders, after "
            "an earlier read of a different product of the same names, some runs with files "
            "vanishing or lookups failing at a seeded step, each in two processes of different "
            "hash seed; every file carries its identity; non-trivial when a file other than "
            "the exactly named one of the first directory was at stake; distinct = distinct "
            "layouts and histories")
    assumptions = ["names have an extension; the file system is case-sensitive"]

    def gen(self, rng, i, tier):
        base = f"V{rng.randrange(10, 99)}_{enc.word(rng, 4)}"
        if rng.random() < 0.15:
            base = base.replace("_", ".", 1)
        ext = rng.choice(("IMG", "DAT", "img", "Qub", "PDS"))
        objs = []
        for k, nm in enumerate(rng.sample(("IMAGE", "EXTRA_IMAGE", "BACK_IMAGE"),
                                          rng.randrange(1, 4))):
            o = {"name": nm, "kind": "image", "file": f"{base}{'' if k == 0 else '_%d' % k}.{ext}",
                 "ptr": pick(rng, (3, "plain"), (1, "rec"), (1, "bytes")),
                 "sub": pick(rng, (8, ""), (1, "SUB/"))}
            if rng.random() < 0.08:
                o["file"] += rng.choice((".gz", ".GZ", ".ZIP"))
            objs.append(o)
        if rng.random() < 0.35:
            objs.append({"name": "TABLE", "kind": "table", "file": f"{base}.TAB", "ptr": "plain",
                         "sub": "", "fmt": rng.choice((f"{base}.FMT", "ROWS.FMT", "rows.fmt"))})
        if rng.random() < 0.15:
            objs.append({"name": "COMP_IMAGE", "kind": "comp", "file": f"{base}_U.{ext}",
                         "cfile": f"{base}_C.ZIP", "ptr": "plain", "sub": ""})
        ndirs = pick(rng, (3, 1), (3, 2), (2, 3))
        files = []          # [dir index, pointer name, variant]
        todo = []
        for o in objs:
            todo.append(o["sub"] + o["file"])
            if o.get("fmt"):
                todo.append(o["fmt"])
            if o.get("cfile"):
                todo.append(o["cfile"])
        for name in todo:
            for _ in range(pick(rng, (2, 0), (6, 1), (4, 2), (2, 3))):
                files.append([rng.randrange(ndirs), name, draw_variant(rng)])
            for _ in range(pick(rng, (3, 0), (2, 1), (1, 3))):
                files.append([rng.randrange(ndirs), name, "decoy:" + rng.choice(DECOY)])
            if rng.random() < 0.05:
                files.append([rng.randrange(ndirs), name, "dir:" + draw_variant(rng)])
        if rng.random() < 0.15:
            for name in todo[:3]:
                files.append([pick(rng, (1, "label"), (1, "LABEL")), name, draw_variant(rng)])
        lbl = pick(rng, (4, "same"), (1, "lower"), (1, "title"), (1, "lower+gz"), (1, "ext"))
        case = {"base": base, "objs": objs, "files": files, "ndirs": ndirs, "lbl": lbl,
                "open": pick(rng, (4, "label"), (2, "data"), (1, "labelcase"), (1, "datacase"),
                             (1, "label_fn")),
                "search": pick(rng, (5, "list"), (1, "tuple"), (1, "str")),
                "data_dir": rng.random() < 0.2,
                "dirseeds": ["sorted", "reversed", rng.randrange(1000), rng.randrange(1000)],
                "delivery": gen_delivery(rng, 0.8), "dseed": rng.randrange(1 << 30),
                "seed": rng.randrange(1 << 40), "earlier": rng.random() < 0.3,
                "cwd": pick(rng, (3, "root"), (1, "d0"), (1, "d1")),
                "rel": rng.random() < 0.2,
                "faults": []}
        if rng.random() < 0.35:
            for _ in range(pick(rng, (3, 1), (1, 2))):
                f = rng.choice(({"kind": "VANISH"}, {"kind": "VANISH"},
                                {"kind": "ERR", "errno": "EIO", "op": "listdir"},
                                {"kind": "ERR", "errno": "EIO"}, {"kind": "ERR", "errno": "EACCES"},
                                {"kind": "ERR", "errno": "ENOENT"},
                                {"kind": "ERR", "errno": "ESTALE", "op": "stat"}))
                f = dict(f)
                f["pos"] = rng.random()
                case["faults"].append(f)
        return case

    def shrinks(self, case):
        for k in range(len(case["files"])):
            c = _copy(case)
            del c["files"][k]
            yield c
        if len(case["objs"]) > 1:
            for k in range(len(case["objs"])):
                c = _copy(case)
                del c["objs"][k]
                yield c
        for k, v in (("earlier", False), ("cwd", "root"), ("rel", False), ("faults", []),
                     ("delivery", {}), ("open", "label"), ("lbl", "same"),
                     ("dirseeds", case["dirseeds"][:2]), ("ndirs", 1)):
            if case[k] != v:
                yield {**case, k: v}

    # -- laying it out -----------------------------------------------------
    def lay(self, case, top, salt):
        """write the files; returns ({dir: names}, {path: identity}, contents by path)"""
        have, ident = {}, {}
        rng = random.Random(f"{case['seed']}:{salt}")
        dd = [os.path.join(top, "data", d) if case["data_dir"] else os.path.join(top, d)
              for d in DIRS]
        where = dict(zip(range(3), dd))
        where["label"], where["LABEL"] = os.path.join(top, "label"), os.path.join(top, "LABEL")
        for d in dd[:case["ndirs"]]:
            os.makedirs(d, exist_ok=True)
        kinds = {}
        for o in case["objs"]:
            kinds[o["sub"] + o["file"]] = o["kind"]
            if o.get("fmt"):
                kinds[o["fmt"]] = "fmt"
            if o.get("cfile"):
                kinds[o["cfile"]] = "comp"
        n = 0
        for di, name, how in case["files"]:
            if name not in kinds or (isinstance(di, int) and di >= case["ndirs"]):
                continue
            n += 1
            sub, _, nm = name.rpartition("/")
            d = where[di] + ("/" + sub if sub else "")
            os.makedirs(d, exist_ok=True)
            if how.startswith("dir:"):
                p = os.path.join(d, variant(nm, how[4:].partition("+")[0]))
                if not os.path.lexists(p):
                    os.makedirs(p)
                continue
            decoy = how.startswith("decoy:")
            if decoy:
                s, _, e = nm.rpartition(".")
                fn = how[6:].format(n=nm, s=s, e=e)
            else:
                fn = variant(nm, how)
            p = os.path.join(d, fn)
            if os.path.lexists(p):
                continue
            who = rng.randrange(1, 1 << 24)
            data = self.content(kinds[name], who, rng, case)
            low = fn.lower()
            if not decoy:
                for c in ("gz", "bz2", "zip"):
                    if low.endswith("." + c):
                        data = compress(data, c)
                        break
            with seams.real_open(p, "wb") as fh:
                fh.write(data)
            have.setdefault(d, []).append(fn)
            ident[p] = who
        return dd[:case["ndirs"]], have, ident

    def content(self, kind, who, rng, case):
        if kind in ("image", "comp"):
            return bytes(64) + who.to_bytes(4, "big") + bytes(
                (who * 7 + k * 13) & 255 for k in range(96 - 4)) + b"\r\n" * 8
        if kind == "table":
            return b"".join(f"{who + k:10d},{k:3d}\r\n".encode() for k in range(4))
        return (f"OBJECT = COLUMN\r\n NAME = WHO_{who}\r\n DATA_TYPE = ASCII_INTEGER\r\n"
                " START_BYTE = 1\r\n BYTES = 10\r\nEND_OBJECT = COLUMN\r\nOBJECT = COLUMN\r\n"
                " NAME = K\r\n DATA_TYPE = ASCII_INTEGER\r\n START_BYTE = 12\r\n BYTES = 3\r\n"
                "END_OBJECT = COLUMN\r\n").encode()

    def label(self, case, who):
        t = ["PDS_VERSION_ID = PDS3", "RECORD_TYPE = FIXED_LENGTH", "RECORD_BYTES = 16",
             f"PRODUCT_ID = \"{who}\""]
        img = ["  LINES = 8", "  LINE_SAMPLES = 12", "  SAMPLE_TYPE = MSB_UNSIGNED_INTEGER",
               "  SAMPLE_BITS = 8"]
        for o in case["objs"]:
            nm = o["sub"] + o["file"]
            if o["kind"] in ("image", "comp"):
                t.append(f'^{o["name"]} = ("{nm}", ' + (
                    "65 <BYTES>)" if o["ptr"] == "bytes" else "5)"))
            else:
                t.append(f'^{o["name"]} = "{nm}"')
        for o in case["objs"]:
            if o["kind"] == "image":
                t += ["OBJECT = " + o["name"]] + img + ["END_OBJECT = " + o["name"]]
            elif o["kind"] == "table":
                t += ["OBJECT = TABLE", "  INTERCHANGE_FORMAT = ASCII", "  ROWS = 4",
                      "  COLUMNS = 2", "  ROW_BYTES = 16", f'  ^STRUCTURE = "{o["fmt"]}"',
                      "END_OBJECT = TABLE"]
            else:
                t += ["OBJECT = COMPRESSED_FILE", f'  FILE_NAME = "{o["cfile"]}"',
                      "  ENCODING_TYPE = \"ZIP\"", "END_OBJECT = COMPRESSED_FILE",
                      "OBJECT = UNCOMPRESSED_FILE", f'  FILE_NAME = "{o["file"]}"',
                      f"  OBJECT = {o['name']}"] + img + [f"  END_OBJECT = {o['name']}",
                      "END_OBJECT = UNCOMPRESSED_FILE"]
        t.append("END")
        return ("\r\n".join(t) + "\r\n").encode()

    # -- running -----------------------------------------------------------
    def run(self, case, env):
        out = Out()
        here = os.getcwd()
        try:
            return self.run_in(case, env, out)
        finally:
            os.chdir(here)

    def run_in(self, case, env, out):
        env.fresh("w")
        top = os.path.join(env.root, "w")
        if case["earlier"]:
            # another product, of the same names, read earlier
            env.fresh("other")
            otop = os.path.join(env.root, "other")
            dirs, have, ident = self.lay(case, otop, "other")
            self.read_all(case, env, dirs, have, 4242, out, None)
        dirs, have, ident = self.lay(case, top, "main")
        if case["cwd"] != "root":
            p = os.path.join(top, case["cwd"])
            os.chdir(p if os.path.isdir(p) else top)
        else:
            os.chdir(env.root)
        prints = []
        for ds in case["dirseeds"]:
            with env.ctx(case, dirseed=ds) as ctx:
                got = self.read_all(case, env, dirs, have, 1234, out, ctx)
                total = ctx.n
            out.take(ctx)
            if isinstance(got, str):
                return out.bad(f"{got} (directory order {ds})")
            m = self.check(case, dirs, have, ident, got, False)
            if m:
                return out.bad(f"{m} (directory order {ds})")
            prints.append({k: v[:2] for k, v in got.items()})
            if prints[-1] != prints[0]:
                k = next(k for k in got if prints[-1][k] != prints[0][k])
                return out.bad(f"{k} is {self.tell(ident, prints[0][k])} when directories are "
                               f"listed in the order {case['dirseeds'][0]!r}, and "
                               f"{self.tell(ident, prints[-1][k])} in the order {ds!r}")
        out.note(sorted((k, str(v)) for k, v in prints[0].items()))
        out.nontrivial = any(h != "same" or d != 0 for d, _, h in case["files"]) or \
            not case["files"]
        if case["faults"]:
            with env.ctx(case, dirseed=case["dirseeds"][-1]) as ctx:
                ctx.arm(case["faults"], total)
                got = self.read_all(case, env, dirs, have, 1234, out, ctx, faulty=True)
                ctx.heal()
            out.take(ctx)
            if isinstance(got, str):
                return out.bad(got)
            m = self.check(case, dirs, have, ident, got, True)
            if m:
                return out.bad(f"{m}, while {sorted(ctx.fired)} happened")
        return out

    def tell(self, ident, v):
        if v[0] != "who":
            return v[0]
        return next((os.path.relpath(p) for p, w in ident.items() if w == v[1]), f"{v[1]}")

    def read_all(self, case, env, dirs, have, who, out, ctx, faulty=False):
        lname = variant(case["base"] + ".LBL", case["lbl"])
        lp = os.path.join(dirs[0], lname)
        data = self.label(case, who)
        if lname.endswith(".gz"):
            data = compress(data, "gz")
        if not os.path.lexists(lp):
            with seams.real_open(lp, "wb") as fh:
                fh.write(data)
        kw = {}
        if len(dirs) > 1:
            kw["search_paths"] = {"list": list, "tuple": tuple,
                                  "str": lambda x: x[0] if len(x) == 1 else list(x)
                                  }[case["search"]](dirs[1:])
        how = case["open"]
        first = case["objs"][0]
        dnames = [n for n in have.get(dirs[0], ()) if n.lower() == first["file"].lower()]
        fn = lp
        if how in ("data", "datacase", "label_fn"):
            # the label of a data file is the one of its name, off case or not
            stem = os.path.splitext(first["file"])[0]
            if first["sub"] or not dnames or stem != case["base"]:
                how = "label"
            else:
                fn = os.path.join(dirs[0], dnames[0])
                if how == "datacase" and len(dnames) == 1:
                    fn = os.path.join(dirs[0], dnames[0].swapcase())
                if how == "label_fn":
                    kw["label_fn"] = os.path.join(dirs[0], case["base"] + ".LBL")
        elif how == "labelcase":
            fn = os.path.join(dirs[0], (case["base"] + ".LBL").swapcase())
            if lname.endswith(".gz"):
                fn = lp
        if how == "label" and lname.endswith(".gz"):
            fn = os.path.join(dirs[0], case["base"] + ".LBL")
        if case["rel"]:
            fn = os.path.relpath(fn)
            if kw.get("search_paths"):
                sp = kw["search_paths"]
                kw["search_paths"] = os.path.relpath(sp) if isinstance(sp, str) else \
                    [os.path.relpath(p) for p in sp]
        out.feats.append("open:" + how)
        r = call(env.pdr.read, fn, **kw)
        got = {}
        if not r.ok:
            if faulty:
                out.feats.append("opening failed")
                return got
            return f"opening {os.path.basename(fn)} {r.text()}"
        d = r.value
        if faulty and how in ("data", "datacase") and list(d.keys()) == ["LABEL"] and \
                any(k.endswith(("ENOENT", "file_vanishes")) for k in ctx.fired):
            # with its label gone, the data file is all the product there is,
            # and it has no objects
            return got
        if str(d.metaget_("PRODUCT_ID")) != str(who):
            return f"the label read is not the product's: {d.metaget_('PRODUCT_ID')!r}"
        if [k for k in d.keys() if k != "LABEL"] != [o["name"] for o in case["objs"]]:
            return f"the list of objects is {list(d.keys())}"
        for o in case["objs"]:
            r = call(fetch, d, o["name"], "item")
            v = self.read_value(o, d, r)
            got[o["name"]] = v
        return got

    def read_value(self, o, d, r):
        if not r.ok:
            return ("reported", r.etype, None, r.text())
        v = r.value
        if r.warns and is_placeholder(d, o["name"], v):
            return ("reported", "", None, r.text())
        if o["kind"] in ("image", "comp"):
            if type(v).__name__ != "ndarray" or v.shape != (8, 12):
                return ("bad", 0, None, f"is {v!r:.80}")
            raw = v.astype("u1").tobytes()
            who = int.from_bytes(raw[:4], "big")
            if raw[4:] != bytes((who * 7 + k * 13) & 255 for k in range(92)):
                return ("bad", 0, None, "holds what no file does")
            return ("who", who, None, "")
        if type(v).__name__ != "DataFrame" or v.shape != (4, 2):
            return ("bad", 0, None, f"is {v!r:.80}")
        who = int(v.iloc[0, 0])
        if [int(x) for x in v.iloc[:, 0]] != [who + k for k in range(4)]:
            return ("bad", 0, None, f"holds what no file does: {v!r:.120}")
        return ("who", who, str(v.columns[0]), "")

    def check(self, case, dirs, have, ident, got, faulty):
        for o in case["objs"]:
            v = got.get(o["name"])
            if v is None:
                continue
            name = o["sub"] + o["file"]
            find = anywhere if faulty else candidates
            c = find(have, dirs, name)
            if o.get("cfile"):
                c = c + find(have, dirs, o["cfile"])
            fc = None
            if o.get("fmt"):
                fdirs = list(dirs)
                if case["data_dir"]:
                    top = os.path.dirname(os.path.dirname(dirs[0]))
                    fdirs += [os.path.join(top, "label"), os.path.join(top, "LABEL")]
                fc = find(have, fdirs, o["fmt"])
            whos = {ident[p] for p in c}
            if v[0] == "bad":
                return f"{o['name']} ({name}) {v[3]}"
            if v[0] == "reported":
                if not faulty and c and (fc is None or fc):
                    return (f"{o['name']} ({name}) was not loaded though "
                            f"{os.path.relpath(c[0])} is there: {v[3]}")
                continue
            if not c or (fc is not None and not fc):
                return (f"{o['name']} ({name if not c else o['fmt']}) has no file, but was "
                        f"loaded as {self.tell(ident, v)}")
            if v[1] not in whos:
                return (f"{o['name']} ({name}) was read from {self.tell(ident, v)}; it is in "
                        f"{[os.path.relpath(p) for p in c]}")
            if fc is not None and v[2] not in {f"WHO_{ident[p]}" for p in fc}:
                return (f"{o['name']}: its format file {o['fmt']} is "
                        f"{[os.path.relpath(p) for p in fc]}, the columns are from {v[2]}")
        return None
