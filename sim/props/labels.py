"""C04: a label is cut from its file exactly, wherever its end falls."""
from __future__ import annotations

import os

from ..base import (Prop, Out, call, fetch, judge, check_listing, check_meta,
                    gen_delivery, pick, HOW)
from .. import gen_pds3, seams, enc
from ..gen_pds3 import casevar, compress

CHUNK = 50 * 1024


class C04(Prop):
    id = "C04"
    quick_n = 3000
    thorough_n = 100000
    deadline = 40.0
    rule = ("a run opens one attached-label (or torn-label) product under one delivery; "
            "non-trivial when label text or metadata were compared with what was written; "
            "distinct = distinct histories of storage events")
    assumptions = ["labels of at most the documented size limit",
                   "an end marker stands on a line of its own"]

    def gen(self, rng, i, tier):
        torn = rng.random() < 0.4
        spec = gen_pds3.gen(rng, attached=1.0 if not torn or rng.random() < .6 else 0.0,
                            kinds=("image", "table_bin", "table_fixed", "header", "array_bin"),
                            nobj=pick(rng, (3, 1), (1, 2)), comp=0.25)
        spec["rich"] = pick(rng, (2, 0), (2, 6), (2, 20))
        spec["minpad"] = rng.choice((0, 0, 8, 40))
        r = rng.random()
        if spec["attached"]:
            if r < 0.45:
                # the end marker near where one read ends and the next begins
                k = rng.choice((1, 1, 1, 2, 3))
                spec["padto"] = k * CHUNK + 20 + rng.randrange(-30, 30)
            elif r < 0.55:
                spec["padto"] = rng.randrange(2000, 220000)
            elif r < 0.62:
                spec["padto"] = rng.choice((4096, 8192, 65536)) + rng.randrange(-12, 12)
        if rng.random() < 0.12 and not spec.get("padto"):
            spec["uni"] = "caf\u00e9 \u00b5m " + enc.word(rng, 5)
        if rng.random() < 0.3:
            spec["endpad"] = rng.choice((8, 8, 12, 30, rng.randrange(1, 9), rng.randrange(1, 9)))
        if rng.random() < 0.25:
            # text after the label that looks like more of it
            spec["lbltail"], spec["minpad"] = True, rng.choice((20, 50, 400))
        case = {"spec": spec, "delivery": gen_delivery(rng), "dseed": rng.randrange(1 << 30),
                "torn": None}
        if torn:
            case["torn"] = pick(rng, (3, rng.random()), (1, -rng.randrange(1, 30)))
        return case

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        cut = None
        if case["torn"] is not None:
            cut = self.tear(case, w)
        with env.ctx(case) as ctx:
            if cut is not None:
                msg = self.check_torn(env, w, cut, out)
            else:
                msg = self.check_whole(env, w, out)
        out.take(ctx)
        if msg:
            out.bad(msg)
        return out

    def tear(self, case, w):
        text = w.label_text.encode()
        t = case["torn"]
        cut = int(len(text) * t) if t >= 0 else max(0, len(text) + t)
        p = w.label_path
        spec = case["spec"]
        data = text[:cut]
        f = spec["files"][0]
        if spec["attached"] and f["comp"]:
            data = compress(data, f["comp"], "X")
        w.write(p, data)
        return cut

    def check_whole(self, env, w, out):
        n = len(w.label_text.encode())
        d = call(env.pdr.read, w.main)
        if not d.ok:
            return f"opening the product (label of {n} bytes) {d.text()}"
        d = d.value
        out.feats.append("chunk%d" % (n // CHUNK))
        m = check_listing(w, d) or check_meta(w, d)
        if m:
            return f"{m} (label of {n} bytes)"
        for k, v in self.padding(w):
            if d.metaget_(k) != v:
                return f"statement {k} reads {d.metaget_(k)!r}, written {v!r} (label of {n} bytes)"
        # no statement that the label does not make
        top = {ln.split("=")[0].strip() for ln in w.label_text.splitlines() if "=" in ln}
        for k in d.metadata.keys():
            base = k
            if base not in top and base.rstrip("0123456789").rstrip("_") not in top \
                    and base not in ("OBJECT", "END_OBJECT", "GROUP") \
                    and base not in w.expected and base not in w.blocks:
                return f"metadata has a statement {k!r} the label does not make"
        for nm in w.expected:
            r = call(fetch, d, nm, "item")
            k, text = judge(w.expected[nm], d, nm, r)
            if k != "exact":
                return f"{nm}: {text} (label of {n} bytes)"
            out.note(nm, k)
        return None

    @staticmethod
    def padding(w):
        for ln in w.label_text.splitlines():
            if ln.startswith("VP_P0"):
                k, v = ln.split(" = ")
                yield k, v

    def check_torn(self, env, w, cut, out):
        out.feats.append("torn")
        d = call(env.pdr.read, w.main)
        out.note(cut, d.ok, d.etype)
        if not d.ok:
            out.feats.append("torn_refused")
            return None
        d = d.value
        out.feats.append("torn_opened")
        # statements wholly before the cut
        pos, text = 0, w.label_text
        b = text.encode()
        ends = {}
        eol = w.spec["eol"].encode()
        at, depth, outer, shut, quoted = 0, 0, None, {}, False
        while True:
            e = b.find(eol, at)
            if e < 0:
                break
            ln = b[at:e].decode().split("/*")[0].strip()
            inner, quoted = quoted, quoted ^ (ln.count('"') % 2 > 0)
            if not ln or inner:
                pass
            elif "=" in ln or not ends or ln == "END_GROUP":
                key = ln.split("=")[0].strip()
                if key == "GROUP":
                    if not depth:
                        outer = ln.split("=")[1].strip()
                    depth += 1
                elif key == "END_GROUP":
                    depth -= 1
                    if not depth:
                        shut[outer] = e + len(eol)
            ends[key] = e + len(eol)    # (or a statement goes on)
            at = e + len(eol)
        # (what is left of the statement torn apart may cling to the one before it)
        last = max((e for e in ends.values() if e <= cut), default=0)
        for k, v in list(w.meta.items()) + list(self.padding(w)):
            # (what stands in a block counts once the block is closed)
            whole = k in ends and ends[k] <= cut and ends[k] != last
            if whole and (k not in w.inside or shut[w.inside[k]] <= cut):
                r = call(d.metaget_, k)
                g = r.value
                ok = r.ok and (g == v or (isinstance(v, tuple) and g is not None and
                                          tuple(g) == v)
                               or (isinstance(g, str) and isinstance(v, str)
                                   and " ".join(g.split()) == v))
                if not ok:
                    return (f"label cut at byte {cut} of {len(b)}: statement {k}, which "
                            f"ends at {ends[k]}, reads {g!r}, written {v!r}")
        return None
