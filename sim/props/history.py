"""C09: what an object holds does not depend on when or how it was asked for."""
from __future__ import annotations

import os
import random

from ..base import (Prop, Out, call, fetch, judge, gen_delivery, gen_any, pick,
                    fingerprint, is_placeholder, check_meta)


def ignored_by_load_all(name):
    from pdr.loaders.dispatch import OBJECTS_IGNORED_BY_DEFAULT
    return bool(OBJECTS_IGNORED_BY_DEFAULT.match(name))


def has(d, name):
    return name in vars(d)


def meta_print(d):
    return fingerprint([(k, str(v)) for k, v in d.metadata.items()])


class C09(Prop):
    id = "C09"
    quick_n = 2200
    thorough_n = 80000
    rule = ("a run drives one product through a seeded sequence of requests and compares "
            "every object with the same object loaded alone from a freshly opened product; "
            "non-trivial when at least two objects were compared; distinct = distinct "
            "sequences of requests and storage events")
    assumptions = ["objects are not written to by the caller"]

    def gen(self, rng, i, tier):
        spec = gen_any(rng, nobj=(1, 6) if rng.random() < 0.8 else (4, 9))
        n = rng.randrange(3, 25)
        ops = []
        for _ in range(n):
            op = pick(rng, (5, "item"), (3, "attr"), (4, "load"), (4, "reload"), (1, "all"),
                      (2, "again"), (1, "unknown"), (2, "meta"), (1, "block"), (1, "fuzzy"),
                      (1, "text"), (1, "find"), (1, "pvl"), (1, "del"))
            ops.append([op, rng.randrange(100)])
        return {"spec": spec, "ops": ops, "delivery": gen_delivery(rng, 0.6),
                "dseed": rng.randrange(1 << 30), "lost": pick(rng, (8, None), (1, "one"))}

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        lost = None
        if case["lost"]:
            cand = [p for p in w.paths if os.path.exists(p) and p != w.main
                    and p != w.label_path_or_none()
                    and not p.lower().endswith((".xml", ".lblx", ".lbl"))]
            if cand and case["spec"]["family"] == "pds3":
                lost = cand[case["ops"][0][1] % len(cand)] if case["ops"] else None
        if lost:
            os.unlink(lost)
        alone = {}
        # each object alone, from a freshly opened product
        for nm in w.expected:
            r = call(env.pdr.read, w.main)
            if not r.ok:
                return out.bad(f"opening the product {r.text()}")
            d = r.value
            r = call(fetch, d, nm, "item")
            alone[nm] = (r.ok, r.etype, fingerprint(r.value) if r.ok else None)
            k, text = judge(w.expected[nm], d, nm, r)
            if k == "bad" and not lost:
                return out.bad(f"{nm} alone ({w.expected[nm].kind}): {text}")
        r = d = None
        with env.ctx(case) as ctx:
            r = call(env.pdr.read, w.main)
            if not r.ok:
                return out.bad(f"opening the product {r.text()}")
            msg = self.drive(case, env, w, r.value, alone, out)
        out.take(ctx)
        if msg:
            out.bad(msg)
        return out

    def drive(self, case, env, w, d, alone, out):
        initial = list(d.keys())
        meta0 = meta_print(d)
        # asked for, or brought along, or there from the start
        touched = {k for k in d.keys() if has(d, k)}
        compared = 0
        names = [k for k in w.expected]
        trail = []

        def value_ok(nm, what, r):
            nonlocal compared
            if nm in w.derived:
                k, text = judge(w.derived[nm][1], d, nm, r)
                return None if k == "exact" else f"{nm} ({what}, came with another): {text}"
            ok, etype, fp = alone[nm]
            compared += 1
            if ok != r.ok or (not ok and etype != r.etype):
                return f"{nm} ({what}) {r.text()}; alone it {'loads' if ok else 'raises ' + etype}"
            if ok and fingerprint(r.value) != fp:
                diff = w.expected[nm].diff(r.value)
                return f"{nm} ({what}) is not what it is alone: {diff or r.value!r:.200}"
            return None

        for op, x in case["ops"]:
            known = [k for k in d.keys() if k in alone or k in w.derived]
            nm = known[x % len(known)]
            loaded, did = has(d, nm), op in ("item", "attr", "load", "reload")
            trail.append(f"{op} {nm}")
            m = None
            out.note(op, nm)
            out.feats.append(op)
            if op in ("item", "attr"):
                r = call(fetch, d, nm, op)
                m = value_ok(nm, op, r)
            elif op == "load":
                if nm in d.unloaded():
                    r = call(d.load, nm)
                    if r.ok:
                        r2 = call(fetch, d, nm, "item")
                        r2.warns = r.warns + r2.warns
                        m = value_ok(nm, op, r2)
                    elif alone[nm][0]:
                        m = f"load({nm!r}) {r.text()}"
                else:
                    op = "again"
            elif op == "reload":
                r = call(fetch, d, nm, "reload")
                m = value_ok(nm, op, r)
            elif op == "pvl":
                # another reading of a text object, undone by a reload
                if nm == "LABEL" and not getattr(w, "main", "").lower().endswith(
                        (".gz", ".bz2", ".zip")):
                    did = True
                    call(d.load, nm, reload=True, fmt="pvl")
                    r = call(fetch, d, nm, "reload")
                    m = value_ok(nm, "reload after reading it as PVL", r)
            elif op == "del":
                # forget the object; it is loaded anew when next asked for
                if loaded and nm in alone:
                    did = True
                    delattr(d, nm)
                    if nm not in d.unloaded():
                        m = f"after deleting {nm} it is not listed as unloaded"
                    r = call(fetch, d, nm, "item")
                    m = m or value_ok(nm, "item after deleting it", r)
            elif op == "all":
                r = call(d.load, "all")
                can_fail = any(not a[0] for a in alone.values())
                if not r.ok and not can_fail:
                    m = f"load('all') {r.text()}"
                elif r.ok:
                    left = [k for k in d.unloaded() if not ignored_by_load_all(k)]
                    left = [k for k in left if alone.get(k, (True,))[0]]
                    if left:
                        m = f"load('all') left {left} unloaded"
            elif op == "meta":
                m = check_meta(w, d)
                m = m or self.queries(env, w, d, x)
            elif op == "block":
                r = call(env.pdr.read, w.main)
                for f in ("metablock", "metablock_"):
                    a, b = call(getattr(d, f), nm), call(getattr(r.value, f), nm)
                    if a.ok != b.ok or str(a.value) != str(b.value):
                        m = f"{f}({nm!r}) {a.text()}: {a.value!r:.150}; a new product's " \
                            f"{b.text()}: {b.value!r:.150}"
            elif op == "fuzzy":
                call(d.metadata.metaget_fuzzy, nm[:-1] + "X")
            elif op == "text":
                if str(nm) not in str(d) or len(d) != len(d.keys()):
                    m = f"printing or counting the product misses {nm}"
            elif op == "find":
                if nm not in d or "NO_SUCH_OBJECT" in d:
                    m = "membership is wrong"
            elif op == "unknown":
                before = (list(d.keys()), sorted(vars(d)))
                r = call(d.load, f"NO_SUCH_{x}")
                if r.ok or "KeyError" not in r.kinds:
                    m = f"loading an unknown name {r.text()}, not a key error"
                if (list(d.keys()), sorted(vars(d))) != before:
                    m = "loading an unknown name changed the product"
            if op == "again" and not m:
                # a second explicit load without reload
                if has(d, nm):
                    obj = vars(d)[nm]
                    fp = fingerprint(obj)
                    r = call(d.load, nm)
                    if r.ok or r.etype != "AlreadyLoadedError":
                        m = f"a second load({nm!r}) without reload {r.text()}"
                    elif vars(d).get(nm) is not obj or fingerprint(obj) != fp:
                        m = f"a refused second load({nm!r}) changed the object"
            if not m:
                m = self.books(w, d, initial, touched, nm if did else None, op, alone)
            if m:
                return f"{m}; after {' | '.join(trail[-8:])}"
        for nm in names:
            m = value_ok(nm, "item, at the end", call(fetch, d, nm, "item"))
            if m:
                return f"{m}; after {' | '.join(trail[-10:])}"
        for nm in [k for k in w.derived if k in d.keys()]:
            m = value_ok(nm, "item, at the end", call(fetch, d, nm, "item"))
            if m:
                return f"{m}; after {' | '.join(trail[-10:])}"
        if meta_print(d) != meta0:
            return f"the metadata changed; after {' | '.join(trail[-10:])}"
        out.nontrivial = compared >= 2
        return None

    def queries(self, env, w, d, x):
        """metadata queries answer as they would on a product just opened"""
        rng = random.Random(x)
        keys = list(d.metadata.fieldcounts)
        none = [k for b in (d.metadata, *d.metadata.values()) if hasattr(b, "items")
                for k, v in b.items() if v is None]
        new = call(env.pdr.read, w.main).value
        for _ in range(4):
            k = rng.choice(none) if none and rng.random() < .5 else \
                rng.choice(keys) if rng.random() < .9 else "NO_SUCH_KEY"
            args = (k,) if rng.random() < .4 else (k, rng.choice((None, 0, 5, "", "N/A", False, 0.0, 5.0, True, [], {})))
            how = rng.choice(("metaget", "metaget_"))
            a, b = call(getattr(d, how), *args), call(getattr(new, how), *args)
            if a.ok != b.ok or str(a.value) != str(b.value) or type(a.value) is not type(b.value):
                return f"{how}{args!r} {a.text()}: {a.value!r:.150}; a new product's " \
                       f"{b.text()}: {b.value!r:.150}"
        return None

    def books(self, w, d, initial, touched, nm, op, alone):
        keys = list(d.keys())
        if len(set(keys)) != len(keys):
            return f"the list of objects repeats a name: {keys}"
        if keys[:len(initial)] != initial:
            return f"the list of objects {keys} does not begin with {initial}"
        extra = [k for k in keys[len(initial):] if k not in w.derived]
        if extra:
            return f"the list of objects has gained {extra}"
        if nm is not None:
            touched.add(nm)
        un = list(d.unloaded())
        if len(set(un)) != len(un) or any(k not in keys for k in un):
            return f"the list of unloaded objects {un} is not part of {keys}"
        if [k for k in keys if k in un] != un:
            return f"the unloaded objects {un} are not in the order of {keys}"
        for k in keys:
            if (k in un) == has(d, k):
                return f"{k} is {'' if has(d, k) else 'not '}loaded, and the list of " \
                       f"unloaded objects {'names' if k in un else 'does not name'} it"
        if nm is not None and nm in un and alone.get(nm, (True,))[0]:
            return f"{nm} was loaded and is listed as unloaded"
        if op not in ("all",):
            for k in keys:
                if k in un or k in touched:
                    continue
                # nobody asked for it: it must have come along with one that was
                if nm is not None and (k in w.derived or any(
                        str(w.expected[x].kind).startswith("fits") for x in (k, nm)
                        if x in w.expected)):
                    touched.add(k)
                else:
                    return f"{op} loaded {k}"
        else:
            touched.update(k for k in keys if k not in un)
        return None
