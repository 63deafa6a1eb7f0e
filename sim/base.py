"""Shared parts of the properties' simulations."""
from __future__ import annotations

import gc
import hashlib
import os
import random
import shutil
import sys
import warnings

from . import seams, gen_pds3, gen_pds4, gen_fits, gen_img
from .seams import SimInterrupt, HarnessError
from .world import Arr, Tab, Txt, fingerprint, tree
from .gen_pds3 import pick, _copy

FAMILIES = {"pds3": gen_pds3, "pds4": gen_pds4, "fits": gen_fits, "img": gen_img}


def materialize(spec, root):
    w = FAMILIES[spec["family"]].materialize(spec, root)
    w.family = spec["family"]
    if not hasattr(w, "derived"):
        w.derived = {}
    return w


def spec_shrinks(spec):
    return FAMILIES[spec["family"]].shrinks(spec)


def gen_any(rng, weights=None, odd=.3, **kw):
    """a product of any family"""
    weights = weights or {"pds3": 6, "pds4": 3, "fits": 3, "img": 2}
    fam = rng.choices(list(weights), list(weights.values()))[0]
    if fam == "pds3":
        return gen_pds3.gen(rng, opened=("label", "data"), **kw)
    if fam == "pds4":
        return gen_pds4.gen(rng, opened=("label", "data"), **kw)
    if fam == "fits":
        return gen_fits.gen(rng, via=("direct", "pds3", "pds4"), odd=odd, **kw)
    return gen_img.gen(rng, via=("direct", "pds3"), **kw)


def gen_delivery(rng, calm=0.25):
    if rng.random() < calm:
        return {}
    return {"p_short": rng.choice((0.05, 0.3, 0.7, 1.0)),
            "p_eintr": rng.choice((0, 0, 0.05, 0.3)),
            "bufsize": rng.choice((16, 61, 512, 4096, 8192, 65536)),
            "readall_piece": rng.choice((13, 100, 4096, 65536))}


# -- calls ------------------------------------------------------------------
class Res:
    """how a call ended; holds no frames"""

    def __init__(self, ok, value=None, ex=None, warns=()):
        self.ok, self.value, self.warns = ok, value, list(warns)
        self.etype = self.emsg = None
        self.kinds = ()
        self.ident = None
        self.after_interrupt, self.raised_in = False, ""
        if ex is not None:
            e, n = ex, 0
            while e is not None and n < 50:
                self.after_interrupt |= isinstance(e, SimInterrupt)
                e, n = e.__cause__ or e.__context__, n + 1
            tb = ex.__traceback__
            while tb is not None:
                self.raised_in = tb.tb_frame.f_code.co_filename
                tb = tb.tb_next
            self.etype = type(ex).__name__
            self.emsg = str(ex)[:300]
            self.kinds = tuple(c.__name__ for c in type(ex).__mro__)
            self.ident = id(ex)

    @property
    def interrupted(self):
        return "SimInterrupt" in self.kinds

    def text(self):
        if self.ok:
            return f"returned {type(self.value).__name__}" + (
                f" with warnings {self.warns[:2]}" if self.warns else "")
        return f"raised {self.etype}: {self.emsg}"

    def key(self):
        """for digests"""
        return (self.ok, self.etype, fingerprint(self.value) if self.ok else None,
                len(self.warns))


def call(fn, *args, **kwargs):
    """run fn, note warnings, swallow whatever it raises"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            v = fn(*args, **kwargs)
            return Res(True, v, warns=[str(m.message)[:200] for m in ws
                                       if relevant(m)])
        except HarnessError:
            raise
        except BaseException as ex:  # noqa: everything else is an outcome
            return Res(False, ex=ex, warns=[str(m.message)[:200] for m in ws
                                            if relevant(m)])


def relevant(m):
    return not issubclass(m.category, (DeprecationWarning, ResourceWarning,
                                       PendingDeprecationWarning, FutureWarning))


def fetch(d, name, how="item"):
    if how == "item":
        return d[name]
    if how == "attr":
        return getattr(d, name)
    if how == "load":
        d.load(name)
        return getattr(d, name)
    if how == "reload":
        d.load(name, reload=True)
        return getattr(d, name)
    raise HarnessError(how)


HOW = ("item", "attr", "load")


def is_placeholder(d, name, value):
    """the label's own description of the object, in the object's place"""
    try:
        m = d.metadata.metaget_(name)
    except Exception:
        return value is None
    if value is None or value is m:
        return value is None and m is None or value is m
    try:
        return type(value) is type(m) and value == m and \
            type(value).__name__ not in ("ndarray", "DataFrame")
    except Exception:
        return False


def judge(exp, d, name, res, prefix_ok=False):
    """('exact' | 'short' | 'reported' | 'bad', text)"""
    if not res.ok:
        return "reported", res.text()
    diff = exp.diff(res.value)
    if diff is None:
        return "exact", ""
    if prefix_ok and isinstance(exp, Tab) and exp.diff(res.value, prefix_ok=True) is None:
        return "short", diff
    if res.warns and is_placeholder(d, name, res.value):
        return "reported", res.text()
    return "bad", diff + (f" (warnings: {res.warns[:2]})" if res.warns else
                          " (no exception, no warning)")


def check_listing(w, d, loaded_any=True):
    """the list of objects names every object exactly once"""
    keys = list(d.keys())
    dup = {k for k in keys if keys.count(k) > 1}
    if dup:
        return f"the list of objects repeats {sorted(dup)}: {keys}"
    if keys[:len(w.keys)] != list(w.keys):
        missing = [k for k in w.keys if k not in keys]
        if missing:
            return f"the list of objects {keys} lacks {missing}"
        if [k for k in keys if k in w.keys] != list(w.keys):
            return f"the list of objects {keys} is not {list(w.keys)}"
    extra = [k for k in keys if k not in w.keys and k not in w.derived
             and not k.endswith("_HEADER")]
    if extra:
        return f"the list of objects {keys} has unknown {extra}"
    return None


def check_meta(w, d):
    for k, v in w.meta.items():
        r = call(d.metaget_, k)
        if not r.ok:
            return f"metadata query {k} {r.text()}"
        g = r.value
        if isinstance(v, float):
            ok = isinstance(g, (int, float)) and float(g) == v
        elif isinstance(v, int) and isinstance(g, str):
            ok = g == str(v)
        elif isinstance(v, tuple):
            ok = isinstance(g, (tuple, list)) and tuple(g) == v
        else:
            ok = g == v or (isinstance(g, str) and isinstance(v, str)
                            and " ".join(g.split()) == v)
        if not ok:
            return f"metadata {k} is {g!r}, the label says {v!r}"
    for k, v in getattr(w, "blocks", {}).items():
        r = call(d.metablock_, k)
        if not r.ok:
            return f"metadata query for block {k} {r.text()}"
        m = _same_block(r.value, v)
        if m:
            return f"metadata block {k}{m}"
    return None


def _same_block(got, want):
    if not hasattr(got, "keys"):
        return f" is {got!r}, the label says {want!r}"
    if list(got.keys()) != list(want):
        return f" has keys {list(got.keys())}, the label says {list(want)}"
    for k, v in want.items():
        if isinstance(v, dict) and set(v) != {"value", "units"}:
            m = _same_block(got[k], v)
            if m:
                return f"[{k}]{m}"
        elif not (got[k] == v or (isinstance(v, str) and isinstance(got[k], str)
                                  and " ".join(got[k].split()) == v)):
            return f"[{k}] is {got[k]!r}, the label says {v!r}"
    return None


# -- runs -------------------------------------------------------------------
class Out:
    """what one simulated run yields"""

    def __init__(self):
        self.viol = None
        self.steps = 0
        self.fired = {}
        self.benign = {}
        self.simtime = 0.0
        self.nontrivial = True
        self.feats = []
        self.h = hashlib.sha256()
        self.sched_points = 0
        self.switches = 0
        self.case_update = None   # what makes the case explicit (a schedule)

    def note(self, *x):
        self.h.update(repr(x).encode())

    def take(self, ctx, note=True):
        """absorb a context's history"""
        self.steps += ctx.n
        for k, v in ctx.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in ctx.benign.items():
            self.benign[k] = self.benign.get(k, 0) + v
        if note:
            self.note(ctx.log, sorted(ctx.fired.items()), ctx.fired_steps)

    def bad(self, msg):
        if self.viol is None:
            self.viol = str(msg)[:1500]
        return self

    def result(self):
        return {**({"case_update": self.case_update} if self.case_update else {}),
                "viol": self.viol, "steps": self.steps, "fired": self.fired,
                "benign": self.benign, "simtime": self.simtime,
                "nontrivial": self.nontrivial, "feats": self.feats,
                "digest": self.h.hexdigest()[:24], "points": self.sched_points,
                "switches": self.switches}


class Env:
    """a worker process's surroundings"""

    def __init__(self, root):
        self.root = root
        import pdr
        self.pdr = pdr

    def fresh(self, sub="w"):
        p = os.path.join(self.root, sub)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def world(self, spec, sub="w"):
        return materialize(spec, self.fresh(sub))

    def ctx(self, case, **kw):
        kw.setdefault("seed", case.get("dseed", 0))
        kw.setdefault("delivery", case.get("delivery"))
        kw.setdefault("dirseed", case.get("dirseed"))
        return seams.Ctx(self.root, **kw)

    def clean(self):
        for n in seams.real_os_listdir(self.root):
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
        for n in seams.real_os_listdir(os.path.dirname(self.root)):
            if n.startswith(os.path.basename(self.root) + ".vanished."):
                os.unlink(os.path.join(os.path.dirname(self.root), n))


def leaked(ctx, before=(), collect=True):
    """files and mappings below the root that are open now"""
    if collect:
        gc.collect()
    o = [p for p in ctx.open_now() if p not in before]
    m = [f"{p} (mapped)" for p in ctx.mapped_now()]
    return sorted(set(o + m))


class Prop:
    id = None
    quick_n = 2000
    thorough_n = 40000
    chunk = 25
    isolated = False       # each run in a process of its own
    deadline = 60.0
    components = {"real": ["pdr (all modules of /repo/pdr)", "numpy", "pandas",
                           "astropy.io.fits", "pillow", "pvl", "pds4_tools"],
                  "simulated": ["file open/read/write/close, stat, directory listing "
                                "(delivery, order and errors)", "clock", "interrupts"],
                  "stub": []}
    rule = ""
    assumptions = []

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case, env):
        raise NotImplementedError

    def shrinks(self, case):
        yield from generic_shrinks(case)

    def explicit(self):
        """fixed cases run before the seeded ones"""
        return []


def generic_shrinks(case):
    for key in ("faults", "ops"):
        v = case.get(key)
        if isinstance(v, list) and v:
            if len(v) > 3:
                h = len(v) // 2
                yield {**case, key: v[:h]}
                yield {**case, key: v[h:]}
            for i in range(len(v)):
                c = _copy(case)
                del c[key][i]
                yield c
    if case.get("delivery"):
        yield {**case, "delivery": {}}
        for k in list(case["delivery"]):
            c = _copy(case)
            del c["delivery"][k]
            yield c
    if case.get("dirseed") not in (None, "sorted"):
        yield {**case, "dirseed": "sorted"}
    if case.get("spec"):
        for s in spec_shrinks(case["spec"]):
            yield {**case, "spec": s}
    if case.get("specs"):
        if len(case["specs"]) > 1:
            for i in range(len(case["specs"])):
                c = _copy(case)
                del c["specs"][i]
                yield c
        for i, sp in enumerate(case["specs"]):
            for s in spec_shrinks(sp):
                c = _copy(case)
                c["specs"][i] = s
                yield c
