"""What a simulated product consists of, and how results are compared."""
from __future__ import annotations

import hashlib
import math
import os

import numpy as np

from . import seams


class World:
    """files on (scratch) disk plus what reading them must deliver"""

    def __init__(self, root):
        self.root = root
        self.main = None        # what is passed to pdr.read
        self.kwargs = {}
        self.expected = {}      # object name -> Arr | Tab | Txt | ...
        self.keys = []          # listing right after opening
        self.meta = {}
        self.aux = []
        self.paths = []
        self.files = {}         # path -> bytes as written

    def label_path_or_none(self):
        return getattr(self, "label_path", None)

    def label_floor(self):
        """how much of the labelled file is label (None: cannot be told)"""
        spec = self.spec
        if not spec.get("attached") or spec["files"][0]["comp"]:
            return None
        return getattr(self, "label_len", None)

    def write(self, path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with seams.real_open(path, "wb") as fh:
            fh.write(data)
        self.files[path] = data

    def rel(self, path):
        return os.path.relpath(path, os.path.realpath(self.root))


def _norm(v):
    """a comparable form of one cell"""
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, memoryview):
        v = bytes(v)
    return v


def same_number(a, b, rtol=0.0):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) and math.isnan(b):
        return True
    if a == b:
        return True
    if rtol and math.isfinite(a) and math.isfinite(b):
        return abs(a - b) <= rtol * max(abs(a), abs(b))
    return False


class Exp:
    file = None
    loc = None
    comp = None
    kind = None


class Arr(Exp):
    def __init__(self, arr, rtol=0.0, exact_kind=True):
        self.arr = arr
        self.rtol = rtol
        self.exact_kind = exact_kind

    def diff(self, got):
        """None if `got` is exactly this, else what is wrong"""
        if got.__class__.__name__ not in ("ndarray", "MaskedArray"):
            return f"not an array but {type(got).__name__}: {str(got)[:80]!r}"
        a = self.arr
        if tuple(got.shape) != tuple(a.shape):
            return f"shape {tuple(got.shape)}, stored {tuple(a.shape)}"
        if self.exact_kind and got.dtype.kind != a.dtype.kind:
            return f"dtype {got.dtype}, stored {a.dtype}"
        if self.exact_kind and got.dtype.kind in "iu" and \
                got.dtype.itemsize != a.dtype.itemsize:
            return f"dtype {got.dtype}, stored {a.dtype}"
        if self.rtol:
            x, y = np.asarray(got, dtype="f8"), np.asarray(a, dtype="f8")
            with np.errstate(all="ignore"):
                ok = np.isclose(x, y, rtol=self.rtol, atol=0, equal_nan=True)
        elif a.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                ok = (got == a) | ((got != got) & (a != a))
        else:
            ok = got == a
        ok = np.asarray(ok)
        if not ok.all():
            ix = tuple(int(x) for x in np.argwhere(~ok)[0]) if ok.ndim else ()
            return (f"{int((~ok).sum())} of {ok.size} values differ, first at "
                    f"{ix}: {got[ix]!r}, stored {a[ix]!r}")
        return None


class Recs(Exp):
    """an array of records; an array whose items have one element may be plain"""

    def __init__(self, cols):
        self.cols = cols

    def diff(self, got):
        if got.__class__.__name__ != "ndarray":
            return f"not an array but {type(got).__name__}: {str(got)[:80]!r}"
        if got.dtype.names is None and len(self.cols) == 1:
            return Arr(*self.cols.values()).diff(got)
        if got.dtype.names != tuple(self.cols):
            return f"elements {got.dtype.names}, stored {tuple(self.cols)}"
        for name, arr in self.cols.items():
            m = Arr(arr).diff(got[name])
            if m:
                return f"element {name}: {m}"
        return None


class Tab(Exp):
    """names, columns (lists of values), dts: int float float32 bool str obj"""

    def __init__(self, names, cols, dts, reclen=None, ascii=False):
        self.names, self.cols, self.dts = names, cols, dts
        self.reclen, self.ascii = reclen, ascii
        self.atol = {}      # column -> size of the terms its values are sums of

    @property
    def nrows(self):
        return len(self.cols[0]) if self.cols else 0

    def diff(self, got, prefix_ok=False):
        if type(got).__name__ != "DataFrame":
            return f"not a table but {type(got).__name__}: {str(got)[:80]!r}"
        names = [str(c) for c in got.columns]
        if names != [str(n) for n in self.names]:
            return f"columns {names[:12]}, stored {self.names[:12]}"
        n = len(got)
        if n != self.nrows and not (prefix_ok and n < self.nrows):
            return f"{n} rows, stored {self.nrows}"
        for i, (name, col, dt) in enumerate(zip(self.names, self.cols, self.dts)):
            g = got.iloc[:, i]
            missing = None in col[:n]
            if dt == "int" and n and g.dtype.kind not in "iu" and not missing:
                return f"column {name} has dtype {g.dtype}, stored integers"
            gl = g.tolist()
            for r in range(n):
                a, b = gl[r], col[r]
                if b is None:
                    # (no value was stored)
                    ok = a is None or type(a).__name__ == "NAType" or a != a
                elif type(a).__name__ == "NAType":
                    ok = False
                elif dt in ("int", "bool"):
                    ok = a == b
                elif dt == "float":
                    ok = same_number(a, b, 1e-12)
                elif dt == "float32":
                    ok = same_number(a, b, 4e-7) or (
                        isinstance(a, float) and abs(a - b) <= 4e-7 * self.atol.get(i, 0))
                elif dt == "complex":
                    ok = same_number(a.real, b.real, 4e-7) and same_number(a.imag, b.imag, 4e-7)
                elif dt == "list":
                    ok = len(a) == len(b) and all(
                        same_number(x, y, 4e-7) for x, y in zip(list(a), b))
                elif dt == "padded":
                    ok = isinstance(a, str) and a.rstrip(" ") == b
                else:
                    a = _norm(a)
                    ok = a == b or (isinstance(a, bytes) and isinstance(b, bytes)
                                    and a.rstrip(b"\0") == b.rstrip(b"\0")) \
                        or (isinstance(a, (list, tuple)) and list(a) == list(b))
                if not ok:
                    return (f"column {name} row {r}: {a!r}, stored {b!r}")
        return None


class Txt(Exp):
    def __init__(self, text, rstrip=False):
        self.text, self.rstrip = text, rstrip

    def diff(self, got):
        if not isinstance(got, str):
            return f"not text but {type(got).__name__}: {str(got)[:80]!r}"
        a, b = got, self.text
        if self.rstrip:
            a, b = a.rstrip(" \r\n\0"), b.rstrip(" \r\n\0")
        if a != b:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                     min(len(a), len(b)))
            return (f"text differs at {k}: {a[k:k+30]!r} stored {b[k:k+30]!r} "
                    f"(lengths {len(a)}, {len(b)})")
        return None


def fingerprint(obj):
    """a digest of an object's value: equal iff equal value, shape, columns"""
    h = hashlib.sha256()

    def add(x):
        h.update(repr(x).encode() if not isinstance(x, bytes) else x)
        h.update(b"|")

    def walk(o):
        name = type(o).__name__
        if name in ("ndarray", "MaskedArray", "memmap", "recarray", "FITS_rec"):
            add(("array", o.shape, str(o.dtype.newbyteorder("="))
                 if o.dtype.names is None else str(o.dtype)))
            if name == "MaskedArray":
                m = np.ma.getmaskarray(o)
                add(np.ascontiguousarray(m).tobytes())
                if o.dtype.hasobject:
                    add(repr(o.filled(0).tolist()))
                    return
                add(np.ascontiguousarray(
                    o.filled(0).astype(o.dtype.newbyteorder("="))).tobytes())
            elif o.dtype.hasobject or o.dtype.names:
                add(repr(o.tolist()))
            else:
                add(np.ascontiguousarray(
                    o.astype(o.dtype.newbyteorder("="))).tobytes())
        elif name == "DataFrame":
            add(("table", [str(c) for c in o.columns], len(o),
                 [str(t) for t in o.dtypes]))
            add(repr([o.iloc[:, i].tolist() for i in range(o.shape[1])]))
        elif isinstance(o, (str, bytes, int, float, complex, bool, type(None))):
            add((name, o))
        elif hasattr(o, "items"):
            add("map")
            for k, v in o.items():
                add(k)
                walk(v)
        elif isinstance(o, (list, tuple)):
            add((name, len(o)))
            for v in o:
                walk(v)
        elif isinstance(o, (set, frozenset)):
            add(("set", sorted(map(repr, o))))
        else:
            add((name, str(o)))

    walk(obj)
    return h.hexdigest()


def tree(root):
    """digest of every file and directory below root"""
    out = {}
    for dp, dn, fn in os.walk(root):
        for d in dn:
            out[os.path.relpath(os.path.join(dp, d), root) + "/"] = "dir"
        for f in fn:
            p = os.path.join(dp, f)
            with seams.real_open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()
    return out
