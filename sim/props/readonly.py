"""C11: reading never modifies or creates files; dumping only what it was asked for."""
from __future__ import annotations

import os

from ..base import Prop, Out, call, fetch, gen_delivery, gen_any, pick
from ..world import tree
from .. import seams
from .faults import draw_fault

WFAULTS = ("ENOSPC", "EIO", "EDQUOT")
BENIGN_ELSEWHERE = ("/dev/null", "/dev/tty")


def stats(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            s = seams.real_os_stat(os.path.join(dp, f))
            out[os.path.relpath(os.path.join(dp, f), root)] = (s.st_ino, s.st_mode, s.st_mtime_ns,
                                                               s.st_uid, s.st_nlink)
    return out


class C11(Prop):
    id = "C11"
    quick_n = 6000
    thorough_n = 90000
    rule = ("a run drives one product through a seeded sequence of reads, queries, scalings, "
            "displays and browse dumps, most of them under storage faults, and compares every "
            "file and directory (and all opens for writing, anywhere) with before; non-trivial "
            "when at least three requests were made; distinct = distinct histories")
    assumptions = ["access times are not counted as modification"]

    def gen(self, rng, i, tier):
        spec = gen_any(rng, nobj=(1, 5))
        ops = []
        for _ in range(rng.randrange(3, 13)):
            op = pick(rng, (4, "item"), (2, "attr"), (2, "load"), (2, "reload"), (1, "all"),
                      (2, "scaled"), (1, "inplace"), (2, "show"), (2, "dump"), (1, "meta"),
                      (1, "repr"), (1, "open"), (1, "unknown"))
            ops.append([op, rng.randrange(100), rng.randrange(1 << 20)])
        nf = pick(rng, (3, 0), (3, 1), (2, 2), (1, 4))
        faults = [draw_fault(rng) for _ in range(nf)]
        for f in faults:
            if rng.random() < 0.25:
                f.clear()
                f.update(kind="KBI", pos=rng.random())
            elif rng.random() < 0.3:
                f.clear()
                f.update(kind="ERR", op=rng.choice(("openw", "write", "closew")),
                         errno=rng.choice(WFAULTS), frac=rng.random(), nth=rng.randrange(4))
        return {"spec": spec, "ops": ops, "delivery": gen_delivery(rng, 0.6),
                "dseed": rng.randrange(1 << 30), "faults": faults,
                "existing": rng.random() < 0.4, "readonly": rng.random() < 0.2}

    def run(self, case, env):
        out = Out()
        w = env.world(case["spec"])
        root = env.root
        for sub in ("out", "out/deeper", "cwd"):
            os.makedirs(os.path.join(root, sub), exist_ok=True)
        stem = os.path.splitext(os.path.basename(str(w.main)))[0]
        for n in ("out/unrelated.txt", "cwd/other.jpg", f"out/{stem}.csv", "out/px",
                  "out/deeper/px_IMAGE.jpg"):
            with seams.real_open(os.path.join(root, n), "w") as fh:
                fh.write("keep me\n")
        if case["existing"]:
            for k in list(w.expected)[:3]:
                for pre in ("px", stem):
                    for e in ("jpg", "csv", "txt"):
                        if "/" not in k:
                            with seams.real_open(f"{root}/out/{pre}_{k}.{e}", "w") as fh:
                                fh.write("old browse product\n")
        if case["readonly"]:
            for p in w.paths:
                if os.path.isfile(p):
                    os.chmod(p, 0o444)
        before, st0 = tree(root), stats(root)
        allowed = set()     # (directory, prefix) of the dumps asked for
        here = os.getcwd()
        os.chdir(os.path.join(root, "cwd"))
        # rehearsal for the length of the run
        try:
            with env.ctx(case, faults=[]) as ctx:
                self.drive(case, env, w, ctx, set(), out, rehearse=True)
                total = ctx.n
                audit = list(ctx.audit)
            m = self.compare(root, before, st0, self.asked, audit, True)
            if m:
                return out.bad(m)
            # the browse products of the rehearsal
            for p in set(tree(root)) - set(before):
                if os.path.isfile(os.path.join(root, p)):
                    os.unlink(os.path.join(root, p))
            before, st0 = tree(root), stats(root)
            with env.ctx(case) as ctx:
                ctx.arm(case["faults"], total)
                self.drive(case, env, w, ctx, allowed, out)
                ctx.heal()
                audit = list(ctx.audit)
                shrunk = "file_shrinks" in ctx.fired
            out.take(ctx)
            m = self.compare(root, before, st0, self.asked, audit, not shrunk)
            if m:
                out.bad(m + f" (requests: {[o[0] for o in case['ops']]})")
        finally:
            os.chdir(here)
            if case["readonly"]:
                for p in w.paths:
                    if os.path.isfile(p):
                        os.chmod(p, 0o644)
        return out

    def drive(self, case, env, w, ctx, allowed, out, rehearse=False):
        self.asked = allowed
        r = call(env.pdr.read, w.main)
        d = r.value if r.ok else None
        n = 0
        for op, x, y in case["ops"]:
            if op == "open" or d is None:
                r = call(env.pdr.read, w.main)
                out.note(op, r.ok, r.etype)
                if r.ok:
                    d = r.value
                continue
            names = [k for k in list(d.keys())]
            nm = names[x % len(names)] if names else "IMAGE"
            n += 1
            if op in ("item", "attr", "load", "reload"):
                r = call(fetch, d, nm, op)
            elif op == "all":
                r = call(lambda: d.load("all"))
            elif op == "scaled":
                r = call(d.get_scaled, nm)
            elif op == "inplace":
                r = call(d.get_scaled, nm, inplace=True)
            elif op == "show":
                r = call(d.show, nm, scaled=bool(y & 1))
            elif op == "meta":
                r = call(lambda: (d.metaget("RECORD_TYPE"), d.metablock_(nm), dict(d.metadata)))
            elif op == "repr":
                r = call(lambda: (repr(d), str(d), repr(d.metadata), len(d), list(iter(d))
                                  if y & 1 else None))
            elif op == "unknown":
                r = call(lambda: d["NO_SUCH_OBJECT"])
            else:
                kw = {"prefix": (None, "px", "px")[y % 3],
                      "outpath": ("../out", os.path.join(ctx.root, "out"), None,
                                  "../nowhere")[(y >> 3) % 4],
                      "scaled": (True, False, "both")[(y >> 6) % 3],
                      "purge": bool((y >> 9) & 1) and bool((y >> 10) & 1)}
                if (y >> 11) & 1:
                    kw["band_ix"] = "burst"
                if (y >> 12) & 3 == 0:
                    kw["image_format"] = "png"
                pre = kw["prefix"] or os.path.basename(str(d.filename)).rsplit(".", 1)[0]
                allowed.add((os.path.realpath(os.path.join(
                    os.getcwd(), kw["outpath"] or ".")), pre))
                r = call(d.dump_browse, **kw)
            out.note(op, nm, r.ok, r.etype)
            if not rehearse:
                out.feats.append(op if r.ok else op + ":failed")
        out.nontrivial = n >= 3
        return None

    def compare(self, root, before, st0, allowed, audit, times):
        after, st1 = tree(root), stats(root)

        def asked(p):
            # p: absolute path
            d, b = os.path.dirname(p), os.path.basename(p)
            return any(d == dd and b.startswith(pre) for dd, pre in allowed)

        for p in sorted(set(before) | set(after)):
            if asked(os.path.join(root, p)):
                if p in before and p not in after:
                    # an old browse product may be lost only where one of that
                    # name was to be written
                    continue
                continue
            if p not in after:
                return f"{p} is gone"
            if p not in before:
                return f"{p} has been created"
            if before[p] != after[p]:
                return f"the contents of {p} have changed"
            a, b = st0.get(p), st1.get(p)
            if a and b and (a[:2] + a[3:] != b[:2] + b[3:] or (times and a[2] != b[2])):
                return f"{p} was written to or replaced (status {a} became {b})"
        for ev in audit:
            if ev[0] == "mmap":
                if ev[2] in ("2", "ACCESS_WRITE"):
                    return f"{ev[1]} was mapped for writing"
                continue
            p = os.path.normpath(os.path.join(root, "cwd", ev[1]))
            if p in BENIGN_ELSEWHERE or asked(p):
                continue
            if ev[0] == "open-for-write" and "nowhere" in p and \
                    any(dd.endswith("nowhere") for dd, _ in allowed):
                continue
            return f"{ev[0]} of {p} ({ev[1:]})"
        return None
