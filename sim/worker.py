"""
One worker: installs the seams, imports the library, then forks a fresh process
for every batch of simulated runs it is told to do (JSON lines on stdin, results
on stdout).
"""
from __future__ import annotations

import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback
import warnings
from xml.etree import ElementTree

NAMESPACES = dict(ElementTree._namespace_map)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def preload():
    """import what the library imports on demand, so that runs do not"""
    import pdr
    import pkgutil
    for m in pkgutil.walk_packages(pdr.__path__, "pdr."):
        if m.name.startswith("pdr.tests") or ".extern" in m.name \
                or "viewer" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    for n in ("PIL.Image", "PIL.PngImagePlugin", "PIL.TiffImagePlugin",
              "PIL.BmpImagePlugin", "PIL.GifImagePlugin", "PIL.Jpeg2KImagePlugin",
              "PIL.WebPImagePlugin", "PIL.JpegImagePlugin", "astropy.io.fits",
              "matplotlib", "bz2", "gzip", "zipfile", "isal.igzip", "pickle",
              "Levenshtein", "numpy.ma", "pandas", "more_itertools"):
        try:
            importlib.import_module(n)
        except Exception:
            pass
    try:
        from PIL import Image
        Image.init()
    except Exception:
        pass
    # (what is done once only, on first use)
    import io
    import pandas as pd
    pd.read_csv(io.StringIO(pd.DataFrame({"a": [1, 2]}).to_csv()))
    pd.DataFrame({"a": [1]}).to_csv(os.devnull)
    pd.read_fwf(io.StringIO("a b\n1 2\n"))
    warnings.simplefilter("ignore")


def one(prop, env, case, seed, index):
    from . import seams
    t = seams.real_monotonic()
    # process-wide state that outlives a run (XML namespace prefixes that
    # pds4_tools registers) starts out alike in every run
    ElementTree._namespace_map.clear()
    ElementTree._namespace_map.update(NAMESPACES)
    try:
        res = prop.run(case, env).result()
    except BaseException as ex:
        res = {"error": "".join(traceback.format_exception(ex))[-3000:]}
    finally:
        if seams.CTX is not None:
            seams.CTX = None
            res.setdefault("error", "context left open")
        sys.settrace(None)
        seams.CLOCK = None
    res["wall"] = seams.real_monotonic() - t
    res["i"] = index
    return res


def child(cmd, out, root):
    from . import seams
    from .base import Env
    from .props import get
    prop = get(cmd["prop"])
    os.makedirs(root)
    env = Env(root)
    os.chdir(root)
    import random as _r
    w = seams.real_open(out, "w", buffering=1)

    def say(x):
        w.write(json.dumps(x) + "\n")
        w.flush()

    if "cases" in cmd:
        todo = [(c.get("i", k), c) for k, c in enumerate(cmd["cases"])]
    else:
        todo = [(i, None) for i in cmd["idx"]]
    for i, case in todo:
        say({"start": i})
        try:
            if case is None:
                rng = _r.Random(f"{cmd['seed']}:{cmd['prop']}:{i}")
                case = prop.gen(rng, i, cmd["tier"])
                case["i"], case["prop"] = i, cmd["prop"]
                case = json.loads(json.dumps(case))
            res = one(prop, env, case, cmd.get("seed"), i)
            if res.get("viol") or res.get("error") or cmd.get("want_case") \
                    or i in cmd.get("want", ()):
                res["case"] = case
        except BaseException as ex:
            res = {"i": i, "error": "".join(traceback.format_exception(ex))[-3000:]}
        try:
            os.chdir(root)
            env.clean()
        except OSError:
            pass
        say(res)
    say({"done": True})


def serve(workno, scratch):
    from . import seams
    seams.install()
    preload()
    from .props import get
    base = os.path.join(scratch, f"w{workno:02d}")
    os.makedirs(base, exist_ok=True)
    k = 0
    stdin, stdout = sys.stdin.buffer, sys.stdout
    stdout.write(json.dumps({"ready": True}) + "\n")
    stdout.flush()
    for line in stdin:
        cmd = json.loads(line)
        if cmd.get("quit"):
            break
        deadline = cmd.get("deadline", 60.0)
        left = None
        results = []
        runs = [cmd]
        if get(cmd["prop"]).isolated:
            what = "idx" if "idx" in cmd else "cases"
            runs = [{**cmd, what: [x]} for x in cmd[what]]
            if what == "cases":
                runs = [{**cmd, "cases": [{"i": j, **x}]}
                        for j, x in enumerate(cmd["cases"])]
        while runs:
            c = runs.pop(0)
            k += 1
            root = os.path.join(base, f"r{k:06d}")
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 3
                try:
                    os.setsid()
                    os.close(r)
                    dn = os.open(os.devnull, os.O_RDWR)
                    os.dup2(dn, 0)
                    os.dup2(dn, 1)
                    if not os.environ.get("VPSIM_DEBUG"):
                        os.dup2(dn, 2)
                    child(c, wfd, root)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(rc)
            os.close(wfd)
            buf, started, finished, done = b"", None, set(), False
            last = seams.real_monotonic()
            why = None
            while True:
                rd, _, _ = select.select([r], [], [], 1.0)
                now = seams.real_monotonic()
                if rd:
                    data = os.read(r, 1 << 16)
                    if not data:
                        break
                    buf += data
                    while b"\n" in buf:
                        ln, buf = buf.split(b"\n", 1)
                        m = json.loads(ln)
                        last = now
                        if "start" in m:
                            started = m["start"]
                        elif m.get("done"):
                            done = True
                        else:
                            results.append(m)
                            finished.add(m["i"])
                            started = None
                elif now - last > deadline:
                    why = "hang"
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    break
            os.close(r)
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            _, status = os.waitpid(pid, 0)
            for d in os.listdir(base):
                if d.startswith(os.path.basename(root)):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            if not done:
                what = why or f"crash (wait status {status})"
                results.append({"i": started, "died": what})
                if "idx" in c:
                    rest = [i for i in c["idx"] if i not in finished and i != started]
                    if rest and len(rest) < len(c["idx"]):
                        runs.append({**c, "idx": rest})
                elif started is not None:
                    rest = [x for j, x in enumerate(c["cases"])
                            if x.get("i", j) not in finished and x.get("i", j) != started]
                    if rest and len(rest) < len(c["cases"]):
                        runs.append({**c, "cases": rest})
        stdout.write(json.dumps({"results": results}) + "\n")
        stdout.flush()


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    repo = os.environ.get("VPSIM_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    # keep a clean channel for results
    real = os.dup(1)
    os.dup2(2, 1)
    sys.stdout = os.fdopen(real, "w")
    serve(int(sys.argv[1]), sys.argv[2])
