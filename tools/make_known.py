#!/opt/venv/bin/python
"""
Write known_findings.jsonl: genuine defects that are recorded, not repaired (each
with a case that check.py executes on every run), and the repaired ones.
Development only; no check runs this.
"""
import copy
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import gen_pds3, gen_img  # noqa: E402


def col(n, bytes=2, gap=0):
    return {"name": n, "gap": gap, "items": None, "sf": None, "off": None, "bits": None,
            "type": "MSB_INTEGER", "bytes": bytes}


def cont(n, reps, cols, gap=0, spare=0):
    return {"container": n, "reps": reps, "cols": cols, "gap": gap, "spare": spare}


def table(cols, rows=3, **kw):
    rng = random.Random("known")
    spec = gen_pds3.gen(rng, opened=("label",), nobj=1, kinds=("table_bin",))
    o = spec["objs"][0]
    o.update({"kind": "table_bin", "rows": rows, "cols": cols, "pre": 0, "suf": 0, "spare": 0,
              "fmt": None})
    o.update(kw)
    return {"spec": spec, "delivery": {}, "dseed": 0, "order": 0, "again": False,
            "dirseed": "sorted"}


def stmt(key, written, value):
    """an attached label with one statement of this form"""
    rng = random.Random("known")
    spec = gen_pds3.gen(rng, attached=1.0, nobj=1, kinds=("header",), comp=0)
    spec.update({"rich": 0, "filler": 1, "stmts": [[key, written, value]], "padto": None})
    return {"spec": spec, "delivery": {}, "dseed": 0, "torn": None}


def long_header():
    rng = random.Random("known")
    spec = gen_pds3.gen(rng, attached=0.0, nobj=1, kinds=("header",), comp=0,
                        opened=("label",))
    spec["objs"][0].update({"lines": 6000, "latin": False, "pos": "BYTES"})
    spec.update({"rich": 0, "filler": 1})
    return {"spec": spec, "delivery": {}, "dseed": 0, "order": 0, "again": False,
            "dirseed": "sorted"}


def collection():
    rng = random.Random("known")
    spec = gen_pds3.gen(rng, attached=0.0, nobj=1, kinds=("array_bin",), comp=0,
                        opened=("label",))
    spec["objs"][0].update({"shape": [4], "sub": [
        {"type": "MSB_INTEGER", "nb": 2, "gap": 0}, {"type": "MSB_INTEGER", "nb": 2, "gap": 2}]})
    return {"spec": spec, "delivery": {}, "dseed": 0, "order": 0, "again": False,
            "dirseed": "sorted"}


def cells(text, sep=","):
    rng = random.Random("known")
    spec = gen_pds3.gen(rng, opened=("label",), nobj=1, kinds=("table_fixed",), attached=0)
    o = spec["objs"][0]
    c = {"items": None, "sf": None, "off": None}
    o.update({"rows": 2, "fmt": None, "sep": sep, "quote": sep == ",", "rowsuf": 0, "cols": [
        c | {"name": "A", "type": "ASCII_INTEGER", "bytes": 4},
        c | {"name": "B", "type": "CHARACTER", "bytes": len(text), "only": [text]}]})
    spec["rich"] = 0
    return {"spec": spec, "delivery": {}, "dseed": 0, "order": 0, "again": False,
            "dirseed": "sorted"}


OPEN = [
    ("C02", "text-not-available", "the text N/A in a CHARACTER column of an ASCII table "
     "comes back as a missing value", cells("N/A")),
    ("C02", "text-of-digits", "texts made of digits in a CHARACTER column of an ASCII table "
     "come back as numbers, without their leading zeros", cells("007")),
    ("C02", "comma-in-text", "a fixed-width ASCII table whose texts contain so many commas that "
     "its rows have as many parts as it has columns is cut at the commas", cells("A,B", " ")),
    ("C03", "header-over-80000", "of a header longer than 80000 bytes only the first 80000 "
     "are delivered, without a word", long_header()),
    ("C03", "collection-gap", "bytes between the ELEMENTs of a COLLECTION in a binary ARRAY are "
     "not skipped", collection()),
    ("C04", "short-keyword", "a statement with a keyword of fewer than six letters and an "
     "unquoted lower-case value is taken for more text of the statement before it",
     stmt("UNIT", "km", "km")),
    ("C04", "equals-in-text", "a statement whose text contains '=' on its first line is left "
     "out", stmt("VP_TEXT_KEY", '"PH=7"', "PH=7")),
    ("C04", "comment-in-text", "a text containing '/*' is cut there",
     stmt("VP_TEXT_KEY", '"SEE DATA/*.IMG"', "SEE DATA/*.IMG")),
    ("C02", "container-gap", "bytes between a column and a CONTAINER that follows it are not "
     "skipped", table([col("A"), cont("K", 2, [col("B")], gap=3), col("C")])),
    ("C02", "container-spare", "bytes left at the end of a CONTAINER's repetitions are not "
     "skipped when another CONTAINER follows directly",
     table([col("A"), cont("K", 2, [col("B")], spare=2), cont("L", 2, [col("C")])])),
    ("C02", "container-first", "a table that starts with a repeated CONTAINER repeats its "
     "first repetition or fails to load", table([cont("K", 2, [col("B")])])),
    ("C02", "prefix-with-suffix", "a binary table with both ROW_PREFIX_BYTES and "
     "ROW_SUFFIX_BYTES is read with a wrong record length",
     table([col("A"), col("B")], pre=3, suf=4)),
    ("C02", "prefix-with-spare", "a binary table with ROW_PREFIX_BYTES and spare bytes at the "
     "end of its rows is read with a wrong record length",
     table([col("A"), col("B")], pre=3, spare=4)),
]


def replayed(path):
    with open(os.path.join(HERE, "tools", "known", path)) as fh:
        case = json.load(fh)["case"]
    case.pop("i", None)
    case.pop("prop", None)
    return case


def main():
    lines = []
    for pid, kid, what, case in OPEN:
        lines.append(json.dumps({"property": pid, "id": kid, "what": what, "case": case}))
    kd = os.path.join(HERE, "tools", "known")
    for fn in sorted(os.listdir(kd)) if os.path.isdir(kd) else ():
        with open(os.path.join(kd, fn)) as fh:
            e = json.load(fh)
        lines.append(json.dumps(e))
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                         capture_output=True, text=True).stdout
    with open(os.path.join(HERE, "tools", "fixed.json")) as fh:
        pids = json.load(fh)
    for ln in log.splitlines():
        h, _, s = ln.partition(" ")
        if s.startswith("fix:"):
            lines.append(f"fixed: property={pids[s]} {h} {s[5:]}")
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as fh:
        fh.write("\n".join(lines) + "\n")


if __name__ == "__main__":
    main()
