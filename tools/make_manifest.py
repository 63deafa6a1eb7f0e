"""Write MANIFEST.json for the properties whose simulations exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NOTES = {
 "C01": "no sample, shape or layout error was seen over seeded products, deliveries (short reads, retried calls, buffer sizes) and compressions; trusts the value-to-bytes encoders",
 "C02": "as C01 for tables: exact columns, rows and values over seeded layouts and deliveries",
 "C03": "as C01 for text, header and array objects",
 "C04": "seeded label lengths placed around every internal read boundary, paddings, trailing data and truncation points; statements and label text compared with what was written; hangs caught by a deadline",
 "C05": "as C01 for PDS4 arrays, tables and headers",
 "C06": "as C01 for FITS files (direct, PDS3- and PDS4-labelled) and desktop images",
 "C07": "storage errors, truncations, shrinking and vanishing files injected at seeded storage steps while loading products of all families; every object that loads must be exact or the failure reported",
 "C08": "one file fails persistently while the product is loaded; all others must be exact; then faults heal and reload and reopen must be exact",
 "C09": "seeded sequences of accesses, reloads, metadata queries checked step by step against a reference model of the product",
 "C10": "interrupts injected at seeded storage steps and at seeded source lines of library code during loads",
 "C11": "every mutation of the file system is recorded by an audit hook and file trees are compared, with and without injected faults",
 "C12": "seeded directory contents, search paths and listing orders against an executable reference of the resolution rule; files vanish during look-up",
 "C13": "scaled copies against stored value times factor plus offset; fingerprints of objects and metadata before and after scaling, showing and dumping in seeded orders",
 "C14": "dumps under seeded write faults (full disk, I/O error, failed open or close, short writes) with outputs decoded and compared",
 "C15": "real threads under a seeded cooperative scheduler that switches at storage steps and at source lines",
 "C16": "the kernel's list of open files and mappings compared before and after loads that fail at seeded steps",
 "C17": "equal files read in processes with different hash seeds, directory orders, clocks, working directories and histories; whole observation digests compared",
 "C18": "the same seeded load sequences with and without debugging and tracking under a jumping clock, results and logs compared",
}
NA = {
 "C19": "literalisation of a label value is a pure function of its text: no schedule, time, I/O or fault can affect it, so simulation adds nothing to plain input generation (values met on the way are checked by C04)",
 "C20": "bit-pattern conversion is a pure function of its input bytes without any concurrency, time or I/O (values met on the way are checked by C01 and C02)",
 "C21": "normalisation of an array to eight bits is a pure arithmetic function; nothing a simulator controls can affect it (C14 checks that outputs are complete)",
 "C22": "mission special cases are pure functions of label content, and stating them needs real mission products, which the sandbox lacks",
}
from sim.props import _WHERE
checks = []
for pid in sorted(_WHERE):
    if not os.path.exists(os.path.join(HERE, "sim/props", _WHERE[pid] + ".py")):
        continue
    src = open(os.path.join(HERE, "sim/props", _WHERE[pid] + ".py")).read()
    if f"class {pid}" not in src:
        continue
    cmd = f"/opt/venv/bin/python check.py --property {pid}"
    checks.append({"property": pid, "quick_cmd": cmd + " --tier quick",
                   "thorough_cmd": cmd + " --tier thorough",
                   "evidence_file": f"evidence/{pid}.json",
                   "technique": "deterministic simulation with fault injection: seeded search over simulated runs of the real library behind a storage/clock/thread seam",
                   "level": "exploration", "level_note": NOTES[pid]})
done = {c["property"] for c in checks}
na = [{"property": k, "reason": v} for k, v in NA.items()]
for pid in sorted(_WHERE):
    if pid not in done:
        na.append({"property": pid, "reason": "simulation not built yet"})
json.dump({"version": 1,
           "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); import sim.base\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is a module attribute or an OS entry point replaced inside the simulator's worker processes (sim/seams.py)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
