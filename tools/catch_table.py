"""Write the table of planted bugs into DESIGN.md (development only; no check runs this)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRONGER = {
    "c01-read1": "compressed, short-delivering files in more layouts",
    "c02-bitstring7": "bit strings of 3 and 5-8 bytes",
    "c05-nested-group": "nested and named groups",
    "c05-group-columns": "groups in delimited tables",
    "c09-metaget": "metadata queries between loads, compared with those of a fresh product",
    "c13-specials": "specials asked for before and after scaling",
    "c17-format-cache": "replacement files of other table layouts, more format files",
    "c18-unwrap": "label-file victims under debug",
}
NOTCAUGHT = {}
p = os.path.join(HERE, "tools", "not_caught.json")
if os.path.exists(p):
    NOTCAUGHT = json.load(open(p))
p = os.path.join(HERE, "tools", "stronger.json")
if os.path.exists(p):
    STRONGER |= json.load(open(p))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    by = NOTCAUGHT.get(i) or m["property"] + (f" (strengthened: {STRONGER[i]})" if i in STRONGER else "")
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {by} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
if "@@CATCH@@" in s:
    s = s.replace("@@CATCH@@", "<!-- catch -->\n<!-- end -->")
s = re.sub(r"<!-- catch -->.*<!-- end -->",
           lambda _: "<!-- catch -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2, "planted bugs")
