#!/opt/venv/bin/python
"""development: shrink_known.py PROP INDEX ID WHAT [key=json ...] -> tools/known/PROP-ID.json"""
import json, os, random, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
from sim import seams; seams.install()
from sim import base, props
pid, i, kid, what = sys.argv[1:5]
prop = props.get(pid)
case = json.loads(json.dumps(prop.gen(random.Random(f"{os.environ.get('SEED', 1)}:{pid}:{i}"), int(i), "quick")))
for kv in sys.argv[5:]:
    k, _, v = kv.partition("=")
    case[k] = json.loads(v)
root = tempfile.mkdtemp(dir="/dev/shm")
def bad(c):
    env = base.Env(os.path.join(root, "r"))
    os.makedirs(env.root, exist_ok=True)
    v = prop.run(json.loads(json.dumps(c)), env).viol
    env.clean()
    return v
v = bad(case)
assert v, "does not show"
again = True
while again:
    again = False
    for c in prop.shrinks(case):
        if json.dumps(c, sort_keys=True) != json.dumps(case, sort_keys=True) and bad(c):
            case, again = c, True
            break
print(bad(case))
with open(os.path.join(HERE, "tools", "known", f"{pid}-{kid}.json"), "w") as fh:
    json.dump({"property": pid, "id": kid, "what": what, "case": case}, fh)
