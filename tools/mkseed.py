#!/usr/bin/env python3
"""mkseed.py ID PROPERTY KIND SEED COUNT DIFF NEEDS BREAKS: assemble seeded/<ID> with a self-contained demonstration."""
import sys, os, shutil, json
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, kind, seed, count, diff, needs, breaks = sys.argv[1:9]
d = root + "/seeded/" + sid
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + "/vf")
shutil.copy(diff, d + "/patch.diff")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3-vt "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
F = {"mesh": ["common", "mesh", "meshdump", "meshcase"], "convert": ["common", "mesh", "meshcase", "meshdump", "check_C03"],
     "tstruct": ["common", "mesh", "fem", "results", "physcase", "transient"], "nstruct": ["common", "mesh", "fem", "results", "physcase", "transient", "nonlinear"],
    }.get(kind.split("-")[0], ["common", "mesh", "fem", "results", "physcase"])
for f in F: shutil.copy(root + "/vf/%s.py" % f, d + "/vf/")
if kind.startswith("mesh"):
    os.makedirs(d + "/harness"); shutil.copy(root + "/harness/meshdump.cpp", d + "/harness/")
    body = '''
exe = common.build_harness("meshdump")
def one(i):
    rng = random.Random(%s + i)
    d = os.path.join(top, str(i)); os.makedirs(d)
    c = meshcase.make(rng, d, size=4)
    r = common.run_twice(lambda: meshcase.run(exe, c, d))
    if not r.ok: return None if re.search("process without any elements|adjncy is NULL", r.out + r.err) else c.desc + " failed: " + r.errmsg()
    rk = meshdump.load(d + "/out", c.np)
    bad = meshdump.check_fidelity(c.mesh, rk) if "%s" == "mesh-f" else meshdump.check_consistency(rk, reclustered=c.dec != 0)
    return c.desc + str(bad[0]) if bad else None
''' % (seed, kind)
else:
    body = open(root + "/tools/demo_%s.py" % kind).read().replace("@SEED@", seed)
imp = "import common, " + ", ".join(f for f in F if f != "common")
open(d + "/demo.py", "w").write('''import sys, os, random, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
sys.dont_write_bytecode = True
%s
from concurrent.futures import ThreadPoolExecutor
top = tempfile.mkdtemp(prefix="demo_")
%s
rc = 0
try:
    with ThreadPoolExecutor(8) as ex:
        for m in ex.map(one, range(%s)):
            if m: print("WRONG:", m[:400]); rc = 1; break
finally:
    shutil.rmtree(top, ignore_errors=True)
    for x in common._tmpdirs: shutil.rmtree(x, ignore_errors=True)
print("demo", "failed" if rc else "passed")
os._exit(rc)
''' % (imp, body, count))
