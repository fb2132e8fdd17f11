#!/usr/bin/env python3
"""mkseed.py ID PROP DEMO.c NEEDS BREAKS FILE OLD NEW [OCC] [FILE OLD NEW OCC]...
Plants a change in a scratch copy, confirms it (build, stable tests, demo with and without) and stores it in seeded/ID."""
import sys, os, subprocess, json, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sd/repo"
ID, PROP, DEMO, NEEDS, BREAKS = sys.argv[1:6]
ed = sys.argv[6:]
DEMOSH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
%s
timeout 120 "$T/demo" "$T"
rc=$?
rm -rf "$T"
[ $rc = 0 ] && exit 0
echo "demo failed with $rc"
exit 1
'''
CC = 'gcc -w -g -I/repo/src -I/repo/_build/src "$D/demo.c" /repo/_build/src/libcal.a -lm -o "$T/demo" || { rm -rf "$T"; exit 1; }'
CXX = 'g++ -w -g -std=c++17 -I/repo/src -I/repo/_build/src "$D/demo.cc" /repo/_build/src/libcal.a -lm -o "$T/demo" || { rm -rf "$T"; exit 1; }'
if len(ed) % 4 and len(ed) % 3 == 0 and len(ed) == 3: ed += ["1"]
d = os.path.join(R, "seeded", ID)
inner = '''
set -e
mkdir -p /tmp/sd
/bin/rm -rf /tmp/sd/repo
cp -a /repo /tmp/sd/repo
mount --bind /tmp/sd/repo /repo
cd /repo
'''
if os.environ.get("INNER"):
    def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if sh("bash /opt/vp/build.sh").returncode: sys.exit("base does not build")
    r = sh("bash %s/demo.sh" % d)
    if r.returncode: sys.exit("demo fails on the unchanged tree:\n" + r.stdout[-1500:])
    for i in range(0, len(ed), 4):
        f, o, n, k = ed[i:i+4]
        o = o.encode().decode("unicode_escape"); n = n.encode().decode("unicode_escape"); k = int(k)
        s = open("/repo/src/" + f).read()
        p = s.split(o)
        if len(p) <= k: sys.exit("no match in %s (%d): %s" % (f, len(p) - 1, o))
        s = o.join(p[:k]) + n + o.join(p[k:])
        open("/repo/src/" + f, "w").write(s)
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: sys.exit("patched does not build\n" + r.stdout[-1500:])
    sh("bash /opt/vp/test.sh /tmp/sd/o.json")
    ok = set(json.load(open("/tmp/sd/o.json"))["passed"])
    bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
    if bad: sys.exit("stable tests fail: %s" % sorted(bad))
    r = sh("bash %s/demo.sh" % d)
    if r.returncode == 0: sys.exit("demo passes with the change")
    print("demo says:", r.stdout.strip()[-200:])
    for c in os.environ.get("CHECKS", PROP).split():
        if os.path.exists(R + "/props/%s.py" % c.lower()):
            r = sh("python3 %s/check.py %s quick" % (R, c))
            print(c, "rc", r.returncode, r.stdout.strip()[-300:])
    sys.exit(0)
os.makedirs(d, exist_ok=True)
ext = os.path.splitext(DEMO)[1]
shutil.copy(DEMO, d + "/demo" + ext)
open(d + "/demo.sh", "w").write(DEMOSH % (CXX if ext == ".cc" else CC))
json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=BREAKS), open(d + "/meta.json", "w"), indent=1)
os.environ["INNER"] = "1"
r = subprocess.run(["unshare", "-Urm", "bash", "-c", inner + 'exec python3 "$@"', "x", os.path.abspath(__file__)] + sys.argv[1:6] + ed)
shutil.rmtree("/tmp/sd/repo", ignore_errors=True)
if r.returncode:
    shutil.rmtree(d)
    sys.exit("not kept")
print("kept", ID)
