#!/usr/bin/env python3
"""seedtest.py ID... [--nocheck] [--notest]: applies a planted bug to /repo, builds, runs the stable tests, the demo
and the property's quick check, and undoes it."""
import json, os, subprocess, sys, tempfile
V = "/verif"
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
base = json.load(open("/opt/vp/BASELINE.json")); base = base.get("stable") or base.get("passed") or base
assert sh("git -C /repo status --porcelain -uno").stdout.strip() == "", "dirty /repo"
def demo(i):
    d = tempfile.mkdtemp(); sh("cp -a %s/seeded/%s/. %s/; rm -f %s/*.diff %s/meta.json" % (V, i, d, d, d))
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); sh("rm -rf " + d); return r
res = []
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i))); line = {"id": i, "property": meta["property"]}
    try:
        a = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
        if a.returncode: line["apply"] = a.stdout; print(json.dumps(line), flush=True); continue
        if "--notest" in sys.argv:
            b = sh("bash /opt/vp/build.sh")
            line["build"] = b.returncode == 0
        else:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json"); o = json.load(open("/tmp/seedtest.json"))
            line["missing"] = [x for x in base if x not in set(o["passed"])][:5]
        r = demo(i); line["demo_patched"] = r.returncode; line["demo_out"] = r.stdout[-200:]
        if "--nocheck" not in sys.argv:
            c = sh("python3 %s/check.py %s" % (V, meta["property"]), env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            line["check"] = c.returncode; line["check_out"] = [l for l in c.stdout.splitlines() if l.startswith(("---", "VIOL", "NO VER"))][:2]
    finally:
        sh("git -C /repo checkout -- .")
    print(json.dumps(line, indent=1), flush=True); res.append(line)
sh("bash /opt/vp/build.sh")
for l in res:
    r = demo(l["id"]); l["demo_clean"] = r.returncode
    ok = not l.get("missing") and l.get("build", True) and l["demo_patched"] != 0 and l["demo_clean"] == 0
    print("%s %s valid=%s clean=%d patched=%d check=%s" % (l["id"], l["property"], ok, l["demo_clean"], l["demo_patched"], l.get("check")), r.stdout[-300:] if l["demo_clean"] else "")
