#!/usr/bin/env python3
"""tools/plant.py SPEC.py [--check] : builds /verif/seeded/<id>/ from a spec file defining BUGS = [dict(id, property, file, edits, demo, needs, breaks)].
Verifies in a scratch copy that the patch builds, passes the stable tests, and that the demo tells the two trees apart."""
import importlib.util, json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(b, notest):
    i = b["id"]
    wt = "/tmp/plant/" + i
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt)
    edits = b["edits"] if "edits" in b else [(b["file"], o, n) for o, n in b["repl"]]
    for f, o, n in edits:
        p = os.path.join(wt, f); s = open(p).read()
        if s.count(o) != 1:
            return "edit matches %d times: %r" % (s.count(o), o[:60])
        open(p, "w").write(s.replace(o, n))
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = sh(["git", "diff"], wt).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\n" + b["demo"].strip() + "\nprint('ok')\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -P "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
    if r.returncode: shutil.rmtree(d); return "demo fails on base: " + r.stdout[-400:]
    r = sh(["bash", os.path.join(d, "demo.sh")], wt)
    if r.returncode == 0: shutil.rmtree(d); return "demo passes with the patch"
    if not notest:
        x = "/tmp/plant/%s.xml" % i
        sh([PY, "-m", "pytest", "tests", "-q", "-n", "8", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + x], wt)
        bad = []
        for tc in ET.parse(x).getroot().iter("testcase"):
            if any(c.tag in ("failure", "error") for c in tc):
                bad.append(tc.get("classname") + "::" + tc.get("name"))
        os.remove(x)
        if bad: shutil.rmtree(d); return "tests fail: %d %s" % (len(bad), bad[:2])
    return ""

def catch(i, prop, n=None):
    r = subprocess.run(["python3", "run.py", prop], cwd=V, env=dict(os.environ, VERIF_REPO="/tmp/plant/" + i), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [l for l in r.stdout.splitlines() if "SyntaxWarning" not in l]
    return r.returncode, " | ".join(lines)[:300]

if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        e = one(b, "--notest" in sys.argv)
        if e:
            print("REJECT", b["id"], e, flush=True)
        else:
            for p in [b["property"]] + b.get("also", []):
                rc, o = catch(b["id"], p)
                print("CAUGHT" if rc == 1 else "MISSED(%d)" % rc, b["id"], p, o, flush=True)
        shutil.rmtree("/tmp/plant/" + b["id"], ignore_errors=True)
