"""Author and verify planted bugs (development aid; no check uses it).
  plant.py make FILE.py     FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
  plant.py verify ID...     copy of /repo + patch: stable tests, demo both ways, the property's check
  plant.py check ID...      only the property's check"""
import json, os, shutil, subprocess, sys, tempfile, runpy
import concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(tag):
    d = tempfile.mkdtemp(prefix="plant.%s." % tag)
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", os.environ.get("PLANT_REPO", "/repo"), r])
    return d, r


def make(path):
    for b in runpy.run_path(path)["BUGS"]:
        d, r = copy(b["id"])
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "old text occurs", s.count(old), "times in", f)
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                t = os.path.join(V, "seeded", b["id"])
                os.makedirs(t, exist_ok=True)
                open(os.path.join(t, "patch.diff"), "w").write(sh("git -C %s diff" % r).stdout)
                open(os.path.join(t, "demo.sh"), "w").write('#!/bin/bash\nexec env MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
                open(os.path.join(t, "demo.py"), "w").write(b["demo"].lstrip("\n"))
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(t, "meta.json"), "w"), indent=1)
                print("made", b["id"])
        finally:
            shutil.rmtree(d)


def verify(bid, tests=True):
    t = os.path.join(V, "seeded", bid)
    prop = json.load(open(os.path.join(t, "meta.json")))["property"]
    d, r = copy(bid)
    out = [bid, prop]
    try:
        a = sh("git -C %s apply %s/patch.diff" % (r, t))
        if a.returncode:
            return out + ["PATCH DOES NOT APPLY " + a.stdout]
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        if tests:
            x = sh("bash %s/demo.sh" % t, cwd="/repo")
            out.append("demo-clean:%d" % x.returncode + ("" if x.returncode == 0 else " !!! " + x.stdout[-400:]))
            x = sh("bash %s/demo.sh" % t, cwd=r, env=env)
            out.append("demo-bug:%d" % x.returncode + ("" if x.returncode else " !!!"))
            x = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -p no:xdist --randomly-seed=0 --randomly-dont-reorganize "
                   "-o junit_family=xunit2 --junitxml=%s/junit.xml tests" % (PY, d), cwd=r, env=env)
            sh("/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/junit.xml" % (d, d))
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = set(base.get("passed", base.get("stable", []))) if isinstance(base, dict) else set(base)
            got = set(json.load(open(d + "/o.json"))["passed"])
            out.append("tests-lost:%d" % len(base - got) + (" !!! " + str(sorted(base - got)[:3]) if base - got else ""))
        env = dict(os.environ, ALLAN_REPO=r, VERIF_SEED="1", VERIF_TIER="quick", EVIDENCE_DIR=d)
        x = sh("python3 %s/harness/check.py %s" % (V, prop), cwd=V, env=env)
        caught = x.returncode == 1 and "VIOLATION property=%s" % prop in x.stdout
        cl = sorted({l.split(" in ")[0] for l in x.stdout.splitlines() if l.startswith("broken clauses")})
        out.append(("CAUGHT " + "; ".join(cl[:3])) if caught else "MISSED rc=%d %s" % (x.returncode, x.stdout[-300:]))
        return out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        with cf.ThreadPoolExecutor(2) as ex:
            for o in ex.map(lambda i: verify(i, sys.argv[1] == "verify"), ids):
                print(" | ".join(o), flush=True)
