"""Make and confirm planted bugs.

seed.py new ID PROP FILE < JSON-ish python dict (old, new, needs, breaks, demo)   -- see usage in main
seed.py check ID...     -- apply in a scratch copy, run demo, stable tests and the property's check
"""
import json, os, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the planted bug is there
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''

def scratch():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    return d

def env(d):
    e = dict(os.environ)
    e.update(PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VP_REPO=d + "/repo", VERIF_OUT=d + "/out")
    return e

def new(spec):
    d = scratch()
    try:
        for f, old, nw in spec["edits"]:
            p = os.path.join(d, "repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (spec["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, nw))
        diff = subprocess.run(["git", "-C", d + "/repo", "diff"], capture_output=True, text=True).stdout
        for f, old, nw in spec["edits"]:
            base = subprocess.run(["git", "-C", "/repo", "show", "83d1d0b:" + f], capture_output=True, text=True).stdout.splitlines()
            import difflib
            for l in difflib.ndiff(old.splitlines(), nw.splitlines()):
                if l.startswith("- ") and l[2:].strip() and not any(l[2:].strip() in b for b in base):
                    print("NOT ORIGINAL:", l)
        t = os.path.join(SEED, spec["id"])
        os.makedirs(t, exist_ok=True)
        open(t + "/patch.diff", "w").write(diff)
        open(t + "/demo.py", "w").write(spec["demo"].lstrip())
        open(t + "/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(t + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", t + "/demo.sh"], cwd=d + "/repo", env=env(d), capture_output=True, text=True)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "."], check=True)
        b = subprocess.run(["bash", t + "/demo.sh"], cwd=d + "/repo", env=env(d), capture_output=True, text=True)
        print(spec["id"], "demo patched rc", a.returncode, "clean rc", b.returncode, "OK" if a.returncode and not b.returncode else "BAD")
        if not a.returncode or b.returncode:
            print((a.stdout + a.stderr)[-800:], (b.stdout + b.stderr)[-800:])
    finally:
        shutil.rmtree(d)

def check(i, tests=True, extra=()):
    t = os.path.join(SEED, i)
    d = scratch()
    res = {}
    try:
        meta = json.load(open(t + "/meta.json"))
        b = subprocess.run(["bash", t + "/demo.sh"], cwd=d + "/repo", env=env(d), capture_output=True, text=True, timeout=300)
        r = subprocess.run(["git", "-C", d + "/repo", "apply", t + "/patch.diff"])
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY"); return
        a = subprocess.run(["bash", t + "/demo.sh"], cwd=d + "/repo", env=env(d), capture_output=True, text=True, timeout=300)
        msg = [i, meta["property"], "demo %d/%d" % (b.returncode, a.returncode)]
        for prop in [meta["property"]] + list(extra):
            c = subprocess.run([PY, "/verif/checks/run.py", prop], cwd="/verif", env=env(d), capture_output=True, text=True)
            caught = c.returncode == 1 and "VIOLATION property=" + prop in c.stdout
            msg.append("%s %s" % (prop, "CAUGHT" if caught else "MISSED rc=%d" % c.returncode))
            msg.append(c.stdout.strip().splitlines()[0][:150] if c.stdout.strip() else "")
        if tests:
            T = "test/test_tutorials.py::test_tutorial"; A = "tutorials/approximation"
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=400", "-W", "ignore",
              "--continue-on-collection-errors", "-p", "randomly", "--randomly-seed=0", "--randomly-dont-reorganize",
              "--deselect", T + "[%s/tutorial_tensor_learning_tensorized_function_learning.py]" % A,
              "--deselect", T + "[%s/tutorial_tensor_learning_TreeBasedTensorDensityLearning.py]" % A,
              "-o", "junit_family=xunit2", "--junitxml=" + d + "/p.xml", "test"], cwd=d + "/repo", env=env(d), capture_output=True)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/o.json", "junit:" + d + "/p.xml"], capture_output=True)
            o = json.load(open(d + "/o.json")); bl = json.load(open("/opt/vp/BASELINE.json"))
            miss = sorted(set(bl["stable"]) - set(o["passed"]))
            msg.append("tests ok" if not miss else "TESTS FAIL %s" % miss)
        print(" | ".join(msg), flush=True)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    if sys.argv[1] == "new":
        g = {}
        exec(sys.stdin.read(), g)
        for s in g["SEEDS"]:
            new(s)
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(SEED))
        for i in ids:
            check(i, tests="--no-tests" not in sys.argv)
