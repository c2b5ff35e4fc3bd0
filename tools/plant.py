"""Create / verify planted bugs.

plant.py add FILE.py      create seeded/<id> from the definitions in FILE.py (list SEEDS)
plant.py verify [ids]     verify patches in scratch copies (tests + demo), results in /tmp
plant.py detect [ids]     run the check of the property against a patched copy
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
RES = "/tmp/seedres"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True,
                          **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("__pycache__"))
    return d, d + "/repo"


def add(path):
    spec = importlib.util.spec_from_file_location("seeds", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        d, r = scratch()
        try:
            for f, old, new in s["edits"]:
                p = f"{r}/src/rt1_model/{f}"
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT", f, t.count(old), old[:60])
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                out = sh("git diff", cwd=r).stdout
                # all removed lines have to be part of the original repository
                root = sh("git rev-list --max-parents=0 HEAD", cwd="/repo").stdout.strip()
                mine = set()
                for f in {e[0] for e in s["edits"]}:
                    for ln in sh(f"git blame -s HEAD -- src/rt1_model/{f}",
                                 cwd="/repo").stdout.splitlines():
                        if not ln.startswith("^"):
                            mine.add(ln.split(")", 1)[1].strip())
                rem = [x[1:].strip() for x in out.splitlines()
                       if x.startswith("-") and not x.startswith("---")]
                if not rem:
                    print(s["id"], "no line of the original is changed")
                for x in rem:
                    if x and x in mine:
                        print(s["id"], "line may not be original:", x)
                t = f"{SEED}/{s['id']}"
                os.makedirs(t, exist_ok=True)
                open(t + "/patch.diff", "w").write(out)
                open(t + "/demo.py", "w").write(s["demo"].lstrip("\n"))
                open(t + "/demo.sh", "w").write(
                    "#!/bin/bash\n# run with cwd /repo\nexport MPLBACKEND=Agg "
                    "PYTHONDONTWRITEBYTECODE=1\n"
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(t + "/demo.sh", 0o755)
                json.dump({"property": s["property"], "needs": s["needs"],
                           "what_it_breaks": s["breaks"]},
                          open(t + "/meta.json", "w"), indent=1)
                print(s["id"], "written")
        finally:
            shutil.rmtree(d)


def env(r):
    e = dict(os.environ)
    e.update(PYTHONPATH=r + "/src", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e


def patched(i):
    d, r = scratch()
    p = sh(["git", "apply", f"{SEED}/{i}/patch.diff"], cwd=r)
    if p.returncode:
        print(i, "PATCH DOES NOT APPLY", p.stderr)
    return d, r


def demo(i):
    ok = True
    d, r = scratch()
    a = sh(["bash", f"{SEED}/{i}/demo.sh"], cwd=r, env=env(r))
    shutil.rmtree(d)
    d, r = patched(i)
    b = sh(["bash", f"{SEED}/{i}/demo.sh"], cwd=r, env=env(r))
    shutil.rmtree(d)
    if a.returncode != 0:
        print(i, "demo FAILS on the unchanged tree", a.stderr[-600:])
        ok = False
    if b.returncode == 0:
        print(i, "demo PASSES with the patch")
        ok = False
    print(i, "demo", a.returncode, b.returncode, b.stderr.strip().splitlines()[-1:])
    return ok


def tests(i):
    d, r = patched(i)
    try:
        x = f"{d}/o.xml"
        p = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--tb=line",
                "-n", os.environ.get("PLANT_N", "4"), "--timeout=400",
                "--deselect", "tests/test_notebooks.py::TestExamples::test_notebook"
                "[number_of_expansion_coefficients-sympy]"],
               cwd=r, env=env(r))
        return p.returncode == 0, p.stdout[-600:]
    finally:
        shutil.rmtree(d)


def detect(i, prop=None):
    d, r = patched(i)
    try:
        meta = json.load(open(f"{SEED}/{i}/meta.json"))
        prop = prop or meta["property"]
        e = dict(os.environ, RTSA_REPO=r, RTSA_EVIDENCE=d + "/ev")
        t = time.time()
        p = sh(["timeout", "900", "python3-vt", "-m", "rtsa", "check", prop], cwd=ROOT,
               env=e)
        out = [x for x in p.stdout.splitlines() if not x.startswith("    via")]
        print(f"{i} {prop} rc={p.returncode} {time.time() - t:.0f}s :: "
              + " | ".join(x.strip()[:160] for x in (out[:1] + out[-1:])))
        if p.returncode not in (0, 1):
            print(p.stderr[-500:])
        return p.returncode
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "add":
        add(args[0])
    else:
        ids = args or sorted(os.listdir(SEED))
        os.makedirs(RES, exist_ok=True)
        for i in ids:
            if cmd == "demo":
                demo(i)
            elif cmd == "detect":
                detect(i)
            elif cmd == "verify":
                f = f"{RES}/{i}"
                if os.path.exists(f):
                    continue
                a = demo(i)
                b, o = tests(i)
                print(i, "OK" if a and b else "BAD", "" if b else o, flush=True)
                open(f, "w").write(f"{a} {b}\n")
