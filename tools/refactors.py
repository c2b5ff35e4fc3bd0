"""Robustness campaign: every check has to stay quiet on behaviour-preserving rewrites.

python3 tools/refactors.py [--tests] [name|check-id ...]      (never touches /repo)
With --tests the repository's own tests are run on every rewritten copy instead.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def ref(name, *edits):
    R.append((name, edits))


exec(open(os.path.join(ROOT, "tools", "refactors_list.py")).read())
TESTS = "--tests" in sys.argv


def prepare(edits):
    d = tempfile.mkdtemp(prefix="ref_")
    if TESTS:
        shutil.rmtree(d)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
    else:
        shutil.copytree("/repo/src", d + "/src")
    for file, old, new in edits:
        p = f"{d}/src/rt1_model/{file}"
        if old is None:             # a new file
            s = new
        elif isinstance(old, re.Pattern):
            s, n = old.subn(new, open(p).read())
            if n < 1:
                shutil.rmtree(d)
                return None, f"STALE {file}: {old.pattern[:80]!r}"
        else:
            s = open(p).read()
            if s.count(old) < 1:
                shutil.rmtree(d)
                return None, f"STALE {file}: {old[:80]!r}"
            s = s.replace(old, new, 1)
        compile(s, p, "exec")
        open(p, "w").write(s)
    return d, ""


def run(job):
    name, edits, check = job
    d, why = prepare(edits)
    if d is None:
        return name, check, -1, why
    try:
        if TESTS:
            r = subprocess.run(
                ["timeout", "1500", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x",
                 "-p", "no:cacheprovider", "tests"],
                cwd=d, env=dict(os.environ, PYTHONPATH=d + "/src", MPLBACKEND="Agg"),
                capture_output=True, text=True)
            return name, "tests", r.returncode, r.stdout[-300:]
        env = dict(os.environ, RTSA_REPO=d, RTSA_EVIDENCE=d + "/ev")
        r = subprocess.run(["timeout", "900", "python3-vt", "-m", "rtsa", "check", check],
                           cwd=ROOT, env=env, capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).splitlines()
               if not l.startswith("    via")]
        return name, check, r.returncode, "\n".join(out[:3])[:400]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "--tests"]
    sys.path.insert(0, ROOT)
    ids = subprocess.run(
        ["python3-vt", "-c", "from rtsa.checks import CHECKS; print(*CHECKS)"],
        cwd=ROOT, capture_output=True, text=True).stdout.split()
    checks = [a for a in args if a in ids] or ids
    names = [a for a in args if a not in ids]
    bad = [n for n in names if n not in [r[0] for r in R]]
    assert not bad, bad
    jobs = [(n, e, c) for n, e in R if not names or n in names
            for c in (["tests"] if TESTS else checks)]
    n_bad = 0
    with ThreadPoolExecutor(int(os.environ.get("MUT_N", 6))) as ex:
        for name, check, rc, text in ex.map(run, jobs):
            if rc != 0:
                n_bad += 1
                print("FAIL", name, check, f"rc={rc}", text.replace("\n", " | "),
                      flush=True)
            elif TESTS:
                print("ok", name, flush=True)
    print(f"{len(jobs)} runs, {n_bad} not quiet", flush=True)
