"""Sensitivity tests of the checks: small source edits with the expected verdict.

python3 tools/mutants.py [property ...]       (never touches /repo)
Each entry: (properties, expected, file, old, new); expected 1 = violation, 0 = quiet.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/rt1_model/"
M = []


def mut(props, expected, file, *pairs):
    M.append((props.split(), expected, file, pairs))


exec(open(os.path.join(ROOT, "tools", "mutants_list.py")).read())


def run(job):
    k, prop, exp, file, pairs = job
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", d + "/src")
        p = f"{d}/src/rt1_model/{file}"
        s = open(p).read()
        for old, new in pairs:
            if old not in s:
                return k, prop, exp, "STALE", old
            s = s.replace(old, new, 1)
        compile(s, p, "exec")
        open(p, "w").write(s)
        env = dict(os.environ, RTSA_REPO=d, RTSA_EVIDENCE=d + "/ev")
        r = subprocess.run(["timeout", "900", "python3-vt", "-m", "rtsa", "check", prop],
                           cwd=ROOT, env=env, capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).splitlines()
               if not l.startswith("    via")]
        return k, prop, exp, r.returncode, "\n".join(out[:2])[:300]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    want = sys.argv[1:]
    jobs = [(k, p, e, f, pr) for k, (ps, e, f, pr) in enumerate(M) for p in ps
            if not want or p in want or str(k) in want]
    with ThreadPoolExecutor(int(os.environ.get("MUT_N", 6))) as ex:
        for k, prop, exp, rc, text in ex.map(run, jobs):
            ok = rc == exp
            print("ok  " if ok else "FAIL", k, prop, f"expected {exp} got {rc}",
                  "" if ok and exp == 1 else "", text.replace("\n", " | ")[:260 if not ok
                                                                            else 120],
                  flush=True)
