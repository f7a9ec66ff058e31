#!/usr/bin/env python3
"""mutrun.py LISTFILE START COUNT: mutants (mutgen numbers, seeded shuffle) that
build and pass the tests are given to every check; prints what each reports."""
import sys, os, subprocess, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
lst = [l.rstrip("\n") for l in open(sys.argv[1])]
random.Random(7).shuffle(lst)
sel = lst[int(sys.argv[2]):int(sys.argv[2]) + int(sys.argv[3])]
SA = os.environ.get("SA", "/verif/.build/sa")
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")
def one(l):
    n = l.split()[0]
    d = tempfile.mkdtemp(prefix="mg-")
    try:
        r = os.path.join(d, "repo"); shutil.copytree("/repo", r, symlinks=True); os.mkdir(d + "/v")
        shutil.copy("/verif/known_findings.txt", d + "/v")
        subprocess.run(["/tmp/mutgen", r, n], check=True)
        if subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True).returncode: return l, "nobuild"
        try:
            t = subprocess.run(["go", "test", "-vet=off", "-timeout", "120s", "./..."], cwd=r, env=env, capture_output=True, timeout=300)
            if t.returncode: return l, "killed"
        except subprocess.TimeoutExpired: return l, "killed"
        x = subprocess.run([SA, "check", "-repo", r, "-verif", d + "/v", "all"], env=env, capture_output=True, text=True, timeout=1500)
        bad = [k.split("property=")[1].split()[0] for k in x.stdout.splitlines() if k.startswith("VIOLATION")]
        return l, "CAUGHT " + ",".join(bad) if bad else "SURVIVES"
    except Exception as e: return l, "error %r" % e
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for l, r in ex.map(one, sel): print(f"{r:20s} {l}", flush=True)
