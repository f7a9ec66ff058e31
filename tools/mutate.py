#!/usr/bin/env python3
"""Runs the checks on edited scratch copies of /repo.
usage: mutate.py FILE [name-prefix]   FILE defines CASES = [(name, ids, [(file, old, new)...], expect)]
expect: 'bad' (some id must report) or 'ok' (every id must stay quiet)."""
import sys, os, subprocess, shutil, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
cases = runpy.run_path(sys.argv[1])["CASES"]
pre = sys.argv[2] if len(sys.argv) > 2 else ""
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")
def one(c):
    name, ids, edits, expect = c
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        r = os.path.join(d, "repo"); shutil.copytree("/repo", r, symlinks=True)
        os.mkdir(os.path.join(d, "v"))
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) < 1: return name, f"EDIT-FAILED {f}: {old[:50]!r} x{s.count(old)}", ""
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return name, "BUILD-FAILED", b.stderr[:600]
        res, out = [], ""
        for i in ids:
            x = subprocess.run([os.environ.get("SA","/verif/.build/sa"), "check", "-repo", r, "-verif", os.path.join(d, "v"), i], env=env, capture_output=True, text=True)
            if i == "all":
                bad = [l.split("property=")[1].split()[0] for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append("bad:" + ",".join(bad) if bad else "ok")
            else:
                res.append(i + ("=bad" if x.returncode == 1 else "=ok" if x.returncode == 0 else f"=rc{x.returncode}"))
            out += "\n".join("      " + l[:260] for l in x.stdout.splitlines() if not l.startswith(("OK", "VIOLATION"))) + "\n"
        if expect == "any": return name, "pass " + " ".join(res), ""
        isbad = any("bad" in q for q in res)
        good = isbad if expect == "bad" else not isbad
        return name, ("pass " if good else "***MISS " if expect == "bad" else "***FALSE-ALARM ") + " ".join(res), out
    finally:
        shutil.rmtree(d, ignore_errors=True)
sel = [c for c in cases if c[0].startswith(pre)]
n = 0
with ThreadPoolExecutor(4) as ex:
    for name, r, out in ex.map(one, sel):
        print(f"{name:30s} {r}")
        if not r.startswith("pass"):
            n += 1
            print(out[:1500])
        elif os.environ.get("V"): print(out[:700])
print(n, "unexpected of", len(sel))
