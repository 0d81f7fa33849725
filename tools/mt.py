#!/usr/bin/env python3
"""Scratch-copy experiments: apply an edit to a copy of /repo and run checks on it.
usage: mt.py FILE.py [name-substring] [-jN]
FILE.py defines M = [(name, [(file, old, new)...], {"C03": 1, ...})]: 1 = must fire, 0 = must stay quiet."""
import os, sys, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
J = next((int(a[2:]) for a in sys.argv if a.startswith("-j")), 4)
args = [a for a in sys.argv[1:] if not a.startswith("-j")]
ns = {}
exec(open(args[0]).read(), ns)
sub = args[1] if len(args) > 1 else ""
todo = [m for m in ns["M"] if sub in m[0]]
J = min(J, len(todo) or 1)
free = queue.Queue()
for i in range(J):
    S = "/tmp/mt%d" % i
    R = S + "/repo"
    os.makedirs(R, exist_ok=True)
    if os.path.isdir(R + "/crates"):
        tmp = S + "/new"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree("/repo", tmp, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
        for d, _, fs in os.walk(tmp):
            for f in fs:
                a = os.path.join(d, f)
                b = os.path.join(R, os.path.relpath(a, tmp))
                if not os.path.exists(b) or open(a, "rb").read() != open(b, "rb").read():
                    os.makedirs(os.path.dirname(b), exist_ok=True)
                    shutil.copy(a, b)
        shutil.rmtree(tmp)
    else:
        shutil.rmtree(R)
        shutil.copytree("/repo", R, ignore=shutil.ignore_patterns("target"), symlinks=True)
    free.put(S)


def one(m):
    name, edits, exp = m
    S = free.get()
    R = S + "/repo"
    env = dict(os.environ, VERIF_REPO=R, VERIF_CACHE=S + "/cache")
    orig, out, bad, ok = {}, [], 0, True
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            t = open(p).read()
            orig.setdefault(p, t)
            if old not in t:
                out.append("!! %s: text not found in %s: %s" % (name, f, old[:60].strip())); ok = False; bad += 1; continue
            open(p, "w").write(t.replace(old, new, 1))
        if ok:
            for prop, want in exp.items():
                r = subprocess.run([sys.executable, "/verif/sa/check.py", prop], env=env, capture_output=True, text=True)
                got = r.returncode
                good = (got == 1) == bool(want) and got in (0, 1)
                bad += not good
                v = [l for l in r.stdout.splitlines() if l.startswith("  [")]
                if got not in (0, 1):
                    L = (r.stdout + r.stderr).splitlines()
                    e = [i for i, l in enumerate(L) if l.startswith("error")]
                    out.append("BAD  %s exit %d: %s" % (name, got, " | ".join(L[e[0]:e[0] + 6]) if e else L[-3:]))
                    bad += 0 if good else 0
                    break
                out.append("%s %-26s %s exit %d %s" % ("ok  " if good else "BAD ", name, prop, got, (v[0][:300] if v else (r.stdout + r.stderr)[-400:].strip().replace("\n", " | ") if got not in (0, 1) else "")))
    finally:
        for p, t in orig.items():
            open(p, "w").write(t)
        free.put(S)
    print("\n".join(out)); sys.stdout.flush()
    return bad


with ThreadPoolExecutor(J) as ex:
    print("bad:", sum(ex.map(one, todo)))
