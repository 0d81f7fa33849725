#!/usr/bin/env python3
"""Confirm planted changes in a scratch copy and write them to /verif/seeded/<id>/.
usage: seed.py FILE.py [id-substring] [--force]
FILE.py: S = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, main=RUST, deps=[...])]"""
import os, sys, subprocess, json, shutil, re
S = "/tmp/s"; R = S + "/repo"; T = S + "/target"
OUT = "/verif/seeded"
DEPS = {"text-document": "public_api", "common": "common:text-document-common", "frontend": "frontend:text-document-frontend",
        "direct_access": "direct_access:text-document-direct-access", "test_harness": "test_harness:text-document-test-harness",
        "document_editing": "document_editing:text-document-editing", "document_formatting": "document_formatting:text-document-formatting",
        "document_io": "document_io:text-document-io", "document_search": "document_search:text-document-search",
        "document_inspection": "document_inspection:text-document-inspection", "text-document-cli": "cli"}
DEMO = '''#!/bin/bash
# Builds the small program beside this script against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/tmp"
cp "$here/main.rs" "$work/src/main.rs"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
export TMPDIR="$work/tmp" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" CARGO_PROFILE_DEV_DEBUG=0
cd "$work" && timeout 280 cargo run --offline -q
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def sync():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        subprocess.run(["cp", "-a", "/repo", R], check=True)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R))
def tests():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", PROPTEST_RNG_SEED="20261112",
               PROPTEST_MAX_SHRINK_TIME="15000", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1", INSTA_UPDATE="no", CARGO_TERM_COLOR="never")
    env.pop("CARGO_TARGET_DIR", None)
    r = sh("cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 -E 'not binary(/^perf_/)' 2>&1", cwd=R, env=env)
    fails = sorted(set(re.findall(r"^\s+(?:FAIL|TIMEOUT|SIGABRT).*?\)\s+(.*)$", r.stdout, re.M)))
    return r.returncode, fails, r.stdout[-1500:]
def demo(d):
    env = dict(os.environ, DEMO_TARGET=T)
    env.pop("CARGO_TARGET_DIR", None)
    return sh("bash %s/demo.sh" % d, cwd=R, env=env)
ns = {}
exec(open(sys.argv[1]).read(), ns)
args = [a for a in sys.argv[2:] if not a.startswith("--")]
sub = args[0] if args else ""
for s in ns["S"]:
    if sub not in s["id"]:
        continue
    if os.path.isdir(OUT + "/" + s["id"]) and "--force" not in sys.argv:
        continue
    sync()
    D = S + "/d"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    deps = s.get("deps", ["text-document"])
    toml = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\nanyhow = "1"\n'
    for d in deps:
        p = DEPS[d].split(":")
        toml += '%s = { path = "@REPO@/crates/%s"%s }\n' % (d, p[0], ', package = "%s"' % p[1] if len(p) > 1 else "")
    open(D + "/Cargo.toml.in", "w").write(toml)
    open(D + "/main.rs", "w").write(s["main"].lstrip("\n"))
    open(D + "/demo.sh", "w").write(DEMO)
    os.chmod(D + "/demo.sh", 0o755)
    r = demo(D)
    if r.returncode != 0:
        print("!! %s: demo fails on the unchanged tree\n%s" % (s["id"], (r.stdout + r.stderr)[-2500:])); continue
    bad = False
    for f, old, new in s["edits"]:
        p = R + "/" + f; t = open(p).read()
        if t.count(old) < 1:
            print("!! %s: text not found in %s" % (s["id"], f)); bad = True; break
        if t.count(old) > 1 and not s.get("first"):
            print("!! %s: text found %d times in %s" % (s["id"], t.count(old), f)); bad = True; break
        open(p, "w").write(t.replace(old, new, 1))
    if bad: continue
    diff = sh("git -C %s diff" % R).stdout
    r = demo(D)
    if r.returncode == 0:
        print("!! %s: demo passes with the change" % s["id"]); continue
    if "error: could not compile" in r.stderr or "error[E" in r.stderr:
        print("!! %s: does not compile\n%s" % (s["id"], r.stderr[-2500:])); continue
    why = (r.stderr or r.stdout).strip().splitlines()[:3]
    rc, fails, tail = tests()
    if rc != 0:
        print("!! %s: tests fail (%d): %s\n%s" % (s["id"], rc, fails[:5], "" if fails else tail)); continue
    od = OUT + "/" + s["id"]; shutil.rmtree(od, ignore_errors=True); shutil.copytree(D, od)
    open(od + "/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(od + "/meta.json", "w"), indent=1)
    env = dict(os.environ, VERIF_REPO=R, VERIF_CACHE="/tmp/mt/cache")
    c = subprocess.run([sys.executable, "/verif/sa/check.py", s["prop"]], env=env, capture_output=True, text=True)
    v = [l for l in c.stdout.splitlines() if l.startswith("  [")]
    print("%s %s (%s) exit %d %s | demo: %s" % ("CAUGHT" if c.returncode == 1 else "missed", s["id"], s["prop"], c.returncode, v[0][:200] if v else c.stdout[-200:], " / ".join(why)[:250]))
    sys.stdout.flush()
sync()
