"""Extract MIR facts of /repo's current working tree (cached by content hash)."""
import os, sys, subprocess, hashlib, glob, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(CACHE, "driver-target", "release", "mirfacts")

EXPECTED = [
    "common", "text_document", "text_document-bin", "text_document_direct_access",
    "text_document_editing", "text_document_formatting", "text_document_frontend",
    "text_document_inspection", "text_document_io", "text_document_search",
]


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS",
              "RUSTC", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _sysroot(env):
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, check=True,
                          capture_output=True, text=True).stdout.strip()


def build_driver():
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver-target")
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=DRIVER_DIR,
                       env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(DRIVER):
        raise FactsError("cannot build the MIR driver:\n" + r.stderr[-4000:])


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
        for f in fs:
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(DRIVER_DIR, "src", "main.rs"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def get_facts(verbose=True):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hsh = repo_hash()
        out = os.path.join(CACHE, "facts", hsh)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        drv_src = os.path.join(DRIVER_DIR, "src", "main.rs")
        if not os.path.exists(DRIVER) or os.path.getmtime(DRIVER) < os.path.getmtime(drv_src):
            build_driver()
        # keep at most a few old fact sets
        old = sorted(glob.glob(os.path.join(CACHE, "facts", "*")), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env = _env()
        tgt = os.path.join(CACHE, "target")
        env["CARGO_TARGET_DIR"] = tgt
        env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        env["MIRFACTS_OUT"] = out
        env["CARGO_INCREMENTAL"] = "0"
        env["LD_LIBRARY_PATH"] = os.path.join(_sysroot(env), "lib")
        # force every workspace crate through the wrapper (cargo freshness would skip it)
        for d in glob.glob(os.path.join(tgt, "**", ".fingerprint", "text-document*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        for d in glob.glob(os.path.join(tgt, "**", "build", "text-document*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        cmd = ["cargo", "+nightly", "check", "--offline", "--workspace", "--lib", "--bins"]
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise FactsError("cargo check failed:\n" + r.stderr[-6000:])
        missing = [c for c in EXPECTED if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            # stale freshness: wipe the target directory and retry once
            shutil.rmtree(tgt, ignore_errors=True)
            r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise FactsError("cargo check failed:\n" + r.stderr[-6000:])
            missing = [c for c in EXPECTED if not os.path.exists(os.path.join(out, c + ".json"))]
            if missing:
                raise FactsError("no facts for crates: %s" % missing)
        open(os.path.join(out, "OK"), "w").write("ok")
        return out


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        build_driver()
    print(get_facts())
