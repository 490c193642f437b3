"""Author-side helper: creates and confirms the planted bugs under /verif/seeded.

    python3 seedlib.py confirm ID...   apply the patch in a scratch copy of /repo; the
                                       crate's tests must pass, demo.sh must fail there and
                                       pass on the unchanged tree
No check uses this file.
"""
import json, os, shutil, subprocess, sys, tempfile

SEEDED = "/verif/seeded"

DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0: behaviour as promised, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
thingbuf = { path = "$repo", features = ["static"] }
[profile.release]
debug-assertions = %(da)s
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS=-Awarnings
cd "$w" || exit 2
%(run)s
'''
RUN = '''cargo build -q --release --offline || exit 3
timeout 120 "$w/target/release/demo"
'''
MIRI = '''export MIRIFLAGS="-Zmiri-disable-isolation %s"
timeout 280 cargo +nightly miri run -q --offline
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(id, prop, needs, breaks, edits, demo, da="false", miri=None):
    d = f"{SEEDED}/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        sh(f"git -C /repo worktree prune; cp -a /repo/src /repo/.git {t}/ && cd {t} && git reset -q --hard")
        for f, o, n, *k in edits:
            p = f"{t}/{f}"
            s = open(p).read()
            i = -1
            for _ in range(k[0] if k else 1):
                i = s.find(o, i + 1)
                assert i >= 0, (id, f, o)
            open(p, "w").write(s[:i] + n + s[i + len(o):])
        diff = subprocess.run(["git", "-C", t, "diff"], text=True, stdout=subprocess.PIPE).stdout
        assert diff
        open(f"{d}/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    open(f"{d}/demo.rs", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(DEMO % dict(da=da, run=RUN if miri is None else MIRI % miri))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)


def confirm(id):
    d = f"{SEEDED}/{id}"
    t = "/tmp/seedconf"
    shutil.rmtree(t, ignore_errors=True)
    sh(f"mkdir -p {t}/r && cd /repo && git archive HEAD | tar x -C {t}/r && cp /opt/vp/ws/Cargo.lock {t}/r/")
    sh(f"cd {t}/r && sed -i '/^loom *=/d' Cargo.toml")
    r0 = sh(f"cd {t}/r && bash {d}/demo.sh")
    a = sh(f"cd {t}/r && git init -q . ; git apply {d}/patch.diff")
    r1 = sh(f"cd {t}/r && bash {d}/demo.sh")
    tt = sh(f"cd {t}/r && CARGO_TARGET_DIR=/tmp/mut/tt2 timeout 300 cargo test --all-features --offline --no-fail-fast 2>&1 | grep -E '^test .* (ok|FAILED)|^error'")
    ok = tt.stdout.count("... ok")
    secs = lambda r: [l for l in r.stdout.splitlines() if l.startswith("real")]
    print(id, "OK" if r0.returncode == 0 and a.returncode == 0 and r1.returncode != 0 and ok >= 91 else "BAD",
          "clean", r0.returncode, secs(r0), "| apply", a.returncode, "| patched", r1.returncode, secs(r1), "| tests", ok)
    if r0.returncode:
        print(r0.stdout[-1500:])
    print("   patched says:", [l for l in r1.stdout.splitlines() if l.strip() and not l.startswith(("real", "user", "sys"))][-3:])
    if ok < 91:
        print([l for l in tt.stdout.splitlines() if "FAILED" in l or "error" in l][:6])
    shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        confirm(i)
