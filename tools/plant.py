#!/usr/bin/env python3
"""plant.py NAME...: builds /verif/seeded/NAME from tools/bugs/NAME.py and confirms it in a scratch copy:
the patch applies, the repository builds, its stable tests pass, the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, importlib.util
ROOT = "/verif"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
GENERIC = '''#!/bin/bash
# Exit 0: the behaviour is right.  Runs in /repo after the build; everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.91.1 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo" || exit 3
sed -i "s|@REPO@|$PWD|g" "$tmp/demo/Cargo.toml" "$tmp/demo/src/"*.rs
export CARGO_TARGET_DIR="$tmp/target"
cd "$tmp/demo" || exit 3
cargo build --offline 2> "$tmp/log" || { tail -40 "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''
def load(n):
    s = importlib.util.spec_from_file_location(n, f"{ROOT}/tools/bugs/{n}.py")
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
def main():
    for n in [a for a in sys.argv[1:] if not a.startswith("-")]:
        b = load(n)
        d = f"{ROOT}/seeded/{n}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        try:
            for f, old, new in b.EDITS:
                p = f"/repo/{f}"; s = open(p).read()
                assert s.count(old) == 1, (f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
        finally:
            sh("git -C /repo checkout -- .")
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": b.PROPERTY, "needs": b.NEEDS, "what_it_breaks": b.BREAKS}, open(f"{d}/meta.json", "w"), indent=1)
        open(f"{d}/demo.sh", "w").write(getattr(b, "DEMO_SH", GENERIC)); os.chmod(f"{d}/demo.sh", 0o755)
        os.makedirs(f"{d}/demo/src")
        open(f"{d}/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n' + b.DEPS)
        open(f"{d}/demo/src/main.rs", "w").write(b.MAIN)
        for k, v in getattr(b, "FILES", {}).items():
            os.makedirs(os.path.dirname(f"{d}/demo/{k}"), exist_ok=True)
            open(f"{d}/demo/{k}", "w").write(v)
        # lock file
        t = "/tmp/plantlock"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(f"{d}/demo", t)
        sh(f"sed -i 's|@REPO@|/repo|g' {t}/Cargo.toml {t}/src/*.rs")
        shutil.copy("/opt/vp/ws/Cargo.lock", f"{t}/Cargo.lock")
        r = sh("cargo metadata --offline --format-version 1 >/dev/null", cwd=t, env={**os.environ, "RUSTUP_TOOLCHAIN": "1.91.1"})
        if r.returncode: print(n, "LOCK FAILED", r.stderr[-800:]); continue
        shutil.copy(f"{t}/Cargo.lock", f"{d}/demo/Cargo.lock"); shutil.rmtree(t)
        r = sh(f"{d}/demo.sh", cwd="/repo")
        ok0 = r.returncode
        if ok0: print(n, "demo on clean tree:", ok0, r.stdout[-1500:], r.stderr[-500:]); continue
        res = {}
        try:
            a = sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
            r1 = sh(f"{d}/demo.sh", cwd="/repo")
            if "--notest" not in sys.argv:
                bld = sh("bash /opt/vp/build.sh"); tst = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
                out = json.load(open("/tmp/plant_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
                res["build"] = bld.returncode
                passed = set(out.get("passed", out.get("pass", [])))
                stable = base.get("stable") or base.get("passed") or base.get("pass")
                res["missing"] = [x for x in stable if x not in passed][:5]
        finally:
            sh("git -C /repo checkout -- .")
        print(n, "clean", ok0, "patched", r1.returncode, r1.stdout[-200:].strip().replace("\n", " | "), res, "OK" if r1.returncode not in (0, 3) and not res.get("build") and not res.get("missing") else "BAD")
main()
