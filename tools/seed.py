#!/usr/bin/env python3
"""seed.py new ID PROP FILE NEEDS BREAKS  (old/new text from OLD and NEW files, demo from DEMO) - developer tool
   seed.py try ID...   apply in /repo, build, tests, demo, check, undo"""
import json, os, subprocess, sys, tempfile
S = "/verif/seeded"
DEMO = '''#!/bin/bash
# builds main.rs against the library in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_HUSKY_DONT_INSTALL_HOOKS=true RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
finquant = { path = "$repo" }
chrono = { version = "0.4.41", features = ["serde"] }
iso_currency = { version = "0.5.3", features = ["with-serde"] }
num-complex = "0.4"
rand = "0.9"
serde_json = "1"
TOML
cd "$work"
cargo build --offline --quiet --target-dir "$work/target" 2> build.log || { cat build.log >&2; exit 3; }
timeout 200 ./target/debug/demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def new(spec):
    """spec: dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)"""
    d = os.path.join(S, spec["id"])
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "dirty repo"
    try:
        for f, a, b in spec["edits"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(a) == 1, (spec["id"], f, s.count(a))
            open(p, "w").write(s.replace(a, b))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    open(os.path.join(d, "main.rs"), "w").write(spec["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def trial(i, tests=True):
    d = os.path.join(S, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    res = {}
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    res["clean_demo"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    assert a.returncode == 0, a.stdout
    try:
        if tests:
            b = sh("bash /opt/vp/build.sh")
            res["build"] = b.returncode
            o = tempfile.mktemp(suffix=".json")
            sh("bash /opt/vp/test.sh " + o)
            t = json.load(open(o))
            base = json.load(open("/opt/vp/BASELINE.json"))
            ok = set(t.get("passed", []))
            want = base.get("stable", base.get("passed", base if isinstance(base, list) else []))
            res["broken_tests"] = [x for x in want if x not in ok][:5]
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        res["patched_demo"] = r.returncode
        r = sh("python3 sa/check.py %s" % prop, cwd="/verif")
        res["check"] = r.returncode
        res["alarm"] = [l[:300] for l in r.stdout.splitlines() if not l.startswith(prop)][:6]
    finally:
        sh("git -C /repo checkout -- .")
    good = res["clean_demo"] == 0 and not res.get("broken_tests") and res["patched_demo"] not in (0, 3) and res.get("build", 0) == 0
    print(i, prop, "VALID" if good else "INVALID", "CAUGHT" if res["check"] == 1 else "MISSED", json.dumps(res)[:900], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "try":
        for i in sys.argv[2:]:
            trial(i)
    elif sys.argv[1] == "new":
        g = {}
        exec(open(sys.argv[2]).read(), g)
        for s in g["SEEDS"]:
            new(s)
