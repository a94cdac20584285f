"""Export the MIR of /repo's current library source (see driver/src/main.rs).

The tree is copied to a scratch directory (so nothing is written in /repo), the
driver is injected as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, and
the export is cached by the hash of the sources + driver, never by time.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k.startswith("RUSTC") or k == "RUSTFLAGS":
            del e[k]
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_HUSKY_DONT_INSTALL_HOOKS"] = "true"
    return e


def files(root):
    out = []
    for dp, dn, fn in os.walk(os.path.join(root, "src")):
        dn.sort()
        for f in sorted(fn):
            out.append(os.path.join(dp, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(root, f)
        if os.path.exists(p):
            out.append(p)
    return out


def specs():
    return sorted(glob.glob(os.path.join(VERIF, "spec", "*.rs")))


def home(f):
    """source file whose child module the reference must be, from its first line"""
    with open(f) as fh:
        m = re.match(r"//! in (src/\S+\.rs)", fh.readline())
    return m.group(1) if m else None


def tree_hash(root):
    h = hashlib.sha256()
    for f in files(root) + files(os.path.join(VERIF, "driver")) + specs():
        h.update(os.path.relpath(f, root).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("\n[dump] %s failed (%d)\n" % (what, p.returncode))
        sys.exit(3)
    return p.stdout


def driver():
    e = env()
    tgt = os.path.join(WORK, "driver-target")
    run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml"), "--target-dir", tgt], VERIF, e, "driver build")
    return os.path.join(tgt, "debug", "mirdump")


def sysroot(e):
    return subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def dump(repo=REPO):
    """-> path of the JSON export of the current tree"""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash(repo)
    out = os.path.join(WORK, "cache", h + ".json")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    drv = driver()
    e = env()
    scratch = tempfile.mkdtemp(prefix="finq_sa_")
    try:
        shutil.copytree(os.path.join(repo, "src"), os.path.join(scratch, "src"))
        for f in ("Cargo.toml", "Cargo.lock"):
            p = os.path.join(repo, f)
            if os.path.exists(p):
                shutil.copy(p, os.path.join(scratch, f))
            elif f == "Cargo.lock":
                shutil.copy(os.path.join(VERIF, "sa", "Cargo.lock.fallback"), os.path.join(scratch, f))
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(e), "lib")
        e["MIRDUMP_CRATE"] = "finquant"
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        e["MIRDUMP_OUT"] = tmp
        # cargo's freshness cache would skip the wrapper on a warm target dir
        for d in glob.glob(os.path.join(WORK, "target", "debug", ".fingerprint", "finquant-*")) + [os.path.join(WORK, "target", "debug", "build", "finquant")]:
            shutil.rmtree(d, ignore_errors=True)
        mods = {os.path.basename(f)[:-3]: f for f in specs()}
        lib = os.path.join(scratch, "src", "lib.rs")
        orig = open(lib).read()
        dropped = {}
        hosts = {}
        while True:
            # reference definitions are compiled as a module of the copy
            shutil.rmtree(os.path.join(scratch, "src", "verif_spec"), ignore_errors=True)
            text = orig
            inner = {m: t for m, t in ((m, home(f)) for m, f in mods.items()) if t}
            for t, o in hosts.items():
                with open(t, "w") as fh:
                    fh.write(o)
            hosts.clear()
            lost = []
            for m, t in inner.items():
                # references that need a module's private fields become its child
                t = os.path.join(scratch, t)
                if not os.path.exists(t):
                    lost.append(m)
                    continue
                hosts.setdefault(t, open(t).read())
                shutil.copy(mods[m], os.path.join(scratch, "src", "verif_in_%s.rs" % m))
                with open(t, "a") as fh:
                    fh.write('\n#[allow(warnings)]\n#[path = "%s/src/verif_in_%s.rs"]\npub mod verif_%s;\n' % (scratch, m, m))
            for m in lost:
                dropped[m] = "host module of the reference is gone"
                del mods[m]
            outer = [m for m in mods if m not in inner]
            if outer:
                os.mkdir(os.path.join(scratch, "src", "verif_spec"))
                for m in outer:
                    f = mods[m]
                    shutil.copy(f, os.path.join(scratch, "src", "verif_spec", m + ".rs"))
                text += "\n#[allow(warnings)]\npub mod verif_spec {\n" + "".join("pub mod %s;\n" % m for m in sorted(outer)) + "}\n"
            with open(lib, "w") as fh:
                fh.write(text)
            cmd = ["cargo", "check", "--offline", "--lib", "--target-dir", os.path.join(WORK, "target")]
            pr = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if pr.returncode == 0:
                break
            bad = set(re.findall(r"src/verif_(?:spec/|in_)(\w+)\.rs", pr.stdout)) & set(mods)
            if not bad:
                if mods:
                    bad = set(mods)
                else:
                    sys.stderr.write(pr.stdout[-6000:])
                    sys.stderr.write("\n[dump] the tree under analysis does not compile\n")
                    sys.exit(3)
            for m in bad:
                dropped[m] = "\n".join(l for l in pr.stdout.splitlines() if l.startswith("error"))[:2000]
                del mods[m]
            if os.environ.get("VERIF_DEBUG"):
                sys.stderr.write(pr.stdout[-5000:])
        if not os.path.exists(tmp):
            sys.stderr.write("[dump] no export produced\n")
            sys.exit(3)
        with open(out + ".meta", "w") as fh:
            json.dump({"specs": sorted(mods), "dropped": dropped}, fh)
        os.rename(tmp, out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # keep the cache small
    c = os.path.dirname(out)
    old = sorted((os.path.join(c, f) for f in os.listdir(c) if f.endswith(".json")), key=os.path.getmtime)[:-12]
    for f in old:
        os.unlink(f)
        if os.path.exists(f + ".meta"):
            os.unlink(f + ".meta")
    return out


if __name__ == "__main__":
    print(dump(*(sys.argv[1:2])))
