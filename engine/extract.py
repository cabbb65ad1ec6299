"""Builds the MIR driver when needed and dumps the MIR of /repo's current working tree. Runs nothing of luafmt."""
import hashlib, json, os, shutil, subprocess, sys, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUAFMT_REPO", "/repo")
CACHE = os.environ.get("LUAFMT_CACHE", os.path.join(VERIF, "cache"))

class ExtractError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None); e.pop("RUSTC_WRAPPER", None); e.pop("RUSTC", None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.setdefault("HOME", "/root")
    return e

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-8000:]))
    return r.stdout

def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()

def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")], env=e,
        cwd=os.path.join(VERIF, "driver"))
    return os.path.join(CACHE, "driver", "debug", "mirdump")

def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".lalrpop", ".toml")) or f in ("Cargo.lock", "rust-toolchain"):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                if rel.startswith("src") and rel.endswith("_syntax.rs") and os.path.exists(p[:-3] + ".lalrpop"):
                    continue  # generated
                out.append(p)
    return out

def tree_hash():
    h = hashlib.sha256()
    for p in source_files() + sorted(glob.glob(os.path.join(VERIF, "driver", "src", "*.rs"))) + [os.path.abspath(__file__)]:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def extract(verbose=False):
    """Returns the directory holding luafmt-lib.json, luafmt-bin.json and the generated parsers."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = tree_hash()
        out = os.path.join(CACHE, "dump")
        stamp = os.path.join(out, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return out
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        drv = build_driver()
        tgt = os.path.join(CACHE, "target")
        # cargo goes by mtimes and lalrpop by a hash of the grammar: forget the package itself and its generated files
        for fp in glob.glob(os.path.join(tgt, "*", ".fingerprint", "luafmt-*")) + \
                  glob.glob(os.path.join(tgt, "*", "build", "luafmt")) + glob.glob(os.path.join(tgt, "*", "build", "luafmt-*")):
            shutil.rmtree(fp)
        lock_made = False
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        saved = {}
        for g in glob.glob(os.path.join(REPO, "src", "**", "*.lalrpop"), recursive=True):
            gen = g[:-8] + ".rs"
            if os.path.exists(gen):
                os.remove(gen)
        e = env()
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_OUT"] = out
        sr = sysroot()
        e["LD_LIBRARY_PATH"] = sr + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        o = run(["cargo", "check", "--offline", "--lib", "--bins"], env=e, cwd=REPO)
        if verbose:
            print(o)
        for n in ("luafmt-lib.json", "luafmt-bin.json"):
            if not os.path.exists(os.path.join(out, n)):
                raise ExtractError("driver produced no " + n + "\n" + o[-4000:])
        for g in glob.glob(os.path.join(REPO, "src", "**", "*.lalrpop"), recursive=True):
            gen = g[:-8] + ".rs"
            if not os.path.exists(gen):
                raise ExtractError("no generated parser for " + g)
            shutil.copy(gen, os.path.join(out, os.path.basename(gen)))
        with open(stamp, "w") as f:
            f.write(key)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

if __name__ == "__main__":
    print(extract(verbose=True))
