"""Produces the MIR dump of /repo's current working tree.

The analysed program is always what the compiler makes of the current source:
the dump is keyed by a hash over every file of the working tree (except build
output) plus this directory's driver, and made again whenever that changes."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LINT_REPO", "/repo")
CACHE = os.environ.get("LINT_CACHE", os.path.join(VERIF, ".cache"))
FEATURES = "ipadic,ipadic-neologd,unidic,ko-dic,cc-cedict,filter"
CONFIGS = {
    "default": FEATURES,
    "compress": FEATURES + ",compress",
    # subsets in which every two dictionaries differ, for what depends on the features (C09)
    "some1": "ipadic,unidic,cc-cedict",
    "some2": "ipadic-neologd,unidic",
    "some3": "ko-dic,cc-cedict",
}


def base_env():
    env = dict(os.environ)
    env["HOME"] = env.get("HOME", "/root")
    if "/root/.cargo/bin" not in env.get("PATH", ""):
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["DOCS_RS"] = "1"
    return env


def tree_hash():
    h = hashlib.sha256()
    skip = {".git", "target", "node_modules", "__pycache__"}
    for base in (REPO, os.path.join(VERIF, "mirdump", "src")):
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in skip)
            for f in sorted(files):
                p = os.path.join(root, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=base_env(), text=True).strip()


def build_driver():
    env = base_env()
    tgt = os.path.join(CACHE, "mirdump")
    env["CARGO_TARGET_DIR"] = tgt
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "mirdump"),
                       env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("driver build failed:\n" + r.stderr[-4000:])
    return os.path.join(tgt, "debug", "mirdump")


def run_config(name, driver, out):
    env = base_env()
    tgt = os.path.join(CACHE, "tgt")
    env["CARGO_TARGET_DIR"] = tgt
    env["RUSTC_WORKSPACE_WRAPPER"] = driver
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    env["MIRDUMP_OUT"] = out
    # force every workspace crate to be compiled again by the driver
    for sub in ("build", ".fingerprint"):
        fp = os.path.join(tgt, "debug", sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("lindera"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    what = ["-p", "lindera-dictionary", "--lib"] if name.startswith("some") else ["--workspace", "--lib", "--bins"]
    cmd = ["cargo", "+nightly", "check", "--offline"] + what + ["--features", CONFIGS[name]]
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    return r


class BuildFailed(Exception):
    pass


def ensure(configs=("default", "compress")):
    """Returns {config: directory of dumps} for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        res, driver = {}, None
        for c in configs:
            d = os.path.join(CACHE, "dumps", c)
            stamp = os.path.join(d, "DONE")
            if not (os.path.exists(stamp) and open(stamp).read() == h):
                driver = driver or build_driver()
                r = run_config(c, driver, d)
                if r.returncode != 0:
                    raise BuildFailed("config %s: %s" % (c, r.stderr[-6000:]))
                with open(stamp, "w") as f:
                    f.write(h)
            res[c] = d
        return res


if __name__ == "__main__":
    t = time.time()
    print(ensure(tuple(CONFIGS)), "%.1fs" % (time.time() - t))
