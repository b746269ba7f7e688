"""Builds the fact extractor and runs it over /repo's current working tree (no caching across trees: the
fact directory is keyed by the content of every source file that is analysed)."""
import os, sys, hashlib, subprocess, fcntl, shutil, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class ExtractError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, sub in ((REPO, ("oxyroot", "oxyroot_derive", "oxyroot-dump", "oxyroot-ls", "oxyroot-genstreamers",
                              "test_suite")), (VERIF, ("driver", "witness"))):
        for f in ("Cargo.toml", "Cargo.lock"):
            files.append(os.path.join(base, f))
        for s in sub:
            for root, dirs, names in os.walk(os.path.join(base, s)):
                dirs[:] = sorted(d for d in dirs if d not in ("target", "tests_data", "test_data", ".git"))
                for n in sorted(names):
                    if n.endswith((".rs", ".toml", ".txt", ".lock")):
                        files.append(os.path.join(root, n))
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def clean_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "MIRFACTS"))
         or k in ("CARGO_HOME",)}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    out = os.path.join(CACHE, "driver", "release", "mirfacts")
    rc, o = run(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path",
                 os.path.join(VERIF, "driver", "Cargo.toml"), "--target-dir", os.path.join(CACHE, "driver")],
                env=clean_env(), cwd=os.path.join(VERIF, "driver"))
    if rc != 0 or not os.path.exists(out):
        raise ExtractError("building the fact extractor failed:\n" + o[-3000:])
    return out


def canonical_paths(d):
    """other crates see oxyroot's items through its re-exports: rename them to the path of their definition"""
    import json, re
    with open(os.path.join(d, "oxyroot.json")) as f:
        own = f.read()
    adts = {re.sub(r"<.*", "", t["name"]) for t in json.loads(own)["types"] if t and t.get("k") == "adt"}
    full = {}
    for x in set(re.findall(r"oxyroot::(?:[a-z_0-9]+::)+[A-Z]\w*", own)):
        full.setdefault(x.rsplit("::", 1)[1], []).append(x)
    alias = {}
    for k, v in full.items():
        if len(v) > 1:
            v = [x for x in v if x not in adts]      # the traits of that name are the ones re-exported
        if len(v) == 1:
            alias[k] = v[0]
    for c in ("oxyroot_ls", "oxyroot_dump", "witness"):
        p = os.path.join(d, c + ".json")
        if os.path.exists(p):
            with open(p) as f:
                t = f.read()
            t = re.sub(r"(?<![\w:])oxyroot::([A-Z]\w*)", lambda m: alias.get(m[1], m[0]), t)
            with open(p, "w") as f:
                f.write(t)


def extract():
    """returns the directory holding the fact files for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        d = os.path.join(CACHE, "facts", h)
        if os.path.exists(os.path.join(d, "done")):
            return d
        drv = build_driver()
        # keep only one fact set
        for old in glob.glob(os.path.join(CACHE, "facts", "*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        rc, sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=clean_env())
        tgt = os.path.join(CACHE, "target")
        for f in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "oxyroot*")) + \
                glob.glob(os.path.join(tgt, "debug", ".fingerprint", "witness*")):
            shutil.rmtree(f, ignore_errors=True)
        for f in glob.glob(os.path.join(tgt, "debug", "build", "oxyroot*")) + \
                glob.glob(os.path.join(tgt, "debug", "build", "witness*")):
            shutil.rmtree(f, ignore_errors=True)
        env = clean_env()
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot.strip().splitlines()[-1], "lib"), MIRFACTS_OUT=d,
                   MIRFACTS_CRATES="oxyroot,oxyroot_ls,oxyroot_dump,witness", RUSTC_WRAPPER=drv,
                   RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings")
        rc, o = run(["cargo", "+nightly", "check", "--offline", "--target-dir", tgt,
                     "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                     "-p", "oxyroot", "-p", "oxyroot-ls", "-p", "oxyroot-dump", "--features", "oxyroot/derive"],
                    env=env, cwd=REPO)
        if rc != 0:
            raise ExtractError("compiling /repo under the fact extractor failed:\n" + o[-6000:])
        rc, o = run(["cargo", "+nightly", "check", "--offline", "--target-dir", tgt,
                     "--manifest-path", os.path.join(VERIF, "witness", "Cargo.toml")],
                    env=env, cwd=os.path.join(VERIF, "witness"))
        wfail = None
        if rc != 0:
            wfail = o[-6000:]
            with open(os.path.join(d, "witness.failed"), "w") as f:
                f.write(wfail)
        for c in ("oxyroot", "oxyroot_ls", "oxyroot_dump") + (() if wfail else ("witness",)):
            if not os.path.exists(os.path.join(d, c + ".json")):
                raise ExtractError("no facts were written for crate %s\n%s" % (c, o[-2000:]))
        canonical_paths(d)
        with open(os.path.join(d, "done"), "w") as f:
            f.write("ok\n")
        return d


if __name__ == "__main__":
    t = time.time()
    print(extract(), "%.1fs" % (time.time() - t))
