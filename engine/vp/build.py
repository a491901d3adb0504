"""Fact extraction: copies /repo's current tree, compiles it with the dumping driver, caches by content."""
import hashlib, json, os, shutil, subprocess, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
TOOL = "nightly"
LOCKFILES = ["/opt/vp/Cargo.lock"]


class BuildError(Exception):
    pass


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def source_files(root=None):
    root = root or REPO
    out = []
    for base in ("crates",):
        for d, ds, fs in os.walk(os.path.join(root, base)):
            ds[:] = [x for x in ds if x not in ("target", "node_modules", ".git")]
            for f in fs:
                out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(root, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def tree_hash(files, root, extra=()):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, root).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:20]


def driver_dir():
    return os.path.join(VERIF, "engine", "driver")


def driver_hash():
    d = driver_dir()
    fs = [os.path.join(d, "Cargo.toml")] + [os.path.join(d, "src", x) for x in sorted(os.listdir(os.path.join(d, "src")))]
    return tree_hash(fs, d)


def sysroot():
    r = subprocess.run(["rustc", "+" + TOOL, "--print", "sysroot"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


def ensure_driver():
    dh = driver_hash()
    out = os.path.join(CACHE, "driver-" + dh)
    exe = os.path.join(out, "debug", "vpdriver")
    if not os.path.exists(exe):
        env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_TARGET_DIR=out, CARGO_NET_OFFLINE="true")
        env.pop("RUSTC_WORKSPACE_WRAPPER", None)
        r = sh(["cargo", "build", "--offline", "--quiet"], cwd=driver_dir(), env=env)
        if r.returncode:
            raise BuildError("driver does not build:\n" + r.stdout[-3000:])
    return exe


WITNESS = (os.path.join("crates", "vertigo", "examples", "vp_witness.rs"), os.path.join(VERIF, "engine", "witness", "vp_witness.rs"))


def sync(dst):
    """mirror of the sources under analysis; only changed files are rewritten so cargo rebuilds what changed"""
    want = {}
    for d in ("crates", "demo", "examples", "tests", "lint-project"):
        for dd, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = [x for x in ds if x not in ("target", "node_modules", ".git")]
            for f in fs:
                p = os.path.join(dd, f)
                want[os.path.relpath(p, REPO)] = p
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            want[f] = p
    want[WITNESS[0]] = WITNESS[1]
    os.makedirs(dst, exist_ok=True)
    for d, ds, fs in os.walk(dst, topdown=False):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, dst)
            if rel not in want and rel != "Cargo.lock" and not rel.startswith("target"):
                os.remove(p)
    n = 0
    for rel, p in want.items():
        if os.path.islink(p) and not os.path.exists(p):
            continue
        q = os.path.join(dst, rel)
        data = open(p, "rb").read()
        if os.path.exists(q) and open(q, "rb").read() == data:
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as fh:
            fh.write(data)
        n += 1
    lk = os.path.join(dst, "Cargo.lock")
    if not os.path.exists(lk):
        for c in [os.path.join(REPO, "Cargo.lock")] + LOCKFILES:
            if os.path.exists(c):
                shutil.copyfile(c, lk)
                break
    return n


UNITS = {
    # unit -> (cargo packages, crate names to dump, extra env)
    "vertigo": (["vertigo"], "vertigo", {}),
    "vertigo_cli": (["vertigo-cli"], "vertigo_cli", {}),
    "vertigo_wasm": (["vertigo"], "vertigo", {"VP_WASM_CFG": "1", "VP_SUFFIX": "_wasm"}),
    "vertigo_macro": (["vertigo-macro"], "vertigo_macro", {"VP_RELEASE": "1"}),       # with debug assertions off, as the release build it is made for
    "vp_witness": (["vertigo"], "vertigo__vp_witness", {}),       # uses of the macros; their expansions are analysed
}


def facts(units):
    """-> {unit: path of the dump}; compiles whatever is missing for the current tree"""
    lk = lock()
    try:
        files = source_files()
        h = tree_hash(files, REPO, (driver_hash(), hashlib.sha256(open(WITNESS[1], "rb").read()).hexdigest()))
        fdir = os.path.join(CACHE, "facts", h)
        os.makedirs(fdir, exist_ok=True)
        need = [u for u in units if not os.path.exists(os.path.join(fdir, u + ".json"))]
        if need:
            exe = ensure_driver()
            tree = os.path.join(CACHE, "tree")
            sync(tree)
            need = sorted(need, key=lambda u: ["vertigo", "vertigo_cli", "vertigo_macro", "vp_witness", "vertigo_wasm"].index(u))
            for u in need:
                pk, cn, xe = UNITS[u]
                run_driver(exe, tree, u, pk, cn, xe, fdir)
        # keep the cache small
        root = os.path.join(CACHE, "facts")
        olds = sorted((os.path.getmtime(os.path.join(root, x)), x) for x in os.listdir(root) if x != h)
        for _, x in olds[:-3]:
            shutil.rmtree(os.path.join(root, x), ignore_errors=True)
        return {u: os.path.join(fdir, u + ".json") for u in units}, h, len(files)
    finally:
        lk.close()


def run_driver(exe, tree, unit, packages, crate, extra, outdir):
    target = os.path.join(CACHE, "target")
    mine = packages if unit != "vp_witness" else []       # what is dumped is compiled again
    for fp in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, "debug", "build")):
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x in mine or any(x.startswith(m + "-") and len(x) == len(m) + 17 for m in mine) or ".fingerprint" in fp and x.startswith("vertigo"):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
               LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RUSTC_WORKSPACE_WRAPPER=exe, VP_CRATES=crate, VP_OUT=outdir,
               RUSTFLAGS="--cap-lints=allow", CARGO_INCREMENTAL="0")
    env.update(extra)
    cmd = ["cargo", "check", "--offline", "--quiet"]
    for p in packages:
        cmd += ["-p", p]
    cmd += ["--all-features"] + (["--example", unit] if unit == "vp_witness" else ["--lib"])
    if unit == "vp_witness":
        w = os.path.join(tree, WITNESS[0])
        os.utime(w)
    r = sh(cmd, cwd=tree, env=env)
    out = os.path.join(outdir, unit + ".json")
    if crate + ".json" != unit + ".json" and os.path.exists(os.path.join(outdir, crate + ".json")) and not extra:
        os.replace(os.path.join(outdir, crate + ".json"), out)
    if not os.path.exists(out):
        raise BuildError(f"{unit}: no facts (cargo exit {r.returncode})\n" + r.stdout[-4000:])
    if r.returncode and unit != "vertigo_wasm":
        os.remove(out)
        raise BuildError(f"{unit}: cargo exit {r.returncode}\n" + r.stdout[-4000:])
