"""Builds what the checks analyse, from /repo's working tree.

  * a derived workspace of the members of /repo that compile offline (their
    sources are symlinks into /repo, so rustc reads the files of /repo as they are);
  * the rustc_private driver tools/mirdump;
  * one JSON dump per crate (resolved, instance-level MIR), by running
    `cargo +nightly check` with the driver as RUSTC_WORKSPACE_WRAPPER.

Everything goes below a cache directory git ignores (/verif/.cache, or a
directory of its own under the system's temporary directory when that cannot be
written).  The dump is keyed by the hash of every input, so a changed tree is
always analysed afresh.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MEMBERS = ["sync-lsp", "tinymist-assets", "tinymist-derive", "tinymist-l10n", "tinymist-std"]
FEATURES = "sync-ls/lsp,sync-ls/dap,sync-ls/server,tinymist-std/system"
WANT = ["sync_ls", "tinymist_assets", "tinymist_derive", "tinymist_l10n", "tinymist_std"]

# a second derived workspace: crates whose missing third-party dependencies are
# replaced by the interface stubs of /verif/stubs (declarations, no behaviour)
STUBS = f"{HERE}/stubs"
MEMBERS2 = ["tinymist-derive", "tinymist-l10n", "tinymist-std", "tinymist-vfs", "tinymist-package", "tinymist-world", "tinymist-task", "tinymist-project", "typst-shim"]
FEATURES2 = "tinymist-project/lsp,tinymist-std/typst"
WANT2 = ["tinymist_std", "tinymist_vfs", "tinymist_package", "tinymist_world", "tinymist_task", "tinymist_project"]
WS = {
    1: dict(members=MEMBERS, features=FEATURES, want=WANT, dir="ws", target="target", dump="dump-", stubs=False),
    2: dict(members=MEMBERS2, features=FEATURES2, want=WANT2, dir="ws2", target="target2", dump="dump2-", stubs=True),
}


class BuildError(Exception):
    pass


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def write(p, t):
    with open(p, "w", encoding="utf-8") as f:
        f.write(t)


def cache_dir():
    d = os.environ.get("VERIF_CACHE") or os.path.join(HERE, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        probe = os.path.join(d, f".probe{os.getpid()}")
        open(probe, "w").close()
        os.unlink(probe)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), f"verif-cache-{os.getuid()}")
        os.makedirs(d, exist_ok=True)
        return d


def root_manifest():
    out, skip = [], False
    for line in read(f"{REPO}/Cargo.toml").splitlines():
        if line.startswith("["):
            skip = line.startswith("[patch")
        if not skip:
            out.append(line)
    text, n = re.subn(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["crates/*"]', "\n".join(out))
    if n != 1:
        raise BuildError("no members in Cargo.toml")
    return text + "\n"


def member_manifest(name):
    text = read(f"{REPO}/crates/{name}/Cargo.toml")
    if name == "tinymist-std":
        text = re.sub(r"(?m)^(typst|typst-shim)\s*=\s*\{.*optional = true.*\}\n", "", text)
        text = re.sub(r"(?m)^typst\s*=\s*\[.*\]$", "typst = []", text)
        text = re.sub(r'(?m)^(full\s*=.*?),?\s*"typst"', r"\1", text)
    return text


def source_hash(w):
    h = hashlib.sha256()
    files = [f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock", f"{HERE}/tools/mirdump/src/main.rs", __file__]
    for m in [f"{REPO}/crates/{m}" for m in w["members"]] + ([STUBS] if w["stubs"] else []):
        for r, ds, fs in os.walk(m):
            ds[:] = sorted(d for d in ds if d not in ("target", "node_modules"))
            files += [os.path.join(r, f) for f in sorted(fs)]
    for f in files:
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC", "RUSTDOC"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def run(cmd, cwd, extra=None, timeout=800):
    e = env()
    e.update(extra or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def errors(log):
    """the error diagnostics of a cargo log, without the warnings"""
    blocks = re.split(r"\n(?=\S)", log)
    e = [b for b in blocks if b.startswith("error")]
    return "\n".join(e)[-3000:] if e else log[-3000:]


def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"], "/")
    if rc:
        raise BuildError(out)
    return out.strip()


def driver(cd):
    src = f"{HERE}/tools/mirdump/src/main.rs"
    h = hashlib.sha256(read(src).encode()).hexdigest()[:16]
    exe = f"{cd}/mirdump-{h}"
    if not os.path.exists(exe):
        rc, out = run(["rustc", "+nightly", "--edition", "2021", "-O", "-o", exe + ".tmp", src], cd)
        if rc:
            raise BuildError("mirdump does not build:\n" + out[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe


def workspace(ws, w):
    for name in w["members"]:
        src, dst = f"{REPO}/crates/{name}", f"{ws}/crates/{name}"
        os.makedirs(dst, exist_ok=True)
        want = set(os.listdir(src)) - {"Cargo.toml", "target"}
        for entry in set(os.listdir(dst)) - {"Cargo.toml"} - want:
            os.unlink(f"{dst}/{entry}")
        for entry in want:
            p = f"{dst}/{entry}"
            if os.path.islink(p) and os.readlink(p) != f"{src}/{entry}":
                os.unlink(p)
            if not os.path.islink(p):
                os.symlink(f"{src}/{entry}", p)
        write(f"{dst}/Cargo.toml", read(f"{src}/Cargo.toml") if w["stubs"] else member_manifest(name))
    root = root_manifest()
    lock = read(f"{REPO}/Cargo.lock")
    if w["stubs"]:
        names = sorted(os.listdir(STUBS))
        root += "\n[patch.crates-io]\n" + "".join(f'{n} = {{ path = "{STUBS}/{n}" }}\n' for n in names)
        blocks = re.split(r"\n(?=\[\[package\]\])", lock)
        lock = "\n".join(b for b in blocks if not ((m := re.search(r'(?m)^name = "([^"]+)"', b)) and m.group(1) in names)) + "\n"
        # the features the whole workspace's build would have unified
        os.makedirs(f"{ws}/crates/zz-features/src", exist_ok=True)
        write(f"{ws}/crates/zz-features/Cargo.toml", '[package]\nname = "zz-features"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\ntokio = { version = "1", features = ["rt", "time", "sync", "macros"] }\n')
        write(f"{ws}/crates/zz-features/src/lib.rs", "")
    write(f"{ws}/Cargo.toml", root)
    write(f"{ws}/Cargo.lock", lock)


def dumps(which=1):
    """path of the directory with the crates' dumps (building them if needed)"""
    w = WS[which]
    cd = cache_dir()
    with open(f"{cd}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = source_hash(w)
        out = f"{cd}/{w['dump']}{key}"
        if os.path.exists(f"{out}/ok"):
            return out
        t0 = time.time()
        exe = driver(cd)
        ws, target = f"{cd}/{w['dir']}", f"{cd}/{w['target']}"
        workspace(ws, w)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=cd)
        # cargo's freshness cache would skip the wrapper: forget the members
        # (both the old and the new layout of the target directory)
        for sub in (".fingerprint", "build", "deps", "incremental"):
            d0 = f"{target}/debug/{sub}"
            for d in os.listdir(d0) if os.path.isdir(d0) else ():
                if re.match(r"(lib)?(sync[-_]ls|tinymist|typst[-_]shim)", d):
                    p = f"{d0}/{d}"
                    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        rc, log = run(
            ["cargo", "+nightly", "check", "--workspace", "--features", w["features"], "--offline"],
            ws,
            {"RUSTC_WORKSPACE_WRAPPER": exe, "LD_LIBRARY_PATH": sysroot() + "/lib", "MIRDUMP_OUT": tmp, "CARGO_TARGET_DIR": target, "CARGO_INCREMENTAL": "0", "CARGO_PROFILE_DEV_DEBUG": "0"},
        )
        if rc:
            shutil.rmtree(tmp)
            raise BuildError("the derived workspace does not build:\n" + errors(log))
        have = {f[:-5] for f in os.listdir(tmp) if f.endswith(".json")}
        if not set(w["want"]) <= have:
            shutil.rmtree(tmp)
            raise BuildError(f"no dump for {sorted(set(w['want']) - have)}:\n{log[-2000:]}")
        old = sorted((d for d in os.listdir(cd) if d.startswith(w["dump"])), key=lambda d: os.path.getmtime(f"{cd}/{d}"))
        for d in old[:-4]:
            shutil.rmtree(f"{cd}/{d}", ignore_errors=True)
        if os.path.exists(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
        write(f"{out}/ok", f"{time.time() - t0:.1f}\n")
        return out


if __name__ == "__main__":
    for n in WS:
        t = time.time()
        print(dumps(n), round(time.time() - t, 1))
