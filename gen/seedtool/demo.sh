#!/bin/bash
# Compiles demo.rs into a scratch copy of /repo's crate @CRATE@ (offline) and runs it as a test.
# Exits 0 if the test passes, 1 if it fails.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.85 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset RUSTFLAGS CARGO_BUILD_TARGET
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
python3 - "$tmp/ws" "$here" <<'PY' || exit 2
import os, re, shutil, sys
ws, here = sys.argv[1:]
os.makedirs(ws + "/crates")
root, skip = [], False
for line in open("/repo/Cargo.toml"):
    if line.startswith("["):
        skip = line.startswith("[patch")
    if not skip:
        root.append(line)
open(ws + "/Cargo.toml", "w").write(re.sub(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["crates/*"]', "".join(root)))
shutil.copyfile("/repo/Cargo.lock", ws + "/Cargo.lock")
for name in ["sync-lsp", "tinymist-assets", "tinymist-derive", "tinymist-l10n", "tinymist-std"]:
    dst = f"{ws}/crates/{name}"
    shutil.copytree(f"/repo/crates/{name}", dst, ignore=shutil.ignore_patterns("target"))
    text = open(dst + "/Cargo.toml").read()
    if name == "tinymist-std":
        text = re.sub(r"(?m)^(typst|typst-shim)\s*=\s*\{.*optional = true.*\}\n", "", text)
        text = re.sub(r"(?m)^typst\s*=\s*\[.*\]$", "typst = []", text)
        text = re.sub(r'(?m)^(full\s*=.*?),?\s*"typst"', r"\1", text)
    open(dst + "/Cargo.toml", "w").write(text)
crate = f"{ws}/crates/@CRATE@"
inside = "@INSIDE@"
if inside:  # a module of the crate, to reach private items
    with open(f"{crate}/{inside}", "a") as f:
        f.write("\n#[cfg(test)]\nmod planted_demo {\n" + open(here + "/demo.rs").read() + "\n}\n")
else:
    os.makedirs(crate + "/tests", exist_ok=True)
    shutil.copyfile(here + "/demo.rs", crate + "/tests/planted_demo.rs")
PY
[ -d /repo/target/debug ] && mkdir "$tmp/target" && cp -a /repo/target/debug "$tmp/target/debug"
export CARGO_TARGET_DIR=$tmp/target
cd "$tmp/ws" || exit 2
timeout 280 cargo test -q --offline @SELECT@ -- --test-threads 1 --nocapture planted > "$tmp/log" 2>&1
rc=$?
tail -40 "$tmp/log"
grep -q "^error" "$tmp/log" && ! grep -q "^error: test failed" "$tmp/log" && exit 2
[ $rc = 0 ] || exit 1
