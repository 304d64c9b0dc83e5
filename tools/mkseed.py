"""Helper to write /verif/seeded/<id>/ (not used by any check): mkseed.seed(...) applies textual replacements in a scratch
clone of /repo, writes patch.diff, demo.sh, main.rs and meta.json."""
import json, os, shutil, subprocess, sys
WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# Runs with cwd /repo: exit 0 if the property holds for the demonstrated history, nonzero otherwise
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pasture-core = { path = "$repo/pasture-core" }
pasture-derive = { path = "$repo/pasture-derive" }
%s
bytemuck = { version = "1", features = ["derive"] }
[profile.dev]
debug = 0
EOF
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo run --offline --quiet
'''
# pasture-io's dependencies are not installed: the demo brings the stand-ins it is built on
DEMO_IO = DEMO.replace('cat > "$tmp/Cargo.toml"', 'cp -r "$here/standins" "$tmp/standins"\nsed -i "s#/repo/#$repo/#" "$tmp/standins/pasture-io/Cargo.toml"\ncat > "$tmp/Cargo.toml"').replace(
    "%s\n", 'pasture-io = { path = "$tmp/standins/pasture-io" }\nanyhow = "1"\nserde_json = "1"\n')
# a demo that runs the tool
DEMO_TOOL = DEMO_IO.replace('anyhow = "1"\n', 'anyhow = "1"\npasture-algorithms = { path = "$repo/pasture-algorithms" }\nclap = "2.33.3"\n').replace(
    "[workspace]", '[workspace]\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n[[bin]]\nname = "info"\npath = "$repo/pasture-tools/src/bin/info.rs"\nedition = "2018"').replace(
    "debug = 0", "debug = 0\nopt-level = 1").replace('timeout 280 cargo run --offline --quiet', 'timeout 200 cargo build --offline --quiet && timeout 80 target/debug/demo')
def sh(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
def seed(id, prop, edits, needs, breaks, main, algos=False, io=False, tool=False):
    if not os.path.isdir(WT): sh("git", "clone", "-q", "/repo", WT)
    sh("git", "-C", WT, "fetch", "-q", "origin"); sh("git", "-C", WT, "reset", "-q", "--hard", "origin/HEAD")
    base = sh("git", "-C", WT, "rev-list", "--max-parents=0", "HEAD").strip()[:8]
    for f, old, new in edits:
        p = f"{WT}/{f}"; s = open(p).read()
        n = s.count(old)
        if n != 1: print(f"{id}: {n} matches in {f}: {old[:60]!r}"); return
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", WT, "diff")
    # lines removed must be original ones
    for f in {e[0] for e in edits}:
        bl = sh("git", "-C", WT, "blame", "-s", "HEAD", "--", f).splitlines()
        cur = None
        orig = mine = 0
        import re
        for l in sh("git", "-C", WT, "diff", "-U0", "--", f).splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for i in range(a, a + n):
                    if bl[i-1].startswith("^"): orig += 1
                    else: mine += 1; print(f"{id}: line {f}:{i} is not original")
        if orig == 0: print(f"{id}: no original line changed in {f}")
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/main.rs", "w").write(main.strip() + "\n")
    io |= tool
    if io: shutil.copytree("/verif/standins", f"{d}/standins", dirs_exist_ok=True)
    open(f"{d}/demo.sh", "w").write(DEMO_TOOL if tool else DEMO_IO if io else DEMO % ('pasture-algorithms = { path = "$repo/pasture-algorithms" }\nkd-tree = "0.3"\ntypenum = "1"' if algos else ''))
    os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copy("/verif/harness/Cargo.lock", f"{d}/Cargo.lock")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    print(id, "written")
