"""Plants a bug: confirms it in a scratch copy of /repo and keeps it under /verif/seeded.

    python3 tools/plant.py BATCH.py [ID..]

BATCH.py calls plant(...) for each bug. Nothing of /repo is touched.
"""
import json, os, re, shutil, subprocess, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SCRATCH = Path("/tmp/scratch/repo")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

DEMO = """#!/bin/bash
# Run in the repository: exit 0 if it behaves, nonzero if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
%scat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
%s
[profile.dev]
debug = 0
[workspace]
TOML
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cd "$work" || exit 2
cargo build --offline -q 2> "$work/log" || { tail -40 "$work/log"; echo "does not build"; exit 1; }
export RUST_BACKTRACE=0
timeout 120 "$work/target/debug/demo"
"""
DEPS = {
    "crabslab": 'crabslab = { path = "$repo/crates/crabslab" }',
    "craballoc": 'craballoc = { path = "$repo/crates/craballoc" }',
    "glam": 'glam = "0.29"',
    # on a simulated GPU
    "wgpu": 'craballoc = { path = "$repo/crates/craballoc", features = ["wgpu"] }\ncrabslab = { path = "$repo/crates/crabslab" }\nwgpu = "24"\n[patch.crates-io]\nwgpu = { path = "$here/wgpu" }',
}
DEPS["gpu"] = 'crabslab = { path = "crabslab" }'
DEPS["plain"] = 'craballoc = { path = "$repo/crates/craballoc", default-features = false }'
DEPS["no-glam"] = 'crabslab = { path = "$repo/crates/crabslab", default-features = false }'
# crabslab as it is compiled for a GPU
SETUP = {"gpu": """mkdir -p "$work/crabslab" "$work/spirv-std/src"
cp "$here/spirv-std.rs" "$work/spirv-std/src/lib.rs"
printf '[package]\\nname = "spirv-std"\\nversion = "0.9.0"\\nedition = "2021"\\n' > "$work/spirv-std/Cargo.toml"
echo 'fn main() { println!("cargo:rustc-cfg=target_arch=\\"spirv\\""); }' > "$work/crabslab/build.rs"
cat > "$work/crabslab/Cargo.toml" <<TOML
[package]
name = "crabslab"
version = "0.6.3"
edition = "2021"
build = "build.rs"
[lib]
path = "$repo/crates/crabslab/src/lib.rs"
[features]
default = ["glam"]
glam = ["dep:glam"]
[dependencies]
crabslab-derive = { path = "$repo/crates/crabslab-derive" }
glam = { version = "0.29", features = ["std"], default-features = false, optional = true }
spirv-std = { path = "../spirv-std" }
[lints.rust]
explicit_builtin_cfgs_in_flags = "allow"
TOML
"""}


def sh(cmd, cwd=SCRATCH, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests_pass():
    r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"])
    Path("/tmp/scratch/test.log").write_text(r.stdout)
    sh(["python3", "/opt/vp/results.py", "/tmp/scratch/out.json", "cargo:/tmp/scratch/test.log"])
    res = json.load(open("/tmp/scratch/out.json"))
    missing = [t for t in STABLE if t not in res["passed"]]
    return missing


def plant(id, property, needs, breaks, edits, main, deps=("crabslab",), only=None):
    if only and id not in only:
        return
    sh(["git", "checkout", "-q", "--", "."])
    for file, old, new in edits:
        p = SCRATCH / "crates" / file
        s = p.read_text()
        assert s.count(old) == 1, (id, file, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = sh(["git", "diff"]).stdout
    # changed lines must be the original's
    out = VERIF / "seeded" / id
    tmp = Path("/tmp/scratch/seed") / id
    if tmp.exists():
        shutil.rmtree(tmp)
    tmp.mkdir(parents=True)
    (tmp / "patch.diff").write_text(diff)
    (tmp / "main.rs").write_text(main)
    (tmp / "demo.sh").write_text(DEMO % ("".join(SETUP.get(d, "") for d in deps), "\n".join(DEPS[d] for d in deps)))
    if "wgpu" in deps:
        fake = VERIF / "harness" / "wgpu-fake"
        (tmp / "wgpu" / "src").mkdir(parents=True)
        shutil.copy(fake / "src" / "lib.rs", tmp / "wgpu" / "src" / "lib.rs")
        shutil.copy(fake / "Cargo.toml", tmp / "wgpu" / "Cargo.toml")
    if "gpu" in deps:
        shutil.copy(VERIF / "harness/gpu-parts/spirv-std/src/lib.rs", tmp / "spirv-std.rs")
    os.chmod(tmp / "demo.sh", 0o755)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(tmp / "meta.json", "w"), indent=1)
    miss = tests_pass()
    if miss:
        print(f"{id}: REJECTED, existing tests catch it: {miss}")
        sh(["git", "checkout", "-q", "--", "."])
        return
    bad = sh(["bash", str(tmp / "demo.sh")])
    sh(["git", "checkout", "-q", "--", "."])
    good = sh(["bash", str(tmp / "demo.sh")])
    if good.returncode != 0 or bad.returncode == 0 or "does not build" in good.stdout:
        print(f"{id}: REJECTED, demo good={good.returncode} bad={bad.returncode}\n{good.stdout[-1500:]}\n---\n{bad.stdout[-1500:]}")
        return
    if out.exists():
        shutil.rmtree(out)
    shutil.copytree(tmp, out)
    print(f"{id}: planted ({property}); {bad.stdout.strip().splitlines()[-3:]}", flush=True)


if __name__ == "__main__":
    batch = sys.argv[1]
    only = set(sys.argv[2:])
    import functools
    exec(compile(open(batch).read(), batch, "exec"), {"plant": functools.partial(plant, only=only)})
