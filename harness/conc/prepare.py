"""Copy /repo's craballoc to target/conc-src, with std's threads, locks and atomics replaced.

Every path that starts with std:: or core:: starts with vstd:: in the copy, and async-channel is the
one beside this file. Nothing else is changed.
"""
import os
import pathlib
import re
import shutil
import tomllib

here = pathlib.Path(__file__).resolve().parent
target = pathlib.Path(os.environ["CARGO_TARGET_DIR"])
repo = pathlib.Path("/repo")
crate = repo / "crates/craballoc"
out = target / "conc-src/craballoc"

want = {}
for f in sorted((crate / "src").rglob("*")):
    if not f.is_file():
        continue
    data = f.read_bytes()
    if f.suffix == ".rs":
        text = data.decode()
        text = re.sub(r"(?<![\w:$])(::)?(?:std|core)::", r"\1vstd::", text)
        data = text.encode()
    want[f.relative_to(crate)] = data
if (crate / "README.md").exists():
    want[pathlib.Path("README.md")] = (crate / "README.md").read_bytes()

toml = tomllib.loads((crate / "Cargo.toml").read_text())
shared = tomllib.loads((repo / "Cargo.toml").read_text()).get("workspace", {}).get("dependencies", {})


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, list):
        return "[" + ", ".join(value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f'"{k}" = {value(x)}' for k, x in v.items()) + " }"
    return str(v)


lines = ["[package]", 'name = "craballoc"', 'version = "0.0.0"', f'edition = {value(toml["package"].get("edition", "2021"))}', "", "[lib]", "doctest = false", "", "[workspace]", "", "[features]"]
for k, v in toml.get("features", {}).items():
    lines.append(f'"{k}" = {value(v)}')
lines += ["", "[dependencies]"]
for k, v in toml.get("dependencies", {}).items():
    spec = {"version": v} if isinstance(v, str) else dict(v)
    if spec.pop("workspace", False):
        base = shared[k]
        base = {"version": base} if isinstance(base, str) else dict(base)
        feats = base.get("features", []) + spec.get("features", [])
        base.update(spec)
        if feats:
            base["features"] = feats
        spec = base
        origin = repo
    else:
        origin = crate
    if k == "async-channel":
        spec = {"path": str(here / "async-channel")}
    elif "path" in spec:
        spec["path"] = str((origin / spec["path"]).resolve())
    lines.append(f'"{k}" = {value(spec)}')
lines.append(f'"vstd" = {value({"path": str(here / "vstd")})}')
want[pathlib.Path("Cargo.toml")] = ("\n".join(lines) + "\n").encode()

# only touch what changed, so that nothing is rebuilt in vain
for f in [f for f in out.rglob("*") if f.is_file()] if out.exists() else []:
    if f.relative_to(out) not in want:
        f.unlink()
for name, data in want.items():
    f = out / name
    if f.exists() and f.read_bytes() == data:
        continue
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_bytes(data)
