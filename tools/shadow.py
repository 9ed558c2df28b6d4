"""Derives a cargo workspace from /repo that builds without LLVM.

    python3 tools/shadow.py OUT [extra-member-dir ...]

OUT holds generated Cargo.toml files and, for everything else, symlinks into /repo, so cargo (and cargo-kani)
compile the very source files of /repo's working tree.  Only manifests differ: the `llvm` default feature and the
LLVM-only dependencies are dropped, exactly as /opt/vp/shadow.py does for the repository's own test-suite.
The extra members are harness crates of /verif, symlinked in as OUT/harness/<name>.
"""
import glob, os, shutil, sys, tomllib

REPO = "/repo"
NEED_LLVM = {"crates/revmc-llvm", "crates/revmc-statetest", "crates/revmc-cli", "crates/revmc-cli-tests",
             "crates/revmc", "examples/compiler", "examples/runner", "fuzz"}
DROP = ("revmc-llvm", "revmc-statetest")


def dump(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(dump, v)) + "]"
    return "{ " + ", ".join(f"{dump(k)} = {dump(x)}" for k, x in v.items()) + " }"


def write(path, text):
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def write_toml(path, data):
    write(path, "".join(f"{dump(k)} = {dump(v)}\n" for k, v in data.items()))


def mirror(src, dst):
    os.makedirs(dst, exist_ok=True)
    want = {n for n in os.listdir(src) if n not in ("Cargo.toml", "target")}
    for n in set(os.listdir(dst)) - want - {"Cargo.toml"}:
        p = f"{dst}/{n}"
        os.remove(p) if os.path.islink(p) or os.path.isfile(p) else shutil.rmtree(p)
    for n in want:
        if not os.path.islink(f"{dst}/{n}"):
            os.symlink(f"{src}/{n}", f"{dst}/{n}")


def derive(m):
    for kind in ("dependencies", "dev-dependencies", "build-dependencies"):
        for name in DROP:
            m.get(kind, {}).pop(name, None)
    m.pop("dev-dependencies", None)
    feats = m.get("features", {})
    for name, items in feats.items():
        feats[name] = [f for f in items if not f.removeprefix("dep:").startswith(DROP)
                       and not (name == "default" and f.startswith("llvm"))]


def main(out, extra=()):
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    members = sorted(os.path.relpath(os.path.dirname(p), REPO)
                     for pat in root["workspace"]["members"] for p in glob.glob(f"{REPO}/{pat}/Cargo.toml"))
    mine = [m for m in members if m not in NEED_LLVM]
    top = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    top["workspace"]["members"] = mine + [f"harness/{os.path.basename(e)}" for e in extra]
    top["workspace"].pop("default-members", None)
    write_toml(f"{out}/Cargo.toml", top)
    for member in mine:
        m = tomllib.load(open(f"{REPO}/{member}/Cargo.toml", "rb"))
        derive(m)
        mirror(f"{REPO}/{member}", f"{out}/{member}")
        write_toml(f"{out}/{member}/Cargo.toml", m)
    os.makedirs(f"{out}/harness", exist_ok=True)
    for e in extra:
        d = f"{out}/harness/{os.path.basename(e)}"
        if not os.path.islink(d):
            os.symlink(os.path.abspath(e), d)
    for n in ("data", "tests"):
        if not os.path.islink(f"{out}/{n}"):
            os.symlink(f"{REPO}/{n}", f"{out}/{n}")
    shutil.copyfile(f"{REPO}/Cargo.lock", f"{out}/Cargo.lock")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
