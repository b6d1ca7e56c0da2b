#!/usr/bin/env python3
"""Writes and confirms planted bugs (see DESIGN.md). Usage: plant.py gen|confirm|try|quiet [id...]

gen      writes /verif/seeded/<id>/ from defs*.py
confirm  in a scratch copy of /repo: the patch builds, the stable tests pass, the demonstration passes
         without the patch and fails with it
try      in copies of /repo and the machinery: runs the check of the bug's property with the patch applied;
         the outcomes go to results.json, from which table.py writes the table in DESIGN.md
"""
import importlib.util, json, os, re, shutil, subprocess, sys, pathlib, difflib, time

HERE = pathlib.Path(__file__).parent
SEEDED = pathlib.Path("/verif/seeded")
REPO = pathlib.Path("/repo")
SCRATCH = pathlib.Path("/tmp/plant-scratch")

DEMO_SH = """#!/bin/bash
# Run in the repository: exits 0 when the property holds, nonzero when it is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
{extra}cat > "$scratch/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
{pkg}
[workspace]

[dependencies]
{deps}
{build_deps}
TOML
cd "$scratch" || exit 99
export CARGO_TARGET_DIR="$scratch/target"
{pre}timeout 240 cargo run -q --offline {flags}
rc=$?
exit $rc
"""


def defs():
    out = {}
    for f in sorted(HERE.glob("defs*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for p in m.PLANTS:
            assert p["id"] not in out, p["id"]
            out[p["id"]] = p
    return out


def dep_line(d):
    if isinstance(d, tuple):
        name, extra = d
    else:
        name, extra = d, ""
    if name.startswith("="):  # external crate
        return f'{name[1:]} = {extra}'
    return f'{name} = {{ path = "$repo/crates/{name}"{", " + extra if extra else ""} }}'


def head(path):
    return subprocess.run(["git", "show", "HEAD:" + path], cwd=REPO, stdout=subprocess.PIPE, text=True, check=True).stdout


def gen(p):
    d = SEEDED / p["id"]
    d.mkdir(parents=True, exist_ok=True)
    patch = ""
    edits = {}
    for f, old, new in p["edits"]:
        path = f if f.startswith("crates/") else "crates/" + f
        text = edits.get(path) or head(path)
        assert text.count(old) == 1, (p["id"], path, old, text.count(old))
        edits[path] = text.replace(old, new)
    for path, text in edits.items():
        a = head(path).splitlines(True)
        patch += "".join(difflib.unified_diff(a, text.splitlines(True), "a/" + path, "b/" + path))
    (d / "patch.diff").write_text(patch)
    (d / "demo.rs").write_text(p["demo"].lstrip("\n"))
    extra, pkg, bd = "", "", ""
    if p.get("build"):
        (d / "gen.rs").write_text(p["build"].lstrip("\n"))
        extra = 'cp "$here/gen.rs" "$scratch/build.rs"\n'
        pkg = 'build = "build.rs"'
        bd = "\n[build-dependencies]\n" + "\n".join(dep_line(x) for x in p["build_deps"])
    sh = DEMO_SH.format(extra=extra, pkg=pkg, build_deps=bd, deps="\n".join(dep_line(x) for x in p["deps"]),
                        flags=p.get("flags", ""), pre=p.get("pre", ""))
    (d / "demo.sh").write_text(sh)
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps(
        {"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what"]}, indent=2) + "\n")


def run(cmd, cwd, t=900, env=None):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True,
                          env=env)


def confirm(ids):
    wt = SCRATCH / "repo"
    if not wt.exists():
        SCRATCH.mkdir(parents=True, exist_ok=True)
        run(["cp", "-a", "/repo", str(wt)], "/")
    run(["git", "checkout", "-q", "--", "."], wt)
    run(["git", "fetch", "-q", "/repo", "HEAD"], wt)
    run(["git", "reset", "-q", "--hard", "FETCH_HEAD"], wt)
    bad = []
    for i in ids:
        d = SEEDED / i
        t0 = time.time()
        msgs = []
        r = run(["bash", str(d / "demo.sh")], wt)
        if r.returncode != 0:
            msgs.append("demo fails on the clean tree:\n" + r.stdout[-1500:])
        r = run(["git", "apply", str(d / "patch.diff")], wt)
        if r.returncode != 0:
            msgs.append("does not apply: " + r.stdout)
        else:
            r = run(["bash", "-c", "cargo build --workspace --offline -q 2>&1 && cargo test --workspace --no-fail-fast --offline 2>&1"], wt)
            if r.returncode != 0:
                msgs.append("build or tests fail:\n" + r.stdout[-1500:])
            r = run(["bash", str(d / "demo.sh")], wt)
            if r.returncode == 0:
                msgs.append("demo passes with the patch")
            demo_out = r.stdout.strip().splitlines()[:3]
        run(["git", "checkout", "-q", "--", "."], wt)
        print(f"{'BAD ' if msgs else 'ok  '} {i} ({time.time()-t0:.0f}s)", "" if msgs else " | ".join(demo_out)[:200], flush=True)
        for m in msgs:
            print("   ", m)
        if msgs:
            bad.append(i)
    print("bad:", bad)


COPY = pathlib.Path(os.environ.get("PLANT_COPY", "/tmp/plant-try"))


def copies():
    """Copies of /repo and of the machinery, with the path to the one edited in the other."""
    repo, verif = COPY / "repo", COPY / "verif"
    if not repo.exists():
        COPY.mkdir(parents=True, exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", str(repo)], check=True)
    for cmd in ("git fetch -q origin HEAD", "git checkout -q -- .", "git reset -q --hard FETCH_HEAD"):
        subprocess.run(cmd.split(), cwd=repo, check=True)
    verif.mkdir(exist_ok=True)
    for x in ("bin", "harness"):
        if (verif / x).exists():
            shutil.rmtree(verif / x)
        subprocess.run(["cp", "-a", f"/verif/{x}", f"{verif}/"], check=True)
    shutil.copy("/verif/known_findings.txt", verif)
    if not (verif / "target").exists() and os.path.exists("/verif/target"):
        subprocess.run(["cp", "-a", "/verif/target", f"{verif}/"], check=True)
    for base in ("bin", "harness"):
        for d, ds, fs in os.walk(verif / base):
            ds[:] = [x for x in ds if x not in ("target", "__pycache__")]
            for f in fs:
                q = pathlib.Path(d) / f
                t = q.read_text()
                u = re.sub(r'(?<![\w/])/repo(?=["/\'])', str(repo), t).replace("../../../repo/", f"{repo}/").replace("/verif/harness/", f"{verif}/harness/")
                if t != u:
                    q.write_text(u)
    return repo, verif


def try_(ids, tier="quick"):
    res = {}
    repo, verif = copies()
    rf = HERE / "results.json"
    for i in ids:
        d = SEEDED / i
        prop = json.loads((d / "meta.json").read_text())["property"]
        r = run(["git", "apply", str(d / "patch.diff")], repo)
        assert r.returncode == 0, r.stdout
        try:
            t0 = time.time()
            env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
            r = run(["bin/check", prop, tier], verif, 2000, env)
        finally:
            run(["git", "checkout", "-q", "--", "."], repo)
        hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        res[i] = hit
        all_res = json.loads(rf.read_text()) if rf.exists() else {}
        all_res[i] = f"caught by {prop}" if hit else f"missed by {prop}"
        rf.write_text(json.dumps(all_res, indent=0, sort_keys=True) + "\n")
        print(f"{'CAUGHT' if hit else 'MISSED'} {i} {prop} rc={r.returncode} {time.time()-t0:.0f}s", flush=True)
        if not hit:
            print(r.stdout[-1500:])
    print("missed:", [i for i, h in res.items() if not h])


def quiet(ids):
    """same.diff (or SAME=same2.diff) rewrites much of the code without changing what it does: no check may say anything."""
    repo, verif = copies()
    r = run(["git", "apply", str(HERE / os.environ.get("SAME", "same.diff"))], repo)
    assert r.returncode == 0, r.stdout
    loud = []
    try:
        for i in ids:
            t0 = time.time()
            env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = run(["bin/check", i, os.environ.get("VERIF_TIER", "quick")], verif, 3000, env)
            print(f"{'quiet' if r.returncode == 0 else 'LOUD'} {i} {time.time()-t0:.0f}s", flush=True)
            if r.returncode:
                loud.append(i)
                print(r.stdout[-2500:])
    finally:
        run(["git", "checkout", "-q", "--", "."], repo)
    print("loud:", loud)


if __name__ == "__main__":
    if sys.argv[1] == "quiet":
        quiet(sys.argv[2:] or [f"C{n:02}" for n in range(1, 41)])
        sys.exit()
    all_ = defs()
    cmd, ids = sys.argv[1], sys.argv[2:] or list(all_)
    ids = [i for i in all_ if any(i == x or re.fullmatch(x, i) for x in ids)]
    if cmd == "gen":
        for i in ids:
            gen(all_[i])
    elif cmd == "confirm":
        for i in ids:
            gen(all_[i])
        confirm(ids)
    elif cmd == "try":
        try_(ids)
