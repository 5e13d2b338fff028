#!/usr/bin/env python3
"""Development tool: turns the planted-bug descriptions in tools/planted/*.py into seeded/<id>/.

For every bug: edit a scratch copy of /repo, run the existing tests there, check that the
demonstration passes without and fails with the change, and only then write seeded/<id>/.

  plant.py [id ...]       (re)create the given bugs, or all that are not in seeded/ yet
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/plant"
REPO = WORK + "/repo"
ENV = dict(os.environ, RUSTFLAGS="-A bindings_with_variant_name", CARGO_NET_OFFLINE="true")
ENV.pop("CARGO_TARGET_DIR", None)

DEMO_SH = """#!/bin/bash
# Run with the repository as the current directory: builds demo.rs against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
protofish = { path = "$repo" }
bytes = "1.0"

[workspace]
TOML
export RUSTFLAGS="-A bindings_with_variant_name"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" || exit 3
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
"""

HEAD = """#![allow(unused_imports)]
use bytes::Bytes;
use protofish::context::*;
use protofish::decode::*;

"""


def sh(cmd, cwd=None, env=ENV, timeout=280):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def load():
    bugs = {}
    for f in sorted(glob.glob(VERIF + "/tools/planted/*.py")):
        spec = importlib.util.spec_from_file_location("x", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs


def edit(path, old, new):
    raw = open(path, newline="").read()
    crlf = "\r\n" in raw
    t = raw.replace("\r\n", "\n")
    assert t.count(old) == 1, (path, old, t.count(old))
    t = t.replace(old, new)
    open(path, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)


def reset():
    sh("git checkout -q -- .", cwd=REPO)


def demo(d):
    env = dict(ENV, DEMO_TARGET=WORK + "/demo-target")
    return sh(f"bash {d}/demo.sh", cwd=REPO, env=env)


def plant(b, lock):
    reset()
    d = f"{WORK}/new/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.rs", "w").write(HEAD + b["demo"].strip() + "\n")
    shutil.copy(lock, d + "/Cargo.lock")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    r = demo(d)
    if r.returncode != 0:
        return f"demo fails on the clean tree ({r.returncode}):\n{r.stdout[-2500:]}"
    try:
        for f, old, new in b["edits"]:
            edit(f"{REPO}/{f}", old, new)
        patch = subprocess.run(["git", "diff", "--no-color"], cwd=REPO, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(patch)
        r = sh("cargo test --offline >/tmp/plant/test.log 2>&1; cat /tmp/plant/test.log", cwd=REPO)
        ok = sum(int(l.split("ok. ")[1].split()[0]) for l in r.stdout.split("\n") if l.startswith("test result: ok."))
        r2 = sh("grep -c 'FAILED\\|^error' /tmp/plant/test.log", cwd=REPO)
        if r2.stdout.strip() != "0":
            return "does not build or fails the tests:\n" + r.stdout[-3000:]
        if ok < 18:
            return f"only {ok} tests passed\n" + r.stdout[-2000:]
        r = demo(d)
        if r.returncode == 0:
            return "demo passes with the change"
        if r.returncode == 3:
            return "demo does not build with the change:\n" + r.stdout[-2500:]
        print("   demo:", r.returncode, [l for l in r.stdout.split("\n") if l.strip()][1:2])
    finally:
        reset()
    out = f"{VERIF}/seeded/{b['id']}"
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    return None


def main():
    bugs = load()
    os.makedirs(WORK, exist_ok=True)
    if not os.path.isdir(REPO):
        sh(f"cp -a /repo {REPO}")
    sh("git fetch -q && true", cwd=REPO)
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    have = subprocess.check_output(["git", "-C", REPO, "rev-parse", "HEAD"], text=True).strip()
    if head != have:
        shutil.rmtree(REPO)
        sh(f"cp -a /repo {REPO}")
    lock = WORK + "/Cargo.lock"
    if not os.path.exists(lock):
        d = tempfile.mkdtemp()
        os.mkdir(d + "/src")
        open(d + "/src/main.rs", "w").write("fn main() {}")
        shutil.copy(VERIF + "/harness/Cargo.lock", d + "/Cargo.lock")
        open(d + "/Cargo.toml", "w").write(
            '[package]\nname="demo"\nversion="0.0.0"\nedition="2021"\n[dependencies]\n'
            'protofish={path="%s"}\nbytes="1.0"\n[workspace]\n' % REPO)
        r = sh("cargo build --offline", cwd=d)
        print(r.stdout[-500:])
        shutil.copy(d + "/Cargo.lock", lock)
        shutil.rmtree(d)
    ids = sys.argv[1:] or [i for i in bugs if not os.path.isdir(f"{VERIF}/seeded/{i}")]
    for i in ids:
        err = plant(bugs[i], lock)
        print(i, "OK" if err is None else "FAILED: " + err, flush=True)


main()
