#!/usr/bin/env python3
"""Makes and confirms planted bugs.
  seed.py make FILE.seed   -> seeded/<id>/ (patch.diff, demo.sh, demo.rs, meta.json), confirmed in a scratch copy of /repo
A .seed file is python: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], DEMO (body of fn main in rust)."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"
SH = r'''#!/bin/bash
# run in /repo after the build; everything happens in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stable-fs = { path = "$R/stable-fs" }
ic-stable-structures = "0.7.2"
[profile.dev]
debug = 0
X
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet || exit 3
timeout 120 "$T/target/debug/demo"
'''
PRE = r'''#![allow(unused)]
use ic_stable_structures::{memory_manager::MemoryManager, Memory, VectorMemory};
use stable_fs::error::Error;
use stable_fs::fs::*;
use stable_fs::storage::{stable::StableStorage, transient::TransientStorage, types::*, Storage};

type Mem = VectorMemory;
fn mem() -> Mem { std::rc::Rc::new(std::cell::RefCell::new(Vec::new())) }
fn open_on(m: &Mem) -> FileSystem {
    let mm = MemoryManager::init(m.clone());
    FileSystem::new(Box::new(StableStorage::new_with_memory_manager(&mm, 100..110))).unwrap()
}
fn transient() -> FileSystem { FileSystem::new(Box::new(TransientStorage::new())).unwrap() }
fn create(fs: &mut FileSystem, p: &str) -> Fd {
    let r = fs.root_fd();
    fs.open(r, p, FdStat::default(), OpenFlags::CREATE, 7).unwrap()
}
fn open(fs: &mut FileSystem, p: &str) -> Fd {
    let r = fs.root_fd();
    fs.open(r, p, FdStat::default(), OpenFlags::empty(), 0).unwrap()
}
fn write_at(fs: &mut FileSystem, fd: Fd, off: u64, b: &[u8]) -> Result<u64, Error> {
    fs.write_vec_with_offset(fd, &[SrcBuf { buf: b.as_ptr(), len: b.len() }], off)
}
fn read_at(fs: &mut FileSystem, fd: Fd, off: u64, n: usize) -> Vec<u8> {
    let mut b = vec![0xEEu8; n];
    let k = fs.read_vec_with_offset(fd, &[DstBuf { buf: b.as_mut_ptr(), len: n }], off).unwrap();
    b.truncate(k as usize);
    b
}
fn names(fs: &mut FileSystem, fd: Fd) -> Vec<String> {
    let mut v = vec![];
    fs.with_direntries(fd, Some(0), &mut |_, e| {
        v.push(String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned());
        true
    })
    .unwrap();
    v
}
'''


def sh(c, cwd, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def copy():
    if not os.path.exists(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh("git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)


def tests():
    # the repository's own command in the copy
    e = "export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never; "
    r = sh(e + "cargo test --workspace --exclude integration-tests --no-fail-fast --offline --locked -- --test-threads 8", W)
    o = r.stdout + r.stderr
    bad = sorted({l.split()[1] for l in o.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")})
    good = sum(1 for l in o.splitlines() if l.startswith("test ") and l.rstrip().endswith("ok"))
    return good, bad, o


def make(f):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(H, "seeded", g["ID"])
    copy()
    for e in g["EDITS"]:
        p = os.path.join(W, "stable-fs/src", e[0])
        s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != n:
            print(g["ID"], "edit does not match", s.count(e[1]), e[1])
            return 1
        open(p, "w").write(s.replace(e[1], e[2]))
    diff = sh("git diff", W).stdout
    good, bad, o = tests()
    base = json.load(open("/opt/vp/BASELINE.json"))
    if good == 0:
        print(g["ID"], "does not build", o[-1500:])
        return 1
    stable = base if isinstance(base, list) else base.get("stable", base.get("passed", base.get("tests", [])))
    broken = [b for b in bad if any(b in x for x in (stable or []))]
    if broken:
        print(g["ID"], "breaks tests:", broken)
        return 1
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(PRE + "\nfn main() {\n" + g["DEMO"].strip("\n") + "\n}\n")
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, W)
    b = sh("bash %s/demo.sh" % d, "/repo")
    ok = a.returncode not in (0, 3) and b.returncode == 0
    print(g["ID"], "confirmed" if ok else "NOT CONFIRMED", "patched:", a.returncode, a.stderr.strip()[-300:].replace("\n", " "), "| clean:", b.returncode, b.stderr.strip()[-900:] if b.returncode else "")
    if not ok:
        shutil.rmtree(d)
        return 1
    return 0


if __name__ == "__main__":
    r = 0
    for f in sys.argv[2:]:
        r |= make(f)
    sys.exit(r)
