#!/usr/bin/env python3
"""Writes /verif/build/ws: a cargo workspace of symlinks into /repo (mrp, protobuf, src/rust).

cargo therefore compiles /repo's own sources.  Only three files are made here:
  Cargo.toml            a workspace root with /repo's [workspace.package]
  src/rust/Cargo.toml   /repo's, without bins/tests/cdylib, and with zkgroup (a git dependency that
                        cannot be fetched offline) pointing at the stand-in under harness/stubs
  src/rust/build.rs     empty: /repo's only locates the WebRTC C++ library, which the simulator replaces
"""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RSIM_REPO", "/repo")
WS = os.path.join(os.path.dirname(HERE), "build", "ws")

def read(p):
    with open(os.path.join(REPO, p), encoding="utf-8") as f:
        return f.read()

def write(p, t):
    p = os.path.join(WS, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        if not os.path.islink(p) and open(p, encoding="utf-8").read() == t:
            return
    except FileNotFoundError:
        pass
    if os.path.islink(p):
        os.unlink(p)
    with open(p, "w", encoding="utf-8") as f:
        f.write(t)

def mirror(path, own):
    dst = os.path.join(WS, path)
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(os.path.join(REPO, path))) - set(own) - {".git", "target"}
    for name in os.listdir(dst):
        p = os.path.join(dst, name)
        if os.path.islink(p) and (name not in names or os.readlink(p) != os.path.join(REPO, path, name)):
            os.unlink(p)
    for name in names:
        p = os.path.join(dst, name)
        if not os.path.lexists(p):
            os.symlink(os.path.join(REPO, path, name), p)

root = read("Cargo.toml")
m = re.search(r"^\[workspace\.package\]\n.*?(?=^\[|\Z)", root, re.M | re.S)
write("Cargo.toml", '[workspace]\nresolver = "2"\nmembers = ["mrp", "protobuf", "src/rust"]\n\n' + (m.group(0) if m else ""))
mirror("mrp", [])
mirror("protobuf", [])
mirror("src/rust", ["Cargo.toml", "build.rs"])
t = read("src/rust/Cargo.toml")
t = re.sub(r"^\[\[(?:bin|test)\]\]\n.*?(?=^\[|\Z)", "", t, flags=re.M | re.S)
t = re.sub(r"^libsignal-core\s*=[^\n]*\n", "", t, flags=re.M)
stub = os.path.join(HERE, "stubs", "zkgroup")
t = re.sub(r"^zkgroup\s*=[^\n]*\n", f'zkgroup = {{ path = "{stub}" }}\n', t, flags=re.M)
t = t.replace("[package]\n", "[package]\nautobins = false\nautotests = false\n", 1)
t = re.sub(r"^crate-type\s*=[^\n]*\n", 'crate-type = ["lib"]\n', t, flags=re.M)
write("src/rust/Cargo.toml", t)
write("src/rust/build.rs", 'fn main() { println!("cargo:rerun-if-changed=build.rs"); }\n')
