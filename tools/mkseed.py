#!/usr/bin/env python3
"""Lays out /verif/seeded/ID from the demonstration in seeded/ID/demo/src/main.rs: the crate around
it and the stand-ins it needs, so that the folder works wherever it lies.
usage: mkseed.py ID..."""
import os, shutil, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    d = R + "/seeded/" + i
    demo = d + "/demo"
    os.makedirs(demo + "/src", exist_ok=True)
    shutil.copy(R + "/tools/seed/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(R + "/tools/seed/common.rs", demo + "/src/common.rs")
    t = open(R + "/harness/Cargo.toml").read()
    t = t.replace('name = "harness"', 'name = "demo"').replace('"/repo"', '"@REPO@"').replace("../standins", "standins").replace('[lib]\ncrate-type = ["rlib"]\n', "")
    shutil.rmtree(demo + "/ffi", ignore_errors=True)
    if i.startswith("c22"):
        os.makedirs(demo + "/ffi")
        f = open(R + "/harness/ffi/Cargo.toml").read().replace('"/repo', '"@REPO@').replace("../../standins", "../standins")
        open(demo + "/ffi/Cargo.toml", "w").write(f)
    else:
        t = t.replace(', "dep:snips-nlu-ffi"', "").replace('snips-nlu-ffi = { path = "ffi", optional = true }\n', "")
    open(demo + "/Cargo.toml", "w").write(t)
    shutil.rmtree(demo + "/standins", ignore_errors=True)
    shutil.copytree(R + "/standins", demo + "/standins")
    shutil.copy(R + "/harness/Cargo.lock", demo + "/Cargo.lock")
    s = open(demo + "/Cargo.lock").read().replace('name = "harness"', 'name = "demo"')
    open(demo + "/Cargo.lock", "w").write(s)
    os.makedirs(demo + "/.cargo", exist_ok=True)
    c = open(R + "/harness/.cargo/config.toml").read().replace("../standins", "standins")
    open(demo + "/.cargo/config.toml", "w").write(c)
