#!/usr/bin/env python3
"""plant.py SEEDFILE...: turns seed descriptions (tools/seeds/*.seed) into /verif/seeded/<id>/, after confirming in a
scratch copy that the change builds, passes the stable tests, and that the demonstration tells the two apart.

A seed file: header lines 'key: value' (id, property, needs, breaks), then blocks
=== file src/x.rs        (old text, line '-----', new text; the old text must occur exactly once)
=== demo                 (a Rust program; exits nonzero or panics when the property is broken)"""
import json, os, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCRATCH = "/tmp/plant-scratch"
DEMO = """#!/bin/bash
# Compiles the demonstration against the library built in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
T=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$T"' EXIT
rustc --edition 2021 -A warnings --extern graphbench=target/debug/libgraphbench.rlib -L dependency=target/debug/deps -o "$T/demo" "$D/demo.rs" || exit 3
cd "$T" && timeout 120 "$T/demo"
"""
PRE = """#![allow(unused_imports)]
use graphbench::{graph::*, iterators::*, editgraph::EditGraph, editdigraph::EditDigraph, ordgraph::OrdGraph, degengraph::*, reachgraph::*,
    dtfgraph::*, algorithms::*, operations::*, compare::*, io::*, datastructures::*};
use std::collections::{BTreeMap, BTreeSet};
fn eg(vs: &[u32], es: &[(u32, u32)]) -> EditGraph { let mut g = EditGraph::new(); g.add_vertices(vs.iter()); g.add_edges(es.iter()); g }
fn dg(vs: &[u32], es: &[(u32, u32)]) -> EditDigraph { let mut g = EditDigraph::new(); g.add_vertices(vs.iter()); g.add_arcs(es.iter()); g }
fn set<'a>(it: impl IntoIterator<Item = &'a u32>) -> BTreeSet<u32> { it.into_iter().copied().collect() }
"""


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def parse(path):
    text = open(path).read()
    head, *blocks = re.split(r"^=== ", text, flags=re.M)
    meta = dict(re.match(r"(\w+): (.*)", l).groups() for l in head.splitlines() if l.strip())
    edits, demo = [], ""
    for b in blocks:
        first, body = b.split("\n", 1)
        if first.startswith("file "):
            old, new = body.split("\n-----\n")
            edits.append((first[5:].strip(), old.strip("\n"), new.strip("\n")))
        else:
            demo = body
    return meta, edits, demo


ENV = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= PATH=$PATH:/root/.cargo/bin:/usr/local/bin; unset CARGO_TARGET_DIR RUSTFLAGS; "


def build():
    return sh(ENV + "cargo build --workspace --offline && cargo test --workspace --no-run --offline", SCRATCH)


def tests():
    return sh(ENV + "timeout -k 10 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", SCRATCH)


def main():
    if not os.path.isdir(SCRATCH):
        shutil.copytree(REPO, SCRATCH, symlinks=True)
    stable = set(re.findall(r'"([^"]+)"', json.dumps(json.load(open("/opt/vp/BASELINE.json")))))
    base = set(l.strip() for f in sh("git ls-tree -r --name-only eb26e50 src", REPO).stdout.split() for l in sh(f"git show eb26e50:{f}", REPO).stdout.splitlines())
    bad = 0
    for f in sys.argv[1:]:
        meta, edits, demo = parse(f)
        sid = meta["id"]
        sh("git checkout -q -- . && git fetch -q " + REPO + " HEAD && git reset -q --hard FETCH_HEAD", SCRATCH)
        out = os.path.join(V, "seeded", sid)
        def fail(why, text=""):
            nonlocal bad
            bad += 1
            print(f"FAIL {sid}: {why}\n{text[-1500:]}", flush=True)
        os.makedirs("/tmp/plant-demo", exist_ok=True)
        open("/tmp/plant-demo/demo.rs", "w").write(PRE + demo)
        open("/tmp/plant-demo/demo.sh", "w").write(DEMO)
        b = build()
        d = sh("bash /tmp/plant-demo/demo.sh", SCRATCH)
        if b.returncode or d.returncode:
            fail("demo fails on the unchanged tree", d.stdout)
            continue
        ok = True
        for name, old, new in edits:
            p = os.path.join(SCRATCH, name)
            s = open(p).read()
            if s.count(old) != 1:
                fail(f"{name}: text occurs {s.count(old)} times:\n{old}")
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        patch = sh("git diff", SCRATCH).stdout
        removed = [l[1:].strip() for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        if any(l and l not in base for l in removed):
            fail("touches lines that are not original: " + str([l for l in removed if l and l not in base]))
            continue
        b = build()
        if b.returncode:
            fail("does not build", b.stdout)
            continue
        t = tests()
        failed = [x for x in re.findall(r"^test (.*) \.\.\. FAILED", t.stdout, re.M)]
        hit = [x for x in failed if any(x.split(" ")[0] in s for s in stable)]
        if hit:
            fail(f"existing tests fail: {hit}")
            continue
        if failed:
            print("note: unstable tests failed:", failed)
        d = sh("bash /tmp/plant-demo/demo.sh", SCRATCH)
        if d.returncode in (0, 3):
            fail("demo does not notice", d.stdout)
            continue
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        shutil.copy("/tmp/plant-demo/demo.rs", out)
        shutil.copy("/tmp/plant-demo/demo.sh", out)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(f"ok {sid}", flush=True)
    return 1 if bad else 0


sys.exit(main())
