#!/usr/bin/env python3
"""coverage.py [OUT]: runs the quick histories of all properties with an instrumented harness and lists the lines of the
library that none of them executes (a measure of the generators; no verdict)."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import gen, models, run
work = tempfile.mkdtemp(prefix="gbv-cov-")
try:
    env = dict(os.environ, CARGO_TARGET_DIR=work + "/target", RUSTFLAGS="-C instrument-coverage", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               LLVM_PROFILE_FILE=work + "/build.profraw")
    subprocess.run(["cargo", "build", "--offline", "-q"], cwd=run.HARNESS, env=env, check=True, stderr=subprocess.DEVNULL)
    binary = work + "/target/debug/gbharness"
    for pid in sorted(gen.PROPS):
        cases = gen.generate(pid, "quick", 1) + models.scripts(pid, "quick", work, gen.Gen(pid, "quick", 1))[0]
        os.environ["LLVM_PROFILE_FILE"] = f"{work}/{pid}.profraw"
        run.execute(binary, cases, work, pid)
    tools = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin"))[0]
    subprocess.run([tools + "/llvm-profdata", "merge", "-sparse", *glob.glob(work + "/C*.profraw"), "-o", work + "/all.profdata"], check=True)
    p = subprocess.run([tools + "/llvm-cov", "show", binary, "-instr-profile=" + work + "/all.profdata", "-show-instantiations=false", *sorted(glob.glob("/repo/src/**/*.rs", recursive=True))],
                       check=True, stdout=subprocess.PIPE, text=True)
    r = subprocess.run([tools + "/llvm-cov", "report", binary, "-instr-profile=" + work + "/all.profdata", *sorted(glob.glob("/repo/src/**/*.rs", recursive=True))],
                       check=True, stdout=subprocess.PIPE, text=True)
    print(r.stdout)
    with open(sys.argv[1] if len(sys.argv) > 1 else "/dev/stdout", "w") as f:
        for line in p.stdout.splitlines():
            w = line.split("|")
            if line.endswith(".rs:") or (len(w) > 2 and w[1].strip() == "0"):
                f.write(line + "\n")
finally:
    shutil.rmtree(work, ignore_errors=True)
