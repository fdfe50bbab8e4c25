#!/usr/bin/env python3
"""run.py ID: builds the harness of one property from /repo's current tree and runs its check.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
VERIF_SEED, VERIF_TIER as usual. Options: --replay FILE runs one saved case."""
import os
import shutil
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{HERE}/tools")
import sync  # noqa: E402
from pkgs import PKG  # noqa: E402

WS = f"{HERE}/build/ws"


def env(thorough):
    e = dict(os.environ)
    e.update({
        "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "RUSTUP_TOOLCHAIN": "1.72", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
        "CARGO_TARGET_DIR": f"{HERE}/build/target-cov" if thorough else f"{HERE}/build/target",
        "RUST_BACKTRACE": "0",
    })
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    if thorough:
        e["RUSTFLAGS"] = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
    return e


def warm(target):
    """Starts the target folder from what the repository's own build left, where that exists: the
    dependencies are the same, and cargo decides by itself what it can use. It only saves time."""
    src = "/opt/vp/ws-target/debug"
    if os.path.exists(target) or not os.path.isdir(src):
        return
    tmp = f"{target}.{os.getpid()}"
    try:
        for d in (".fingerprint", "build", "deps"):
            os.makedirs(f"{tmp}/debug/{d}")
            if d == "deps":
                keep = [n for n in os.listdir(f"{src}/deps") if n.endswith((".rlib", ".rmeta", ".so", ".d"))]
                for i in range(0, len(keep), 200):
                    subprocess.run(["cp", "-p", "-t", f"{tmp}/debug/deps"] + [f"{src}/deps/{n}" for n in keep[i:i + 200]], check=True)
            else:
                subprocess.run(["cp", "-a", f"{src}/{d}", f"{tmp}/debug/"], check=True)
        # but nothing of the repository's own crates, whose sources here are others than there
        for n in os.listdir(f"{tmp}/debug/.fingerprint"):
            if n.startswith(("axon", "common-", "core-", "abi-generator", "metadata-cli")):
                shutil.rmtree(f"{tmp}/debug/.fingerprint/{n}")
        os.rename(tmp, target)
    except (OSError, subprocess.CalledProcessError):
        shutil.rmtree(tmp, ignore_errors=True)


def build(pkg, e, thorough):
    pkg, _, feature = pkg.partition(":")
    if not thorough:
        warm(e["CARGO_TARGET_DIR"])
    cmd = ["cargo", "build", "-q", "--offline", "-p", pkg]
    if feature:
        cmd += ["--no-default-features", "--features", feature]
    if thorough:
        # with an explicit target, RUSTFLAGS does not reach build scripts and macros
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    r = subprocess.run(cmd, cwd=WS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-8000:], file=sys.stderr)
        print(f"ERROR: the harness {pkg} does not build on this tree", file=sys.stderr)
        sys.exit(2)
    mid = "x86_64-unknown-linux-gnu/debug" if thorough else "debug"
    return f"{e['CARGO_TARGET_DIR']}/{mid}/{pkg}"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    thorough = tier == "thorough"
    sync.main()
    e = env(thorough)
    pkg = PKG[prop]
    exe = build(pkg, e, thorough)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    replays = f"{HERE}/replays"
    scratch = f"{HERE}/build/scratch"
    os.makedirs(scratch, exist_ok=True)
    e["VERIF_SCRATCH"] = scratch
    base = [exe, "--prop", prop, "--tier", tier, "--seed", seed, "--known", f"{HERE}/known_findings.txt", "--replays", replays]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(subprocess.run([exe, "--known", f"{HERE}/known_findings.txt", "--replay", sys.argv[3]], env=e, cwd=scratch).returncode)
    cmd = base + ["--evidence", f"{HERE}/evidence/{prop}.json"]
    if not thorough and pkg in ("h-base", "h-tools"):
        # these cases are cheap
        cmd += ["--scale", "3"]
    if thorough:
        cmd += ["--guided-s", os.environ.get("VERIF_GUIDED_S", "120")]
    r = subprocess.run(cmd + sys.argv[2:], env=e, cwd=scratch)
    rc = r.returncode
    if rc in (0, 1):
        sys.exit(rc)
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
        sys.exit(crashed(prop, exe, base, e, seed, -rc, replays, scratch))
    print(f"ERROR: the check ended with status {rc}: no verdict", file=sys.stderr)
    sys.exit(2)


def crashed(prop, exe, base, e, seed, sig, replays, scratch):
    """The process died (stack overflow, abort): finds the case that kills it and reports it."""
    journal = f"{scratch}/{prop}.journal"
    subprocess.run(base + ["--threads", "1", "--journal", journal], env=e, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        facet, index = open(journal).read().split()
    except (OSError, ValueError):
        print("ERROR: the check died and the case could not be found", file=sys.stderr)
        return 2
    os.makedirs(replays, exist_ok=True)
    path = f"{replays}/{prop}-{facet}.replay"
    with open(path, "w") as f:
        f.write(f"property: {prop}\nfacet: {facet}\nseed: {seed}\nindex: {index}\nsig: crash\n---\nthe process is killed by signal {sig}\n")
    rr = subprocess.run([exe, "--known", f"{HERE}/known_findings.txt", "--replay", path], env=e, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if rr.returncode >= 0:
        print(f"ERROR: the check died (signal {sig}) but its case does not reproduce it", file=sys.stderr)
        return 2
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        f.write('{"property":"%s","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":%d,"distinct_nontrivial":1,"rule":"run stopped by a crash","samples":["facet %s case %s: signal %d"]},"wall_s":0,"violations":1}\n'
                % (prop, os.environ.get("VERIF_TIER", "quick"), seed, int(index) + 1, facet, index, -rr.returncode))
    print(f"property {prop} facet {facet} case {index}: the process is killed by signal {-rr.returncode}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    main()
