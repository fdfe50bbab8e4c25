#!/usr/bin/env python3
"""Builds the workspace /verif/build/ws the checks compile: /repo's own crates, copied file by file
(a file is written only when its content differs, so cargo's change detection is exact whatever the
times say), next to the harness crates and the stand-ins for crates that are not available offline.

Source files are copied unchanged. Cargo.toml files lose their dev-dependencies, benches and
examples (these need crates that are not here), and nothing else."""

import os
import re
import shutil
import subprocess
import sys

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = f"{HERE}/build/ws"
# Only these parts of /repo are compiled; anything else is copied nowhere.
TOP = ("common/", "core/", "protocol/", "devtools/axon-tools/", "devtools/abi-generator/", "devtools/chain/", "devtools/metadata-cli/")


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def manifest(text):
    """Drops dev-dependencies, [[bench]] and [[example]] sections."""
    out = []
    for part in re.split(r"^(?=\[)", text, flags=re.M):
        if re.match(r"\[(dev-dependencies|\[bench|\[example|target\..*dev-dependencies)", part):
            continue
        out.append(part)
    return "".join(out)


def main():
    names = subprocess.run(
        ["git", "-c", "safe.directory=*", "ls-files", "-z", "--cached", "--others", "--exclude-standard"],
        cwd=REPO, check=True, capture_output=True, text=True).stdout.split("\0")
    want = {}
    for f in names:
        src = f"{REPO}/{f}"
        if not f or not f.startswith(TOP) or f.startswith("common/apm/") or not os.path.isfile(src):
            continue
        data = open(src, "rb").read()
        if f.endswith("Cargo.toml"):
            data = manifest(data.decode())
            if f == "core/run/Cargo.toml":
                # the optional allocator and its profiling are left out
                data = "".join(p for p in re.split(r"^(?=\[)", data, flags=re.M) if not p.startswith(("[target.", "[features]")))
                data = re.sub(r"^common-memory-tracker .*\n", "", data, flags=re.M)
            data = data.encode()
        want[f] = data
    for top in ("harness", "shims"):
        base = f"{HERE}/{top}"
        for d, dirs, fs in os.walk(base):
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            for n in fs:
                p = f"{d}/{n}"
                rel = os.path.relpath(p, base)
                data = open(p, "rb").read()
                if rel == "workspace.toml":
                    want["Cargo.toml"] = data
                elif rel == "Cargo.lock":
                    continue
                else:
                    want[f"{top}/{rel}"] = data
    # core/network itself goes to core/network-itself (only harness/h-net compiles it); the
    # stand-ins for common/apm (metrics and tracing) and for core/network (under the crates that
    # need little of it) take their places
    for k in [k for k in want if k.startswith("core/network/")]:
        data = want.pop(k)
        if k == "core/network/Cargo.toml":
            data = data.replace(b'name = "core-network"', b'name = "core-network-itself"', 1)
        want["core/network-itself/" + k[len("core/network/"):]] = data
    for name, place in (("common-apm", "common/apm/"), ("core-network", "core/network/")):
        for k in [k for k in want if k.startswith(f"shims/{name}/")]:
            want[place + k[len(f"shims/{name}/"):]] = want.pop(k)
    os.makedirs(WS, exist_ok=True)
    for f, data in want.items():
        put(f"{WS}/{f}", data)
    lock = f"{HERE}/harness/Cargo.lock"
    if os.path.exists(lock):
        put(f"{WS}/Cargo.lock", open(lock, "rb").read())
    elif not os.path.exists(f"{WS}/Cargo.lock"):
        shutil.copy(f"{REPO}/Cargo.lock", f"{WS}/Cargo.lock")
    for d, dirs, fs in os.walk(WS, topdown=False):
        for n in fs:
            rel = os.path.relpath(f"{d}/{n}", WS)
            if rel not in want and rel != "Cargo.lock":
                os.unlink(f"{d}/{n}")
        if not os.listdir(d) and d != WS:
            os.rmdir(d)


if __name__ == "__main__":
    main()
