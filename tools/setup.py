#!/usr/bin/env python3
"""Checks that the tools are here and prepares the build workspace; the checks build on their own."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import sync  # noqa: E402

sync.main()
e = dict(os.environ, RUSTUP_TOOLCHAIN="1.72", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
sys.exit(subprocess.run(["cargo", "--version"], env=e).returncode)
