#!/usr/bin/env python3
"""Builds the mirror workspace and every bounded stand-in once (the checks redo what they need)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
env = dict(os.environ)
env.update(HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), RUSTUP_TOOLCHAIN="1.82-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.environ.get("VERIF_TARGET", "/repo/target"),
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
subprocess.run([sys.executable, f"{HERE}/mkws.py"], check=True)
sys.exit(subprocess.run(["cargo", "build", "--offline", "--quiet", "--bins"], cwd=f"{V}/harness", env=env).returncode)
