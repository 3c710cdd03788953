"""The crate's source after macro expansion, printed by the pinned rustc from /repo's current tree."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vx  # noqa: E402


def expanded():
    b = f"{os.path.dirname(HERE)}/build"
    subprocess.run([sys.executable, f"{HERE}/mkws.py"], check=True)
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="1.82-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.environ.get("VERIF_TARGET", f"{vx.REPO}/target"),
               CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
               RUSTC_WORKSPACE_WRAPPER=f"{HERE}/rustc_expand.sh", HOME="/root")
    p = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "-p", "tailcall", "--lib", "--", "-Zunpretty=expanded"],
                       cwd=f"{b}/ws", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or "impl" not in p.stdout:
        raise vx.Lost("macro expansion failed: " + p.stderr[-400:])
    f = f"{b}/expanded.rs"
    open(f, "w").write(p.stdout)
    return f
