#!/usr/bin/env python3
"""Lays out /verif/build/full: the whole of /repo's library, to build without its
command line (--no-default-features) and without the git dependencies that are not
available. Every source file in it is a symlink into /repo, except
  - Cargo.toml: the git dependencies, and the members and targets that need them, are
    left out; htpasswd-verify is the empty stand-in of /verif/harness/stubs;
  - each mod.rs and lib.rs, and the files in EXPOSE: private modules, functions and
    fields are made visible to the harness, nothing else is changed."""
import os
import re
import shutil
import sys

import mkws
from mkws import REPO, link, opened, put

WS = os.environ.get("VERIF_FULL", "/verif/build/full")
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/stubs/htpasswd-verify")
DROP_MEMBERS = mkws.DROP_MEMBERS
DROP_DEPS = mkws.DROP_DEPS - {"htpasswd-verify"}
# file below src -> (private functions, private fields of structs)
EXPOSE = {
}


def manifest():
    text = open(f"{REPO}/Cargo.toml").read()
    for d in DROP_DEPS:
        text = re.sub(rf"(?m)^{re.escape(d)}\s*=.*\n", "", text)
        text = re.sub(rf'(?m)^\s*"dep:{re.escape(d)}",\n', "", text)
    text = re.sub(r"(?m)^htpasswd-verify\s*=.*\n", f'htpasswd-verify = {{ path = "{STUB}" }}\n', text)
    for m in DROP_MEMBERS:
        text = re.sub(rf'(?m)^\s*"{m}",\n', "", text)
    out = []
    for block in re.split(r"(?m)^(?=\[)", text):
        if block.startswith(("[[bin]]", "[[bench]]", "[[test]]")) or re.match(r"\[profile\.release\.package\.(.*?)\]", block):
            continue
        if block.startswith("[package]"):
            block = block.rstrip() + "\nautobins = false\nautobenches = false\nautoexamples = false\nautotests = false\n\n"
        out.append(block)
    return "".join(out)


def exposed(rel, text):
    fns, fields = EXPOSE.get(rel, ((), ()))
    text = re.sub(r"\bpub\s*\(\s*(?:crate|super)\s*\)", "pub", text)
    for f in fns:
        text = re.sub(rf"(?m)^([ \t]*)((?:async[ \t]+)?(?:fn|struct)[ \t]+{f}\b)", r"\1pub \2", text)
    for f in fields:
        text = re.sub(rf"(?m)^([ \t]+)({f}[ \t]*:[^:\n][^\n]*,[ \t]*)$", r"\1pub \2", text)
    return text


def tree(src, dst, rel=""):
    os.makedirs(dst, exist_ok=True)
    names = set()
    for e in sorted(os.listdir(src)):
        s, t, r = f"{src}/{e}", f"{dst}/{e}", f"{rel}/{e}" if rel else e
        if r == "main.rs" or r == "cli":
            continue
        names.add(e)
        if os.path.isdir(s):
            if os.path.islink(t):
                os.unlink(t)
            tree(s, t, r)
        elif e in ("mod.rs", "lib.rs"):
            put(t, exposed(r, opened(open(s).read())))
        elif r in EXPOSE:
            put(t, exposed(r, open(s).read()))
        else:
            link(s, t)
    for e in os.listdir(dst):
        if e not in names:
            p = f"{dst}/{e}"
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)


def main():
    os.makedirs(WS, exist_ok=True)
    put(f"{WS}/Cargo.toml", manifest())
    lock = open(f"{REPO}/Cargo.lock").read()
    stamp = f"{WS}/.lock-from-repo"
    if not (os.path.exists(f"{WS}/Cargo.lock") and os.path.exists(stamp) and open(stamp).read() == lock):
        put(f"{WS}/Cargo.lock", lock)
        put(stamp, lock)
    keep = {"Cargo.toml", "Cargo.lock", ".lock-from-repo", "src"}
    for e in sorted(os.listdir(REPO)):
        if e in (".git", "target", "tests", "rust-toolchain.toml") or e in keep or e in DROP_MEMBERS:
            continue
        link(f"{REPO}/{e}", f"{WS}/{e}")
        keep.add(e)
    for e in os.listdir(WS):
        if e not in keep and os.path.islink(f"{WS}/{e}"):
            os.unlink(f"{WS}/{e}")
    tree(f"{REPO}/src", f"{WS}/src")


if __name__ == "__main__":
    sys.exit(main())
