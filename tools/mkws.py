#!/usr/bin/env python3
"""Lays out /verif/build/ws: the part of the /repo workspace that builds without the
three git dependencies that are not available (as /opt/vp/mkws.py does).

Every source file in it is a symlink into /repo. Only these are generated, from
the files in /repo as they are now, and only by leaving lines out and by making
items visible (`mod x;` -> `pub mod x;`, and the `fn`s and fields named in EXPOSE):
  - Cargo.toml: the git dependencies, the members and targets that need them;
  - the mod.rs/lib.rs above a left-out module: its `mod x;` and `use x::..;`.
Cargo.lock is /repo's, from which cargo itself drops the unused packages."""
import os
import re
import shutil
import sys
import tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.environ.get("VERIF_WS", "/verif/build/ws")

# workspace members left out (they need posthog-rs, or the modules below)
DROP_MEMBERS = {
    "tailcall-tracker",
    "tailcall-aws-lambda",
    "tailcall-cloudflare",
    "tailcall-wasm",
    "tailcall-typedefs",
}
# dependencies left out of the root package, and their dep: feature entries
DROP_DEPS = {"genai", "htpasswd-verify", "tailcall-tracker", "async-graphql-extension-apollo-tracing"}
# modules of the root package left out: path below src/, without .rs
HERE = os.path.dirname(os.path.abspath(__file__))
DROP_MODULES = open(f"{HERE}/left_out_modules.txt").read().split()
# re-exports (`use a::B;` in a mod.rs) of things in them: "mod.rs-below-src a::B"
DROP_REEXPORTS = {}
for line in open(f"{HERE}/left_out_reexports.txt"):
    if line.strip():
        DROP_REEXPORTS.setdefault(line.split()[0], []).append(line.split()[1])
# whole items of src/core/mod.rs left out because they name left-out modules:
# the HttpIO trait (http::Response), the EntityCache alias (ir::model::IoId) and the
# test test_include_config (config::Config)
DROP_CORE_ITEMS = [
    r"(?m)^use http::Response;\n",
    r"(?m)^use ir::model::IoId;\n",
    r"(?m)^pub type EntityCache\b[^;]*;\n",
    r"(?m)^#\[async_trait::async_trait\]\npub trait HttpIO\b[^{]*\{\n(?:[ \t][^\n]*\n|\n)*\}\n",
    r"(?m)^    #\[test\]\n    fn test_include_config\(\) \{\n(?:        [^\n]*\n|\n)*    \}\n",
]
# integration test targets left out
DROP_TESTS = {"execution_spec", "server_spec", "jit_spec", "expression_spec", "cli_spec", "json_to_config_spec"}


# private items the bounded stand-ins call: file below src -> function names
# (`*` in front of a name that may be missing is not needed: all are optional)
EXPOSE = {
    "core/config/directives/server.rs": ["merge_right_vars"],
    "core/json/mod.rs": [],
    "core/rest/directive.rs": [],
    "core/rest/path.rs": ["parse", "matches"],
    "core/rest/query_params.rs": ["matches"],
    "core/rest/typed_variables.rs": ["to_value"],
}
# directories whose mod.rs is written out only to make its modules visible
OPEN_DIRS = ["core/cache", "core/data_loader", "core/auth", "core/auth/jwt", "core/http/transformations", "core/ir/discriminator"]


def opened(text):
    return re.sub(r"(?m)^([ \t]*)(?:pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+)[ \t]*;", r"\1pub mod \2;", text)


def exposed(rel, text):
    text = re.sub(r"\bpub\s*\(\s*(?:crate|super)\s*\)", "pub", text)
    for f in EXPOSE.get(rel, []):
        text = re.sub(rf"(?m)^([ \t]*)((?:async[ \t]+)?fn[ \t]+{f}\b)", r"\1pub \2", text)
    return text


def put(path, text):
    """Writes only on change, so that cargo's mtimes stay."""
    if os.path.islink(path):
        os.unlink(path)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    elif os.path.exists(dst):
        os.unlink(dst)
    os.symlink(src, dst)


def manifest():
    text = open(f"{REPO}/Cargo.toml").read()
    for d in DROP_DEPS:
        text = re.sub(rf"(?m)^{re.escape(d)}\s*=.*\n", "", text)
        text = re.sub(rf'(?m)^\s*"dep:{re.escape(d)}",\n', "", text)
    for m in DROP_MEMBERS:
        text = re.sub(rf'(?m)^\s*"{m}",\n', "", text)
    # targets that need left-out modules: the binary, the bench, some tests
    out = []
    for block in re.split(r"(?m)^(?=\[)", text):
        if block.startswith(("[[bin]]", "[[bench]]")):
            continue
        if block.startswith("[[test]]"):
            if re.search(r'name\s*=\s*"(.*?)"', block).group(1) in DROP_TESTS:
                continue
        if block.startswith("[package]"):
            block = block.rstrip() + "\nautobins = false\nautobenches = false\nautoexamples = false\n\n"
        if re.match(r"\[profile\.release\.package\.(.*?)\]", block):
            continue
        out.append(block)
    text = "".join(out)
    left = tomllib.loads(text)
    for d in DROP_DEPS:
        assert d not in left["dependencies"], d
    return text


def without(text, name):
    attr = r"(?:[ \t]*#\[[^\n]*\]\n)*"
    vis = r"(?:pub(?:\([^)]*\))?[ \t]+)?"
    text = re.sub(rf"(?m)^{attr}[ \t]*{vis}mod[ \t]+{name}[ \t]*;[ \t]*\n", "", text)
    return re.sub(rf"(?m)^{attr}[ \t]*{vis}use[ \t]+(?:self::)?{name}::[^;]*;[ \t]*\n", "", text)


def without_reexport(text, path):
    mod, name = path.rsplit("::", 1)
    head = rf"^[ \t]*(?:pub(?:\([^)]*\))?[ \t]+)?use[ \t]+(?:self::)?{mod}::"
    text = re.sub(rf"(?m){head}{re.escape(name)}[ \t]*;[ \t]*\n", "", text)

    def some(m):
        names = [n.strip() for n in m.group(2).split(",") if n.strip() and n.strip() != name]
        return f"{m.group(1)}{{{', '.join(names)}}};\n" if names else ""

    return re.sub(rf"(?m)({head})\{{([^}}]*)\}}[ \t]*;[ \t]*\n", some, text)


def main():
    os.makedirs(WS, exist_ok=True)
    put(f"{WS}/Cargo.toml", manifest())
    # cargo prunes the lock file; start again only when /repo's changes
    lock = open(f"{REPO}/Cargo.lock").read()
    stamp = f"{WS}/.lock-from-repo"
    if not (os.path.exists(f"{WS}/Cargo.lock") and os.path.exists(stamp) and open(stamp).read() == lock):
        put(f"{WS}/Cargo.lock", lock)
        put(stamp, lock)

    keep = {"Cargo.toml", "Cargo.lock", ".lock-from-repo", "src", "tests"}
    for e in sorted(os.listdir(REPO)):
        if e in (".git", "target") or e in keep or e in DROP_MEMBERS or e == "rust-toolchain.toml":
            continue
        link(f"{REPO}/{e}", f"{WS}/{e}")
        keep.add(e)
    for e in os.listdir(WS):
        if e not in keep and os.path.islink(f"{WS}/{e}"):
            os.unlink(f"{WS}/{e}")

    os.makedirs(f"{WS}/tests", exist_ok=True)
    want = {e for e in os.listdir(f"{REPO}/tests") if not (e.endswith(".rs") and e[:-3] in DROP_TESTS)}
    for e in os.listdir(f"{WS}/tests"):
        if e not in want:
            os.unlink(f"{WS}/tests/{e}")
    for e in want:
        link(f"{REPO}/tests/{e}", f"{WS}/tests/{e}")

    src, dst = f"{REPO}/src", f"{WS}/src"
    dropped = set(DROP_MODULES)
    parents, realdirs = {}, {""}
    for m in dropped:
        if not (os.path.exists(f"{src}/{m}.rs") or os.path.isdir(f"{src}/{m}")):
            continue
        d, name = os.path.split(m)
        parents.setdefault(d, []).append(name)
        while d:
            realdirs.add(d)
            d = os.path.dirname(d)
    for m in DROP_REEXPORTS:
        d = os.path.dirname(m)
        while d and os.path.isdir(f"{src}/{d}") and d not in dropped:
            realdirs.add(d)
            d = os.path.dirname(d)
    for m in list(EXPOSE) + [f"{d}/mod.rs" for d in OPEN_DIRS]:
        d = os.path.dirname(m)
        while d and os.path.isdir(f"{src}/{d}") and d not in dropped:
            realdirs.add(d)
            d = os.path.dirname(d)
    for d in sorted(realdirs):
        s, t = os.path.join(src, d), os.path.join(dst, d)
        if os.path.islink(t):
            os.unlink(t)
        os.makedirs(t, exist_ok=True)
        names = set()
        for e in sorted(os.listdir(s)):
            rel = f"{d}/{e}" if d else e
            if rel in dropped or rel.removesuffix(".rs") in dropped and e.endswith(".rs"):
                continue
            if rel == "main.rs":
                continue
            names.add(e)
            if e == ("mod.rs" if d else "lib.rs"):
                text = open(os.path.join(s, e)).read()
                for r in DROP_REEXPORTS.get(rel, []):
                    text = without_reexport(text, r)
                for n in sorted(parents.get(d, [])):
                    text = without(text, n)
                if rel == "core/mod.rs":
                    for r in DROP_CORE_ITEMS:
                        text = re.sub(r, "", text)
                put(os.path.join(t, e), exposed(rel, opened(text)))
            elif rel in EXPOSE:
                put(os.path.join(t, e), exposed(rel, open(os.path.join(s, e)).read()))
            elif rel not in realdirs:
                link(os.path.join(s, e), os.path.join(t, e))
        for e in os.listdir(t):
            if e not in names:
                p = os.path.join(t, e)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)


if __name__ == "__main__":
    sys.exit(main())
