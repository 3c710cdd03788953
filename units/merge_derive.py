"""Writes the unit for the derived merges: one contract per struct that derives
MergeRight, on the code the derive macro really produces (macro-expanded source).
Each field's type becomes a type parameter that implements MergeRight: the
contract says every field is the merge of that field of both sides."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import expand  # noqa: E402
import vx  # noqa: E402

WANT = ["Cors", "Alias", "Cache", "Discriminate", "Modify", "Omit", "Protected", "Server", "Routes", "ScriptOptions",
        "HttpVersion", "Batch", "Proxy", "Upstream", "Headers"]


def walk(toks, lo, hi):
    for it in vx.items(toks, lo, hi):
        yield it
        if it.kind == "mod" and it.body:
            yield from walk(toks, it.body[0] + 1, it.body[1])


def main():
    src, toks = vx.source(expand.expanded())
    impls, types = {}, {}
    for it in walk(toks, 0, len(toks)):
        if it.kind == "impl":
            m = re.fullmatch(r"impl(?:<>)?\s*(?:[\w:]*::)?MergeRight for (?:[\w:]*::)?(\w+)(?:<>)?", it.name)
            if m and m.group(1) in WANT:
                impls.setdefault(m.group(1), []).append(it)
        elif it.kind in ("struct", "enum") and it.name in WANT:
            types.setdefault(it.name, []).append(it)
    out = ["#![allow(unused)]", "use vstd::prelude::*;", "verus! {",
           "pub trait MergeRight: Sized {", "    spec fn merged(self, other: Self, r: Self) -> bool;",
           "    fn merge_right(self, other: Self) -> (r: Self) ensures Self::merged(self, other, r);", "}",
           "// contract of merge_right_vars, discharged in unit merge_vars",
           "pub uninterp spec fn vars_merged<V>(a: V, b: V, r: V) -> bool;",
           "#[verifier::external_body] pub fn merge_right_vars<V>(a: V, b: V) -> (r: V) ensures vars_merged(a, b, r) { unimplemented!() }"]
    for n in WANT:
        if len(impls.get(n, [])) != 1:
            raise vx.Lost(f"{len(impls.get(n, []))} MergeRight impls for {n} in the expanded source")
        # `Cache` names more than one type: the one beside the impl
        ii = impls[n][0]
        ts = sorted(types.get(n, []), key=lambda t: abs(t.lo - ii.lo))
        if not ts:
            raise vx.Lost(f"type {n} not found")
        t = ts[0]
        body = src[toks[ii.body[0]].a: toks[ii.body[1]].b]
        if t.kind == "enum":
            text = vx.strip_comments_attrs(src, toks, t.lo, t.hi)
            out.append(f"pub mod d_{n} {{ use super::*; pub {text}")
            out.append(f"impl MergeRight for {n} {{ open spec fn merged(self, other: Self, r: Self) -> bool {{ r == other }}")
            out.append(fn(n, body) + "\n}\n}")
            continue
        fields = named_fields(src, toks, t)
        params = ", ".join(f"T{i}: MergeRight" if not f[1] else f"T{i}" for i, f in enumerate(fields))
        args = ", ".join(f"T{i}" for i in range(len(fields)))
        lt = f"<{params}>" if fields else ""
        ar = f"<{args}>" if fields else ""
        out.append(f"pub mod d_{n} {{ use super::*; pub struct {n}{lt} {{ " + ", ".join(f"pub {f[0]}: T{i}" for i, f in enumerate(fields)) + " }")
        rel = " && ".join((f"T{i}::merged(self.{f[0]}, other.{f[0]}, r.{f[0]})" if not f[1] else f"vars_merged(self.{f[0]}, other.{f[0]}, r.{f[0]})") for i, f in enumerate(fields)) or "true"
        out.append(f"impl{lt} MergeRight for {n}{ar} {{ open spec fn merged(self, other: Self, r: Self) -> bool {{ {rel} }}")
        out.append(fn(n, body) + "\n}\n}")
    out += ["}", "fn main() {}"]
    print("\n".join(out))


def fn(n, body):
    # the impl's own text goes through the extractor: a scratch file holds just it
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "units")
    os.makedirs(d, exist_ok=True)
    p = f"{d}/derived_{n}.txt"
    open(p, "w").write(body[1:-1])
    return f"//@ fn {p} :: fn merge_right vis=none"


def named_fields(src, toks, t):
    """[(name, has merge_right_fn)]"""
    out, i = [], t.body[0] + 1 if t.body else t.hi
    while t.body and i < t.body[1]:
        own = False
        while toks[i].s == "#":
            e = vx.match(toks, i + 1)
            a = "".join(x.s for x in toks[i + 2:e])
            if a.startswith("merge_right("):
                if 'merge_right_fn="merge_right_vars"' not in a:
                    raise vx.Lost(f"{t.name}: own merge function in {a}")
                own = True
            i = e + 1
        if toks[i].s == "pub":
            i += 1
            if toks[i].s == "(":
                i = vx.match(toks, i) + 1
        out.append((toks[i].s, own))
        d = 0
        while i < t.body[1] and not (toks[i].s == "," and d == 0):
            if toks[i].s in "([{":
                i = vx.match(toks, i)
            elif toks[i].s == "<":
                d += 1
            elif toks[i].s == ">":
                d -= 1
            i += 1
        i += 1
    return out


if __name__ == "__main__":
    try:
        main()
    except vx.Lost as e:
        sys.exit(f"Lost: {e}")
