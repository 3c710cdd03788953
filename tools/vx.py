"""Mechanical extraction: builds a Verus file from a unit template and the
current text of /repo.

A template is Verus text in which lines starting with `//@` are directives.

  //@ item FILE :: PATH            copies an enum/struct/const/trait/type item
                                   (outer+inner attributes, doc comments and
                                   visibility of the item kept as stated below)
  //@ fn FILE :: PATH [key=val..]  copies a function; may be followed by
  //@   spec ...                     text put between signature and body
  //@   start ...                    text put at the start of the body
  //@   end ...                      text put at the end of a unit-valued body
  //@   tail ...                     the tail expression e becomes `let ret_ = e; ... ret_`
  //@   loop N [it=x] ...            text put between the N-th loop's header and its body
  //@   before N / after N ...       proof text before/after the N-th loop
  //@   loopstart N / loopend N ...  proof text at start/end of the N-th loop's body
  //@   closure N|/RX/ HEADER        HEADER replaces `|params|` of the N-th closure
                                   ($0,$1.. are the source's own parameter patterns)
  //@   closurelet N HEADER          the same; HEADER names the parameters a0,a1.. and the body
                                   starts with `let PATTERN = a0; ..`
  //@   sub /REGEX/ => TEXT          stated rewrite, applied to the copied text (must match)
  //@   opt /REGEX/ => TEXT          the same, may match nothing
  //@   |...                         continuation of the previous directive
  //@   only=X on a fn line: left out where the including line says ONLY=other
  //@ fns FILE :: IMPL [skip=a,b]  copies every function of an impl, each as with `fn`
  //@ rewrite /REGEX/ => TEXT      an `opt` for every function copied below
  //@ impl-fns FILE :: IMPL = a b c  the impl holds exactly these functions
  //@ absent FILE :: PATH          the item must not exist
  //@ text FILE /REGEX/             the file's token text must match

What every copy drops or changes, always:
  - attributes and doc comments, and `pub`/`pub(..)` in front of the item becomes `pub`
  - `async fn` -> `fn` and `.await` -> nothing (sequential reading), only with async=drop
  - `mut self` receiver -> `self` plus `let mut this_ = self;` and self -> this_ in the body
  - in a `for`, `if C { continue; } REST` -> `if !(C) { REST }`, and
    `let P = E else { continue; }; REST` -> `if let P = E { REST }`
  - the return type gets a name: `-> T` becomes `-> (r: T)`
"""
import os
import re

REPO = os.environ.get("VERIF_REPO", "/repo")


class Lost(Exception):
    """An anchor of the contract was not found: the proof cannot be redone."""


# ---------------------------------------------------------------- tokens
TOK = re.compile(
    r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<raw>b?r(?P<h>\#*)")
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<op>->|=>|::|\.\.=|\.\.\.|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|\|=|&=|.)
""",
    re.X | re.S,
)


class T:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s}"


def lex(src):
    """Tokens without white space and comments."""
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if m.group("raw") is not None:
            end = src.index('"' + m.group("h"), m.end()) + 1 + len(m.group("h"))
            out.append(T("str", src[i:end], i, end))
            i = end
            continue
        if k == "bc":
            d, j = 1, i + 2
            while d:
                o, c = src.find("/*", j), src.find("*/", j)
                if c < 0:
                    raise Lost("unterminated comment")
                if 0 <= o < c:
                    d, j = d + 1, o + 2
                else:
                    d, j = d - 1, c + 2
            i = j
            continue
        if k not in ("ws", "lc"):
            out.append(T(k, m.group(), m.start(), m.end()))
        i = m.end()
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].s in OPEN and toks[j].k == "op":
            d += 1
        elif toks[j].s in CLOSE and toks[j].k == "op":
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced brackets")


def norm(s):
    out, prev = [], ""
    for t in lex(s):
        if prev and (prev[-1].isalnum() or prev[-1] == "_") and (t.s[0].isalnum() or t.s[0] in "_'"):
            out.append(" ")
        out.append(t.s)
        prev = t.s
    return re.sub(r",(?=[)}>\]])", "", "".join(out))


class Item:
    def __init__(self, kind, name, toks, lo, hi, attrs, body):
        self.kind, self.name, self.toks = kind, name, toks
        self.lo, self.hi, self.attrs, self.body = lo, hi, attrs, body  # token indexes, hi inclusive


KINDS = {"fn", "struct", "enum", "impl", "trait", "mod", "const", "static", "type", "use", "macro_rules", "union", "extern"}


def items(toks, lo, hi):
    i = lo
    while i < hi:
        attrs, start = [], i
        while i < hi and toks[i].s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            e = match(toks, j)
            attrs.append("".join(t.s for t in toks[j + 1:e]))
            i = e + 1
        if i >= hi:
            return
        if toks[i].s == "pub":
            i += 1
            if toks[i].s == "(":
                i = match(toks, i) + 1
        begin = i
        while toks[i].s in ("async", "unsafe", "default", "extern") or toks[i].k == "str" or (
            toks[i].s == "const" and toks[i + 1].s in ("fn", "async", "unsafe")
        ):
            i += 1
        kw = toks[i].s
        if kw not in KINDS:
            # macro call or something else: skip to ; or a closing brace
            j = i
            while j < hi and toks[j].s not in (";",):
                if toks[j].s in OPEN:
                    k = match(toks, j)
                    if toks[j].s == "{":
                        j = k
                        break
                    j = k
                j += 1
            yield Item("other", kw, toks, i, min(j, hi - 1), attrs, None)
            i = j + 1
            continue
        # find the end
        j, body = i + 1, None
        while True:
            if j >= hi:
                raise Lost("item without end")
            s = toks[j].s
            if s == ";" :
                break
            if s == "{" and kw != "use" and kw not in ("const", "static", "type"):
                body = (j, match(toks, j))
                j = body[1]
                break
            if s in OPEN:
                j = match(toks, j)
            j += 1
        if kw == "struct" and body is None:
            pass
        if kw == "impl":
            name = norm_toks(toks[i:body[0]])
        elif kw == "macro_rules":
            name = toks[i + 2].s
        elif kw == "use":
            name = norm_toks(toks[i + 1:j])
        else:
            name = toks[i + 1].s
        yield Item(kw, name, toks, begin, j, attrs, body)
        i = j + 1
    return


def norm_toks(ts):
    out, prev = [], ""
    for t in ts:
        if prev and (prev[-1].isalnum() or prev[-1] == "_") and (t.s[0].isalnum() or t.s[0] in "_'"):
            out.append(" ")
        out.append(t.s)
        prev = t.s
    return re.sub(r",(?=[)}>\]])", "", "".join(out))


def is_test(it):
    return any(re.match(r"cfg\(.*\btest\b", a) or a == "test" for a in it.attrs)


_cache = {}
USED = {}


def source(path):
    p = path if path.startswith("/") else os.path.join(REPO, path)
    if p not in _cache:
        try:
            src = open(p, encoding="utf-8").read()
        except OSError as e:
            raise Lost(f"{path}: {e.strerror}")
        _cache[p] = (src, lex(src))
    return _cache[p]


def find(file, path):
    """PATH: `enum X`, `fn f`, `impl HEADER :: fn f`, `trait X :: fn f`, `mod m :: fn f`"""
    src, toks = source(file)
    lo, hi = 0, len(toks)
    parts = [p.strip() for p in re.split(r"\s::\s", path)]
    it = None
    for n, part in enumerate(parts):
        kind, _, name = part.partition(" ")
        if kind.startswith("impl"):
            kind, name = "impl", norm(part)
        cands = []
        for c in items(toks, lo, hi):
            if is_test(c) or c.kind != kind:
                continue
            if kind == "impl":
                # the where clause need not be repeated in the template
                if c.name == name or c.name.split("where")[0].strip() == name:
                    cands.append(c)
            elif c.name == name.strip():
                cands.append(c)
        if n + 1 < len(parts) and len(cands) > 1:
            # several impl blocks with one header: the one that has the next part
            k2, _, n2 = parts[n + 1].partition(" ")
            cands = [c for c in cands if any(x.kind == k2 and x.name == n2 for x in items(toks, c.body[0] + 1, c.body[1]))]
        if len(cands) != 1:
            raise Lost(f"{file}: `{part}` found {len(cands)} times")
        it = cands[0]
        if n + 1 < len(parts):
            if not it.body:
                raise Lost(f"{file}: `{part}` has no body")
            lo, hi = it.body[0] + 1, it.body[1]
    return src, it


# ---------------------------------------------------------------- edits
def strip_comments_attrs(src, toks, lo, hi):
    """source text of tokens lo..hi with comments and #[..] attributes removed;
    layout otherwise kept"""
    out, pos, i = [], toks[lo].a, lo
    while i <= hi:
        t = toks[i]
        if t.s == "#" and i + 1 <= hi and toks[i + 1].s in ("[", "!"):
            j = i + 1 if toks[i + 1].s == "[" else i + 2
            if toks[j].s == "[":
                e = match(toks, j)
                out.append(gap(src[pos:t.a]))
                pos = toks[e].b
                i = e + 1
                continue
        out.append(gap(src[pos:t.a]))
        out.append(t.s)
        pos = t.b
        i += 1
    return "".join(out)


def gap(s):
    """white space between tokens, comments dropped"""
    if "/" not in s:
        return s
    return "\n" if "\n" in s else " "


def apply(text, edits):
    for a, b, new in sorted(edits, key=lambda e: (e[0], e[1]), reverse=True):
        text = text[:a] + new + text[b:]
    return text


EXPR_START = {"(", ",", "=", "{", ";", "return", "=>", "move", "&&", "||", "[", "}", "&", "else", ":"}


def loops(toks, lo, hi, every=False):
    out = []
    for i in range(max(lo, 1), hi):
        t = toks[i]
        if t.k == "id" and t.s in ("for", "while", "loop") and toks[i + 1].s != "<":
            prev = toks[i - 1].s
            if not (prev in ("{", "}", ";", "=", "=>", ":") or prev == "return"):
                continue
            j = i + 1
            while toks[j].s != "{":
                if toks[j].s in ("(", "["):
                    j = match(toks, j)
                j += 1
            # a loop put there by a stated rewrite brings its own invariant
            if every or not any(x.s == "invariant" for x in toks[i:j]):
                out.append((i, j, match(toks, j)))
    return out


def closures(toks, lo, hi):
    """(index of the first |, index of the last |, body lo, body hi, [param texts])"""
    out, i = [], lo
    while i < hi:
        t = toks[i]
        if t.k == "op" and t.s in ("|", "||") and toks[i - 1].s in EXPR_START:
            if t.s == "||":
                e, params = i, []
            else:
                e, params, start, d = i + 1, [], i + 1, 0
                while toks[e].s != "|" or d:
                    if toks[e].s in ("(", "[", "{", "<"):
                        d += 1
                    elif toks[e].s in (")", "]", "}", ">"):
                        d -= 1
                    elif toks[e].s == "," and d == 0:
                        params.append((start, e))
                        start = e + 1
                    e += 1
                if start < e:
                    params.append((start, e))
            b = e + 1
            if toks[b].s == "->":
                raise Lost("closure with a written return type")
            if toks[b].s == "{":
                # a block body unless followed by something that continues it
                z = match(toks, b)
                isblock = toks[z + 1].s in (")", ",", ";", "}")
            else:
                isblock = False
            if not isblock:
                z, d = b, 0
                while True:
                    s = toks[z].s
                    if toks[z].k == "op" and s in OPEN:
                        z = match(toks, z)
                    elif toks[z].k == "op" and (s in CLOSE or s in (",", ";")):
                        z -= 1
                        break
                    z += 1
            out.append((i, e, b, z, isblock, params))
        i += 1
    return out


def tail_start(toks, b, be):
    """index of the first token of the tail expression of the block b..be"""
    i = start = b + 1
    while i < be:
        s = toks[i].s
        if toks[i].k == "op" and s in OPEN:
            e = match(toks, i)
            blockstmt = s == "{" and toks[start].s in ("for", "while", "loop", "if", "match", "{", "unsafe")
            i = e + 1
            if blockstmt and i < be and toks[i].s not in (".", "?", "else", "as", ")", ",", ";", "==", "!=", "&&", "||", "+"):
                # `if c {` .. the condition itself holds no block
                start = i
            continue
        if s == ";":
            start = i + 1
        i += 1
    return start


def copy_item(file, path, subs):
    src, it = find(file, path)
    text = strip_comments_attrs(src, it.toks, it.lo, it.hi)
    if it.kind == "struct":
        text = re.sub(r"\bpub\s*\((?:crate|super|in [^)]*)\)", "pub", text)
        # fields public: specifications outside the module mention them
        text = public_fields(text)
    USED.setdefault(file, []).append(path)
    return "pub " + dosubs(text, subs, path)


def public_fields(text):
    toks = lex(text)
    b = next((i for i, t in enumerate(toks) if t.s in ("{", "(")), None)
    if b is None:
        return text
    e = match(toks, b)
    edits, i, first = [], b + 1, True
    d = 0
    while i < e:
        if first and toks[i].s != "pub":
            edits.append((toks[i].a, toks[i].a, "pub "))
        first = False
        if toks[i].s in ("(", "[", "{"):
            i = match(toks, i)
        elif toks[i].s == "<":
            d += 1
        elif toks[i].s == ">":
            d -= 1
        elif toks[i].s == "," and d == 0:
            first = True
        i += 1
    return apply(text, edits)


def nest_continue(text):
    """in the body of a `for`: `if C { continue; } REST` -> `if !(C) { REST }`"""
    while True:
        toks = lex(text)
        done = True
        for i, t in enumerate(toks):
            if t.k != "id" or t.s not in ("if", "let") or toks[i + 1].s == "let" or toks[i - 1].s not in ("{", "}", ";"):
                continue
            j = i + 1
            while toks[j].s not in ("{", ";"):
                j = match(toks, j) + 1 if toks[j].s in ("(", "[") else j + 1
            if toks[j].s != "{" or [x.s for x in toks[j + 1:j + 4]] != ["continue", ";", "}"] or toks[j + 4].s == "else":
                continue
            if t.s == "let" and (toks[j - 1].s != "else" or toks[j + 4].s != ";"):
                continue
            # the innermost block around it, and the keyword that opens it
            d, k = 0, i - 1
            while k >= 0:
                if toks[k].k == "op" and toks[k].s in CLOSE:
                    d += 1
                elif toks[k].k == "op" and toks[k].s in OPEN:
                    if d == 0:
                        break
                    d -= 1
                k -= 1
            if not any(o == k for _, o, _ in loops_all(toks)):
                continue
            z = match(toks, k)
            text = apply(text, [
                (t.a, t.a, "if "), (toks[j - 1].a, toks[j + 4].b, "{ "), (toks[z].a, toks[z].a, "} "),
            ] if t.s == "let" else [
                (toks[i + 1].a, toks[j + 4].a, f"!({text[toks[i + 1].a:toks[j - 1].b]}) {{ "),
                (toks[z].a, toks[z].a, "} "),
            ])
            done = False
            break
        if done:
            return text


def loops_all(toks):
    return [x for x in loops(toks, 0, len(toks), True) if toks[x[0]].s == "for"]


def dosubs(text, subs, where):
    for opt, rx, new in subs:
        text2, n = re.subn(rx, new, text, flags=re.S)
        if n == 0 and not opt:
            raise Lost(f"{where}: rewrite /{rx}/ matches nothing")
        text = text2
    return text


def copy_fn(file, path, opts, d, probe=None):
    src, it = find(file, path)
    if it.kind != "fn" or not it.body:
        raise Lost(f"{path}: not a function with a body")
    USED.setdefault(file, []).append(path)
    text = strip_comments_attrs(src, it.toks, it.lo, it.hi)
    subs = [(s[0] == "opt", s[1], s[2]) for s in d if s[0] in ("sub", "opt")]
    text = dosubs(text, subs, path)
    if "continue" in text:
        text = nest_continue(text)
    if opts.get("async") == "drop":
        text = re.sub(r"^\s*async\s+fn\b", "fn", text)
        text = re.sub(r"\s*\.\s*await\b", "", text)
    toks = lex(text)
    # signature
    f = next(i for i, t in enumerate(toks) if t.s == "fn")
    p = f + 2
    if toks[p].s == "<":
        dd = 0
        while True:
            if toks[p].s == "<":
                dd += 1
            elif toks[p].s == ">":
                dd -= 1
            p += 1
            if dd == 0:
                break
    if toks[p].s != "(":
        raise Lost(f"{path}: signature not understood")
    pe = match(toks, p)
    b = pe + 1
    while toks[b].s != "{":
        if toks[b].s in ("(", "["):
            b = match(toks, b)
        b += 1
    be = match(toks, b)
    edits = []
    ret = opts.get("ret", "r")
    if toks[pe + 1].s == "->":
        a = pe + 2
        w = next((i for i in range(a, b) if toks[i].s == "where"), b)
        ty = text[toks[a].a:toks[w - 1].b]
        edits.append((toks[a].a, toks[w - 1].b, f"({ret}: {ty})"))
    if "name" in opts:
        edits.append((toks[f + 1].a, toks[f + 1].b, opts["name"]))
    starts = [s[1] for s in d if s[0] == "start"]
    # by-value mutable receiver
    sp = [t.s for t in toks[p + 1:p + 3]]
    if sp == ["mut", "self"]:
        edits.append((toks[p + 1].a, toks[p + 2].a, ""))
        starts.insert(0, "let mut this_ = self;")
        for t in toks[b + 1:be]:
            if t.k == "id" and t.s == "self":
                edits.append((t.a, t.b, "this_"))
    spec = "\n".join(s[1] for s in d if s[0] == "spec")
    edits.append((toks[b].a, toks[b].a, "\n" + spec + "\n"))
    st = "\n".join(starts)
    if probe is not None:
        st = st + f"\nassert(false); /*probe {probe}*/"
    if st:
        edits.append((toks[b].b, toks[b].b, " " + st + "\n"))
    en = "\n".join(s[1] for s in d if s[0] == "end")
    if en:
        edits.append((toks[be].a, toks[be].a, en + "\n"))
    tails = [s[1] for s in d if s[0] == "tail"]
    if tails:
        ts = tail_start(toks, b, be)
        if ts >= be:
            raise Lost(f"{path}: no tail expression")
        edits.append((toks[ts].a, toks[ts].a, "let ret_ = "))
        edits.append((toks[be - 1].b, toks[be - 1].b, ";\n" + "\n".join(tails) + "\nret_\n"))
    lps = loops(toks, b + 1, be)
    ann = [s for s in d if s[0] in ("loop", "before", "after", "loopstart", "loopend")]
    want = int(opts.get("loops", max([s[1] for s in ann], default=0)))
    if len(lps) != want:
        raise Lost(f"{path}: {len(lps)} loops, contract has invariants for {want}")
    for s in ann:
        kw, ob, oe = lps[s[1] - 1]
        if s[0] == "loop":
            if s[2].get("it"):
                ii, dd = kw + 1, 0
                while not (toks[ii].s == "in" and dd == 0):
                    if toks[ii].s in OPEN:
                        ii = match(toks, ii)
                    ii += 1
                edits.append((toks[ii].b, toks[ii].b, f" {s[2]['it']}: "))
                # `for (a, b) in e {` -> `for x in it: e { let (a, b) = x;`
                pat = text[toks[kw + 1].a:toks[ii - 1].b]
                if not re.fullmatch(r"[A-Za-z_]\w*", pat):
                    v = s[2].get("var", "elem_")
                    edits.append((toks[kw + 1].a, toks[ii - 1].b, v))
                    edits.append((toks[ob].b, toks[ob].b, f" let {pat} = {v};"))
            edits.append((toks[ob].a, toks[ob].a, "\n" + s[3] + "\n"))
        elif s[0] == "before":
            edits.append((toks[kw].a, toks[kw].a, s[3] + "\n"))
        elif s[0] == "after":
            edits.append((toks[oe].b, toks[oe].b, "\n" + s[3]))
        elif s[0] == "loopstart":
            edits.append((toks[ob].b, toks[ob].b + 0, " " + s[3]))
        elif s[0] == "loopend":
            edits.append((toks[oe].a, toks[oe].a, s[3] + "\n"))
    cl = [s for s in d if s[0] in ("closure", "closurelet")]
    if cl or "closures" in opts:
        cs = closures(toks, b + 1, be)
        if any(isinstance(s[1], str) for s in cl):
            # a contract for the closures of this function by what they say
            all_ = [" ".join(t.s for t in toks[c[2]:c[3] + 1]) for c in cs]
            chosen = [(next((s for s in cl if re.search(s[1], t)), None), k) for k, t in enumerate(all_)]
            cl = [(s[0], k + 1, s[2]) for s, k in chosen if s]
        else:
            want = int(opts.get("closures", max([s[1] for s in cl], default=0)))
            if len(cs) != want:
                raise Lost(f"{path}: {len(cs)} closures, contract has {want}")
        for s in cl:
            i, e, bb, z, isblock, params = cs[s[1] - 1]
            h = s[2]
            names = []
            for (u, v) in params:
                c = next((x for x in range(u, v) if toks[x].s == ":" ), v)
                names.append(text[toks[u].a:toks[c - 1].b])
            nparams = len(set(re.findall(r"\$(\d)", h)))
            if nparams and nparams != len(names):
                raise Lost(f"{path}: closure {s[1]} has {len(names)} parameters")
            h = re.sub(r"\$(\d)", lambda m: names[int(m.group(1))], h)
            lets = "".join(f"let {n} = a{k}; " for k, n in enumerate(names)) if s[0] == "closurelet" else ""
            if lets and isblock:
                edits.append((toks[bb].b, toks[bb].b, " " + lets))
            edits.append((toks[i].a, toks[e].b, h + " "))
            if not isblock:
                edits.append((toks[bb].a, toks[bb].a, "{ " + lets))
                edits.append((toks[z].b, toks[z].b, " }"))
    # closures' wrapping braces can share an offset with other edits: stable order
    edits = [(a, b2, n, k) for k, (a, b2, n) in enumerate(edits)]
    edits.sort(key=lambda e: (e[0], e[1], e[3]))
    out, pos = [], 0
    for a, b2, n, _ in edits:
        if a < pos:
            raise Lost(f"{path}: overlapping annotations")
        out.append(text[pos:a])
        out.append(n)
        pos = b2
    out.append(text[pos:])
    vis = "" if opts.get("vis") == "none" else "pub "
    at = "\n".join(s[1] for s in d if s[0] == "attr")
    return (at + "\n" if at else "") + vis + "".join(out).lstrip()


# ---------------------------------------------------------------- templates
def parse_sub(rest):
    m = re.match(r"/(.*)/\s*=>\s?(.*)\Z", rest, re.S)
    if not m:
        raise ValueError(f"bad rewrite: {rest}")
    return m.group(1), m.group(2)


def build(template, probe=False, defs=()):
    """-> (text, [functions under contract])"""
    body = open(template).read()
    for nm, val in defs:
        body = body.replace("$" + nm, val)
    lines = body.split("\n")
    out, fns, i, rewrites = [], [], 0, []
    while i < len(lines):
        ln = lines[i]
        m = re.match(r"\s*//@ (item|fns?|impl-fns|absent|text|include|rewrite)\b\s*(.*)", ln)
        if not m:
            out.append(ln)
            i += 1
            continue
        kind, rest = m.group(1), m.group(2)
        i += 1
        subs = []
        while i < len(lines):
            m2 = re.match(r"\s*//@\s{2,}(.*)", lines[i])
            if not m2:
                break
            t = m2.group(1)
            if t.startswith("|"):
                subs[-1] += "\n" + t[1:]
            else:
                subs.append(t)
            i += 1
        if kind == "rewrite":
            rewrites.append(("opt", *parse_sub(rest)))
            continue
        if kind == "include":
            inc, *ds = rest.split()
            o, f = build(os.path.join(os.path.dirname(template), inc), probe, [x.split("=", 1) for x in ds])
            out.append(o)
            fns += f
            continue
        if kind == "text":
            f, _, rx = rest.partition(" ")
            src, _ = source(f)
            if not re.search(rx.strip().strip("/"), norm(src)):
                raise Lost(f"{f}: text {rx} not found")
            continue
        file, _, path = rest.partition(" :: ")
        file = file.strip()
        if kind == "absent":
            try:
                find(file, path.strip())
            except Lost:
                continue
            raise Lost(f"{path} exists")
        if kind == "impl-fns":
            head, _, names = path.rpartition("=")
            src, it = find(file, head.strip())
            got = [x.name for x in items(it.toks, it.body[0] + 1, it.body[1]) if x.kind == "fn" and not is_test(x)]
            if sorted(got) != sorted(names.split()):
                raise Lost(f"{file}: {head.strip()} holds {got}, contract covers {names.split()}")
            continue
        ds = list(rewrites)
        for t in subs:
            w, _, r = t.partition(" ")
            if w in ("sub", "opt"):
                rx, new = parse_sub(r)
                ds.append((w, rx, new))
            elif w in ("loop", "before", "after", "loopstart", "loopend"):
                mm = re.match(r"(\d+)((?:\s+\w+=\w+)*)\s*(.*)\Z", r, re.S)
                o = dict(x.split("=") for x in mm.group(2).split())
                ds.append((w, int(mm.group(1)), o, mm.group(3)))
            elif w in ("closure", "closurelet"):
                mm = re.match(r"(\d+|/.*?/)\s+(.*)\Z", r, re.S)
                k = mm.group(1)
                ds.append((w, k[1:-1] if k.startswith("/") else int(k), mm.group(2)))
            elif w in ("spec", "start", "end", "attr", "tail"):
                ds.append((w, r))
            else:
                raise ValueError(f"{template}: directive {t}")
        opts = {}
        while True:
            mm = re.search(r"\s(\w+)=(\S+)\s*$", path)
            if not mm or mm.group(1) not in ("ret", "async", "name", "loops", "closures", "vis", "probe", "skip", "only"):
                break
            opts[mm.group(1)] = mm.group(2)
            path = path[: mm.start()]
        path = path.strip()
        only = dict(defs).get("ONLY")
        if only and opts.pop("only", only) != only:
            continue
        if kind == "item":
            out.append(copy_item(file, path, [(s[0] == "opt", s[1], s[2]) for s in ds]))
        elif kind == "fns":
            src, it = find(file, path)
            skip = opts.pop("skip", "").split(",")
            for x in items(it.toks, it.body[0] + 1, it.body[1]):
                if x.kind == "fn" and x.name not in skip and not is_test(x):
                    pid = f"{file} :: {path} :: fn {x.name}"
                    fns.append(pid)
                    out.append(f"/*<fn {pid}>*/" + copy_fn(file, f"{path} :: fn {x.name}", opts, ds, pid if probe and opts.get("probe") != "no" else None) + "/*</fn>*/")
        else:
            pid = f"{file} :: {path}"
            fns.append(pid)
            p = len(fns) - 1 if probe and opts.get("probe") != "no" else None
            out.append(f"/*<fn {pid}>*/" + copy_fn(file, path, opts, ds, pid if p is not None else None) + "/*</fn>*/")
    return "\n".join(out), fns


if __name__ == "__main__":
    import sys

    t, f = build(sys.argv[1], probe=len(sys.argv) > 2)
    print(t)
