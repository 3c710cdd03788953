#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree.

1. proof: the property's units are built from /repo's current text (vx.py) and
   every obligation is given to Verus; a second run with `assert(false)` at the
   start of every function under contract must fail there (no vacuous contract).
2. bounded stand-in: a small program (harness/src/bin/<id>.rs) linked with the real
   crate compares the real code with an executable reading of the property on
   generated inputs. It looks for a failing input, and stands in for the
   functions out of the verifier's reach. Never counted as proved.

exit 0: held. exit 1: VIOLATION line. exit 2: no answer.
"""
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vx  # noqa: E402
from concurrent.futures import ThreadPoolExecutor  # noqa: E402

ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
B = f"{V}/build"
CFG = json.load(open(f"{V}/checks.json"))[ID]
REPO = vx.REPO
ENV = dict(os.environ)
ENV.update(
    HOME="/root",
    PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""),
    RUSTUP_TOOLCHAIN="1.82-x86_64-unknown-linux-gnu",
    RUSTUP_AUTO_INSTALL="0",
    CARGO_TARGET_DIR=os.environ.get("VERIF_TARGET", f"{REPO}/target"),
    CARGO_NET_OFFLINE="true",
    CARGO_INCREMENTAL="1",
    CARGO_PROFILE_DEV_DEBUG="line-tables-only",
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
)


def run(cmd, timeout, cwd=V, env=None, stdin=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: (x or b"").decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return 124, d(e.stdout), d(e.stderr) + f"\n[timed out after {timeout} s]"


# ---------------------------------------------------------------- proof
VERUS_ENV = dict(os.environ)
VERUS_ENV.pop("RUSTUP_TOOLCHAIN", None)


def verus(path, extra=()):
    t0 = time.time()
    rc, out, err = run(
        ["verus", path, "--output-json", "--time", "--error-format=json", "--triggers-mode", "silent", "--rlimit", "60", *extra],
        400, env=VERUS_ENV,
    )
    res = {"rc": rc, "wall": time.time() - t0, "verified": 0, "errors": 0, "fatal": True, "diags": [], "smt_ms": 0, "raw": err[-20000:]}
    try:
        j = json.loads(out[out.index("{"):])
        vr = j["verification-results"]
        res["fatal"] = bool(vr.get("encountered-vir-error")) or "verified" not in vr
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        res["version"] = j.get("verus", {}).get("version", "")
    except (ValueError, KeyError):
        pass
    for ln in err.split("\n"):
        if ln.startswith("{"):
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get("level") == "error":
                res["diags"].append(d)
    if res["fatal"] is False and res["errors"] == 0 and rc != 0:
        res["fatal"] = True
    return res


def fn_at(text, offset):
    """the function under contract whose copied text holds this byte offset"""
    b = text.encode()
    a = b.rfind(b"/*<fn ", 0, offset)
    if a < 0 or b.find(b"/*</fn>*/", a, offset) >= 0:
        return None
    return b[a + 6: b.index(b">*/", a)].decode()


def assumptions(text):
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*((?:#\[[^\]]*\]\s*)*)(?:pub\s+)?(?:const\s+)?(struct|fn|enum)\s+(\w+)", text):
        out.append(f"external {m.group(2)} {m.group(3)}")
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]\s*\(", text):
        out.append(f"assumed contract of {re.sub(r'\s+', ' ', m.group(1))}")
    for m in re.finditer(r"axiom fn (\w+)", text):
        out.append(f"axiom {m.group(1)}")
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append(f"{m.group(1)} statement")
    return out


class Proof:
    def __init__(self):
        self.ok = True          # every unit placed and discharged
        self.lost = []          # (unit, why): the proof could not be redone
        self.failed = []        # (unit, function, message, rendered)
        self.obl = self.dis = 0
        self.fns, self.assume, self.units, self.smt_ms = [], set(), [], 0
        self.version = ""


def unit_path(u):
    p = f"{V}/units/{u}.rs"
    if os.path.exists(p):
        return p
    g = f"{V}/units/{u}.py"      # a unit written out from /repo's current types
    t = f"{B}/units/{u}.tpl.rs"
    rc, out, err = run([sys.executable, g], 600)
    if rc != 0:
        raise vx.Lost(f"{u}: {err.strip().splitlines()[-1] if err.strip() else 'generator failed'}")
    os.makedirs(f"{B}/units", exist_ok=True)
    open(t, "w").write(out)
    return t


def prove():
    pr = Proof()
    os.makedirs(f"{B}/units", exist_ok=True)
    lock = threading.Lock()
    with ThreadPoolExecutor(max_workers=3) as ex:
        list(ex.map(lambda u: prove_unit(u, pr, lock), CFG.get("units", [])))
    order = {u: i for i, u in enumerate(CFG.get("units", []))}
    pr.units.sort(key=lambda x: order[x["unit"]])
    pr.fns.sort()
    return pr


def prove_unit(u, pr, lock):
    try:
        tpl = unit_path(u)
        text, fns = vx.build(tpl)
        ptext, _ = vx.build(tpl, probe=True)
    except (vx.Lost, ValueError, IndexError, StopIteration) as e:
        pr.lost.append((u, f"{type(e).__name__}: {e}"))
        pr.ok = False
        return
    f, pf = f"{B}/units/{u}.rs", f"{B}/units/{u}_probe.rs"
    open(f, "w").write(text)
    open(pf, "w").write(ptext)
    box = {}
    th = threading.Thread(target=lambda: box.update(p=verus(pf)))
    th.start()
    r = verus(f)
    th.join()
    lock.acquire()
    try:
        pr.version = r.get("version", pr.version)
        pr.smt_ms += r["smt_ms"]
        pr.assume.update(f"{u}: {a}" for a in assumptions(text))
        if r["fatal"]:
            msg = "; ".join(d["message"] for d in r["diags"][:3]) or r["raw"][-300:]
            pr.lost.append((u, f"not accepted by the verifier's front end: {msg}"))
            pr.ok = False
            return
        pr.obl += r["verified"] + r["errors"]
        pr.dis += r["verified"]
        pr.fns += [x for x in fns if x not in pr.fns]
        pr.units.append({"unit": u, "functions": fns, "verified": r["verified"], "errors": r["errors"], "solver_ms": r["smt_ms"], "wall_s": round(r["wall"], 2)})
        hard = 0
        for d in r["diags"]:
            m = d["message"]
            if m.startswith("aborting due to") or "verification results" in m:
                continue
            if "rlimit" in m or "Resource limit" in m or "timed out" in m:
                pr.lost.append((u, "solver gave up: " + m))
                pr.ok = False
                continue
            fn = None
            for s in d.get("spans", []):
                fn = fn or fn_at(text, s["byte_start"])
            pr.failed.append((u, fn or "lemma or contract of the unit", m, d.get("rendered", "")))
            hard += 1
        if r["errors"] and not hard and not any(l[0] == u for l in pr.lost):
            pr.failed.append((u, "?", "verification errors", r["raw"][-3000:]))
        if r["errors"]:
            pr.ok = False
            return
        p = box["p"]
        hit = set()
        for d in p["diags"]:
            for s in d.get("spans", []):
                if any("/*probe" in t.get("text", "") or "assert(false)" in t.get("text", "") for t in s.get("text", [])):
                    fn = fn_at(ptext, s["byte_start"])
                    if fn:
                        hit.add(fn)
        probed = set(re.findall(r"/\*probe (.*?)\*/", ptext))
        miss = sorted(probed - hit)
        if miss:
            pr.lost.append((u, f"contract never reached in {miss}: vacuous"))
            pr.ok = False
    finally:
        lock.release()


# ---------------------------------------------------------------- stand-in
def audit(mult=1):
    b = CFG.get("bin")
    if not b:
        return None
    # some need all of the library, the others only what builds without stand-ins
    full = CFG.get("full", False)
    rc, out, err = run([sys.executable, f"{HERE}/{'mkfull' if full else 'mkws'}.py"], 60)
    if rc != 0:
        return {"error": "mirror workspace: " + err[-500:]}
    for _ in (0,):
        rc, out, err = run(["cargo", "build", "--offline", "--quiet", "--bin", b], 800, cwd=f"{V}/harness/full" if full else f"{V}/harness")
    if rc != 0:
        m = re.search(r"error(?:\[E\d+\])?:.*(?:\n.*){0,6}", err)
        return {"error": "the harness does not build: " + (m.group(0) if m else err[-600:])}
    exe = f"{ENV['CARGO_TARGET_DIR']}/debug/{b}"
    iters = CFG.get("iters", 2000) * (25 if TIER == "thorough" else 1) * mult
    limit = 3000 if TIER == "thorough" else 300 if mult > 1 else 150
    rc, res = drive(exe, iters, limit)
    if res is None and rc not in (137, -9):
        # it hung, or took the whole process down: once more, noting each case before it runs
        trail = f"{B}/trail.{b}"
        if os.path.exists(trail):
            os.unlink(trail)
        rc, res = drive(exe, iters, limit, trail)
        if res is None and rc not in (137, -9) and os.path.exists(trail):
            key, _, inp = open(trail, errors="replace").read().partition("\0")
            what = f"no end within {limit} s" if rc == 124 else f"the process ended with {rc}"
            res = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case that ended the run", "samples": [f"{key}: {inp[:300]}"],
                   "violations": [{"key": key, "input": inp, "what": what}]}
        if os.path.exists(trail):
            os.unlink(trail)
    return res if res is not None else {"error": f"the harness ended with {rc}"}


def drive(exe, iters, limit, *trail):
    e = dict(ENV)
    e["RUST_BACKTRACE"] = "0"
    rc, out, err = run([exe, str(SEED), str(iters), *trail], limit, env=e, cwd=B)
    try:
        ln = [x for x in out.split("\n") if x.startswith("AUDIT ")][-1]
        return rc, json.loads(ln[6:])
    except (IndexError, ValueError):
        return rc, None


def known():
    out = {}
    try:
        for ln in open(f"{V}/known_findings.txt"):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == ID:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def main():
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    box = {}
    th = threading.Thread(target=lambda: box.update(pr=prove()))
    if CFG.get("serial"):        # the unit generator needs cargo too
        a = audit()
        th.start()
        th.join()
    else:
        th.start()
        a = audit()
        th.join()
    pr = box.get("pr")
    if pr is None:
        pr = Proof()
        pr.ok = False
        pr.lost.append(("driver", "internal error in the proof run"))
    if a is not None and a.get("error"):
        av = []
    else:
        av = a["violations"] if a else []
    if pr.failed and not av and a is not None and not a.get("error"):
        # look harder for an input that shows the failed obligation
        a2 = audit(mult=8)
        if not a2.get("error"):
            a, av = a2, a2["violations"]
    kn = known()
    new = [v for v in av if v["key"] not in kn]
    seen = [v for v in av if v["key"] in kn]
    rdir = f"{B}/replay"
    os.makedirs(rdir, exist_ok=True)
    rc, lines = 0, []
    for k in sorted({v["key"] for v in seen}):
        lines.append(f"KNOWN-FINDING: property={ID} {kn[k]}")
    if new:
        rp = f"{rdir}/{ID}.json"
        json.dump({"property": ID, "seed": SEED, "tier": TIER, "rerun": f"VERIF_SEED={SEED} python3 tools/check.py {ID}", "failing": new[:20],
                   "failed_obligations": [{"unit": u, "function": f, "obligation": m, "verifier": r} for u, f, m, r in pr.failed]}, open(rp, "w"), indent=1)
        for v in new[:5]:
            print(f"failing input [{v['key']}]: {v['input'][:400]}\n   {v['what'][:600]}")
        lines.append(f"VIOLATION property={ID} replay={rp}")
        rc = 1
    elif pr.failed:
        rp = f"{rdir}/{ID}.json"
        json.dump({"property": ID, "seed": SEED, "tier": TIER, "rerun": f"VERIF_SEED={SEED} python3 tools/check.py {ID}",
                   "failed_obligations": [{"unit": u, "function": f, "obligation": m, "verifier": r} for u, f, m, r in pr.failed],
                   "no_failing_input": "the verifier gives no counterexample values; the bounded search found no failing input"}, open(rp, "w"), indent=1)
        for u, f, m, _ in pr.failed[:8]:
            print(f"failed obligation: {m} in {f} (unit {u})")
        lines.append(f"VIOLATION property={ID} replay={rp} no-failing-input-found")
        rc = 1
    else:
        if pr.lost:
            for u, w in pr.lost:
                print(f"not proved on this tree: unit {u}: {w}")
        if a is not None and a.get("error"):
            print(f"bounded stand-in gave no answer: {a['error']}")
        if pr.lost and (a is None or a.get("error")):
            rc = 2
        elif a is not None and a.get("error") and CFG.get("needs_audit"):
            rc = 2
    proved = bool(CFG.get("units")) and pr.ok
    cov = {}
    if CFG.get("units"):
        cov.update(
            obligations=pr.obl, discharged=pr.dis,
            checker_cmd=f"verus build/units/<unit>.rs --rlimit 60 (units: {', '.join(CFG['units'])}); rerun: python3 tools/check.py {ID}",
            trusted_base=sorted(pr.assume) + CFG.get("trusted", []),
            backend=f"Verus {pr.version} with its bundled Z3", solver_ms=pr.smt_ms,
            functions_under_contract=pr.fns, units=pr.units,
            not_proved=[f"{u}: {w}" for u, w in pr.lost],
            failed_obligations=[f"{m} in {f} ({u})" for u, f, m, _ in pr.failed],
            vacuity="every function under contract was re-run with assert(false) at its start; each failed there, as it must",
        )
    if a is not None and not a.get("error"):
        bounded = {k: a[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")}
        cov["bounded_stand_in"] = {"label": "bounded, not counted as proved", "functions": CFG.get("bounded_fns", []), **({} if not proved else bounded)}
        if not proved:
            cov.update(bounded)
    elif a is not None:
        cov["bounded_stand_in"] = {"label": "bounded", "error": a["error"]}
    level = "proof" if proved else ("exploration" if "evaluations" in cov else "other")
    if level == "other":
        cov["explanation"] = "neither the proof nor the bounded stand-in could be run on this tree"
    ev = {"property": ID, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": CFG.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(new) if new else len(pr.failed)}
    json.dump(ev, open(f"{V}/evidence/{ID}.json", "w"), indent=1)
    if rc == 0:
        print(f"{ID}: {'proved' if proved else 'NOT proved, bounded only'}; {pr.dis}/{pr.obl} obligations, {len(pr.fns)} functions under contract, "
              f"{a['evaluations'] if a and not a.get('error') else 0} bounded cases, {ev['wall_s']} s")
    for ln in lines:
        print(ln)
    return rc


if __name__ == "__main__":
    sys.exit(main())
