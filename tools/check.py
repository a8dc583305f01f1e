#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree.

1. lift the functions under contract out of /repo (vgen.py) and let Verus check
   every obligation; a second Verus run checks that no contract is vacuous;
2. run the real code on a bounded set of inputs (harness) against the same
   property; this validates the trusted contracts and turns a failed obligation
   into a failing input;
3. combine the two (see DESIGN.md, "Verdicts").
"""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "verus", "specs")]
REPO = os.environ.get("VP_REPO", "/repo")
from rustx import Lost  # noqa: E402
import vgen  # noqa: E402
from props import PROPS  # noqa: E402

SEMANTIC = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "loop ensures not satisfied", "unable to prove", "assertion not satisfied",
    "call does not satisfy", "possible bit shift", "could not prove termination", "might not be allowed",
]
ENV = dict(os.environ)
ENV.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           RUSTFLAGS="--force-warn unused-attributes", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
           PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:"
           + os.environ.get("PATH", ""))


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def verus(path, rlimit, timeout, threads, extra=()):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--rlimit", str(rlimit),
           "--multiple-errors", "3", "--num-threads", str(threads), *extra]
    rc, o, e = run(cmd, timeout, cwd=os.path.dirname(path))
    try:
        js = json.loads(o[o.index("{"):])
    except ValueError:
        js = None
    return " ".join(cmd), rc, js, e


def parse_errors(text, base):
    """[(message, first line number in the generated file)]"""
    out = []
    cur = None
    for ln in text.splitlines():
        m = re.match(r"error(?:\[\w+\])?: (.*)", ln)
        if m:
            cur = [m.group(1), None, bool(re.match(r"error\[", ln)), []]
            out.append(cur)
            continue
        if re.match(r"(warning|note)", ln):
            cur = None
        if cur is not None:
            m = re.match(r"\s*(?:-->|:::)\s+(\S+):(\d+):\d+", ln)
            if m and os.path.basename(m.group(1)) == base and cur[1] is None:
                cur[1] = int(m.group(2))
            m = re.match(r"\s*(\d+)\s*\|", ln)
            if m:
                cur[3].append(int(m.group(1)))
    return [x for x in out if not x[0].startswith("aborting due to")]


def region_of(regions, line):
    for a, b, l in regions:
        if line is not None and a <= line <= b:
            return l
    return None


class Proof:
    """result of the deductive part"""
    def __init__(self):
        self.state = "none"      # proved | failed | undecided | none
        self.reason = ""
        self.failed = []         # (function, message, line)
        self.fn_total = 0
        self.verified = 0
        self.obl = []
        self.smt_ms = 0
        self.cmd = ""
        self.output = ""
        self.vacuous = []
        self.probes = 0
        self.spec = None
        self.retries = 0


def breakdown(js):
    """function -> verified in this run"""
    out = {}
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            out[f["function"]] = out.get(f["function"], True) and f["success"]
    return out


def unknown(s, where, own):
    """what a function under contract calls that the contracts do not cover"""
    k = json.load(open(os.path.join(HERE, "known_calls.json")))
    out = set()
    for f in s.fnspecs:
        if f.label == where:
            out |= f.words - own - set(k["calls"]) - set(k["std"]) - {"closure"}
            if "closure" in f.words and where not in k["closures"]:
                out.add("a closure")
    return out


def moved(s, where):
    """the function has the statements the proof was written for, in another order: the hints may have lost their place"""
    k = json.load(open(os.path.join(HERE, "known_calls.json")))["shapes"]
    for f in s.fnspecs:
        was = k.get(f"{s.pid}|{f.rel}|{f.label}")
        if f.label == where and was and f.shape[0] != was[0] and f.shape[1] == was[1]:
            return True
    return False


def again(q, path, rl, cfg, rc, js, err):
    """A solver may miss a proof by chance: what it does not accept is tried with two other seeds.
    A function counts as verified if one run verified it."""
    base = os.path.basename(path)
    good = lambda j, e: j is not None and j["verification-results"].get("errors") == 0 and j["verification-results"].get("success")
    runs = [(rc, js, err)]
    for sd in (1, 2):
        rc, js, err = runs[-1]
        if good(js, err) or (js is not None and (js["verification-results"].get("encountered-vir-error") or any(x[2] for x in parse_errors(err, base)))):
            return runs[-1]
        _, rc, js, err = verus(path, rl, min(cfg.get("timeout", 300), 150), 8, ("--smt-option", f"smt.random_seed={sd}"))
        q.retries += 1
        runs.append((rc, js, err))
        if good(js, err):
            return runs[-1]
        done = [x for x in runs if x[1] is not None]
        maps = [breakdown(x[1]) for x in done]
        names = set().union(*maps) if maps else set()
        if len(done) > 1 and names and all(set(m) == names for m in maps) and all(any(m[n] for m in maps) for n in names):
            js = done[-1][1]
            js["verification-results"].update(errors=0, success=True, verified=max(x[1]["verification-results"].get("verified", 0) for x in done))
            js["verification-results"]["encountered-error"] = False
            for m in js["times-ms"]["smt"]["smt-run-module-times"]:
                for f in m["function-breakdown"]:
                    f["success"] = True
            return 0, js, ""
    done = [x for x in runs if x[1] is not None]
    return min(done, key=lambda x: x[1]["verification-results"].get("errors", 99)) if done else runs[0]


def deductive(pid, tmp, tier):
    pr = Proof()
    cfg = PROPS[pid]
    if not cfg.get("spec"):
        return pr
    rl = cfg.get("rlimit", 30) * (3 if tier == "thorough" else 1)
    specs = cfg["spec"] if isinstance(cfg["spec"], list) else [cfg["spec"]]
    results = [None] * len(specs)

    def one(k, name):
        q = Proof()
        results[k] = q
        try:
            s = importlib.import_module(name).spec(REPO)
            q.spec = s
            text, regions = s.build()
            ptext, pregions = s.build(probe=True)
        except Lost as e:
            q.state, q.reason = "undecided", f"anchor lost: {e}"
            return
        except Exception as e:  # noqa: BLE001 - the source has a shape the extractor does not know
            q.state, q.reason = "undecided", f"extraction failed: {type(e).__name__}: {e}"
            return
        path = os.path.join(tmp, f"{name}.rs")
        open(path, "w").write(text)
        ppath = os.path.join(tmp, f"{name}_probe.rs")
        open(ppath, "w").write(ptext)
        box = {}
        tp = threading.Thread(target=lambda: box.update(p=verus(ppath, 5, cfg.get("timeout", 300), 3)))
        tp.start()
        q.cmd, rc, js, err = verus(path, rl, cfg.get("timeout", 300), 5)
        tp.join()
        rc, js, err = again(q, path, rl, cfg, rc, js, err)
        q.output = err
        if js is None or rc is None:
            q.state, q.reason = "undecided", "verifier did not finish"
            return
        vr = js["verification-results"]
        for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                q.obl.append((f["function"].split("::", 1)[1], f["mode:"], f["success"], f["time-micros"]))
        q.obl = [o for o in q.obl if not o[0].endswith("::clone")]
        q.smt_ms = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        errs = parse_errors(err, f"{name}.rs")
        if vr.get("encountered-vir-error") or vr.get("encountered-error") and not errs or any(x[2] for x in errs):
            q.state = "undecided"
            q.reason = "generated file rejected: " + "; ".join(f"{x[0]} (line {x[1]}, {region_of(regions, x[1])})" for x in errs[:3])
            return
        hard, soft = [], []
        own = set(re.findall(r"\bfn (\w+)", text))
        for msg, line, _, lines in errs:
            where = region_of(regions, line) or next((region_of(regions, l) for l in lines if region_of(regions, l)), None)
            if where in (None, "ghost", "raw"):
                soft.append((where, msg, line))
            elif unknown(s, where, own):
                soft.append((where, f"{msg} (there is no contract for {', '.join(sorted(unknown(s, where, own)))})", line))
            elif moved(s, where):
                soft.append((where, f"{msg} (its statements are in another order than the proof was written for)", line))
            elif any(k in msg for k in SEMANTIC):
                hard.append((where, msg, line))
            else:
                soft.append((where, msg, line))
        if vr.get("errors") == 0 and vr.get("success") and not errs and vr.get("verified", 0) > 0:
            q.state = "proved"
        elif hard:
            q.state = "failed"
            q.failed = hard
        else:
            q.state, q.reason = "undecided", "; ".join(f"{w}: {m}" for w, m, _ in soft[:3]) or "no obligations"
        if q.state == "proved":
            _, prc, pjs, perr = box["p"]
            perrs = parse_errors(perr, f"{name}_probe.rs")
            plines = {l for x in perrs for l in [x[1], *x[3]] if l}
            if pjs is None or any(x[2] for x in perrs):
                q.state, q.reason = "undecided", "vacuity probe did not run"
                return
            for a, b, l in pregions:
                if l.startswith("vac "):
                    q.probes += 1
                    if not any(a <= x <= b for x in plines):
                        q.vacuous.append(l[4:])
                elif l not in ("ghost", "raw") and " for " in l:
                    q.probes += 1
                    if not any(a <= x <= b for x in plines):
                        q.vacuous.append(l)
            allow = cfg.get("vacuous_ok", [])
            q.vacuous = [v for v in q.vacuous if v not in allow]
            if q.vacuous:
                q.state, q.reason = "undecided", "vacuous contracts: " + ", ".join(q.vacuous)

    def guarded(k, name):
        try:
            one(k, name)
        except Exception as e:  # noqa: BLE001
            results[k].state, results[k].reason = "undecided", f"verifier report not understood: {type(e).__name__}: {e}"

    th = [threading.Thread(target=guarded, args=(k, n)) for k, n in enumerate(specs)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    rank = {"failed": 3, "undecided": 2, "none": 1, "proved": 0}
    pr.state = max((q.state for q in results), key=lambda x: rank[x])
    pr.reason = "; ".join(q.reason for q in results if q.reason)
    for q in results:
        pr.failed += q.failed
        pr.obl += q.obl
        pr.smt_ms += q.smt_ms
        pr.cmd += ("; " if pr.cmd else "") + q.cmd
        pr.output += q.output
        pr.probes += q.probes
        pr.retries += q.retries
    pr.parts = results
    # an undecided part next to a failed one: the failed obligation counts
    return pr


def build_harness(tmp, box):
    tgt = os.path.join(tmp, "target")
    h = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), h, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        c = open(os.path.join(h, "Cargo.toml")).read()
        open(os.path.join(h, "Cargo.toml"), "w").write(c.replace('"/repo"', f'"{REPO}"'))
    env = dict(ENV, CARGO_TARGET_DIR=tgt)
    rc, o, e = run(["cargo", "build", "--release", "--offline", "-q"], 600, cwd=h, env=env)
    box["rc"], box["err"] = rc, e
    box["bin"] = os.path.join(tgt, "release", "lsprobe")


def search(binp, sid, seed, tier, secs, mx, known):
    cmd = [binp, "search", sid, "--seed", str(seed), "--tier", tier, "--secs", str(secs), "--max", str(mx)]
    if known:
        cmd += ["--known", known]
    rc, o, e = run(cmd, secs + 60)
    fails = [l for l in o.splitlines() if l.startswith("FAIL ")]
    m = re.search(r"SEARCHED \S+ exhaustive=(\d+) random=(\d+) failures=(\d+) bound=(.*)", o)
    samples = [l[7:] for l in o.splitlines() if l.startswith("SAMPLE ")]
    info = {"exhaustive": int(m.group(1)), "random": int(m.group(2)), "bound": m.group(4)} if m else None
    m = re.search(r"DISTINCT (\d+)", o)
    if info is not None:
        info["distinct"] = int(m.group(1)) if m else 0
    return {"rc": rc, "fails": fails, "info": info, "samples": samples, "out": (o + e)[-4000:], "cmd": " ".join(cmd)}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_")
    try:
        rc = decide(pid, tier, seed, cfg, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, cfg, tmp, t0):
    box = {}
    tb = threading.Thread(target=build_harness, args=(tmp, box))
    tb.start()
    pr = deductive(pid, tmp, tier)
    tb.join()
    if box.get("rc") != 0:
        log("harness build failed:\n" + box.get("err", "")[-3000:])
        return 2
    known = os.path.join(VERIF, "known_cases", cfg["search"] + ".txt")
    known = known if os.path.exists(known) else None
    secs = cfg.get("secs", 60) if tier == "quick" else max(60, min(cfg.get("tsecs", 420), 800 - int(time.time() - t0)))
    sr = search(box["bin"], cfg["search"], seed, tier, secs, 1, known)
    if sr["info"] is None and not sr["fails"]:
        log("search did not finish:\n" + sr["out"])
        # a crash or hang of the real code inside the search is reported by lsprobe itself
        return 2
    extra = None
    if not sr["fails"] and pr.state in ("failed", "undecided"):
        left = max(30, min(cfg.get("fsecs", 240), 840 - int(time.time() - t0)))
        extra = search(box["bin"], cfg["search"], seed + 7, "thorough", left, 1, known)
    # known findings: replay each listed case, say that it still fails
    if known:
        for ln in open(known):
            ln = ln.strip()
            if not ln or ln.startswith("#"):
                continue
            case, _, note = ln.partition("#")
            rc, o, e = run([box["bin"], "replay", cfg["search"], *case.split()], 60)
            if rc == 1:
                log(f"KNOWN-FINDING: property={pid} {cfg['search']} {case.strip()}: {note.strip()}")
    for ln in cfg.get("known_cmds", []):
        rc, o, e = run([box["bin"], *ln[0].split()], 60)
        if rc == 1:
            log(f"KNOWN-FINDING: property={pid} {ln[1]}")
    fails = sr["fails"] or (extra or {}).get("fails") or []
    violation = bool(fails) or pr.state == "failed"
    level = cfg["level"]
    cov = {"mode": "proof" if pr.state == "proved" else
           ("bounded only: " + (pr.reason or "no contract") if pr.state in ("undecided", "none") else "obligation failed")}
    if cfg.get("spec"):
        cov.update(evidence_proof(pr, cfg))
    ev = sr["info"] or {"exhaustive": 0, "random": 0, "bound": "", "distinct": 0}
    cov["explanation"] = (
        "All obligations of the functions under contract were discharged for all inputs; the bounded run validates the trusted contracts."
        if pr.state == "proved" else
        "The deductive part did not decide on this tree (" + (pr.reason or "no contract") + "); what was explored is the bounded run only."
        if pr.state in ("undecided", "none") else "An obligation of the functions under contract failed, see the replay file.")
    if level == "proof" and pr.state == "undecided":
        level = "other"
    cov["bounded_validation"] = {
        "label": "bounded (never counted as proved)", "cmd": sr["cmd"].replace(tmp, "$TMP"), "exhaustive_cases": ev["exhaustive"],
        "random_cases": ev["random"], "bound": ev["bound"]}
    cov["evaluations"] = ev["exhaustive"] + ev["random"]
    cov["distinct_nontrivial"] = ev.get("distinct", 0)
    cov["rule"] = ev["bound"] or "see harness"
    cov["samples"] = sr["samples"][:5]
    if extra and extra["info"]:
        cov["fallback_search"] = extra["info"]
    rec = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": cfg.get("assumptions", []) + ASSUME,
           "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(rec, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    log(f"{pid} {tier}: deductive part {pr.state}" + (f" ({pr.reason})" if pr.reason else "")
        + f", {sum(1 for o in pr.obl if o[2])}/{len(pr.obl)} obligations, {pr.smt_ms} ms solver time;"
        f" bounded validation {cov['evaluations']} cases; {rec['wall_s']} s")
    if not violation:
        return 0
    rp = os.path.join(VERIF, "replay")
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, f"{pid}.txt")
    with open(path, "w") as f:
        f.write(f"property {pid}\n")
        for w, m, l in pr.failed:
            f.write(f"failed obligation: {w}: {m}\n")
        for x in fails:
            _, sid, rest = x.split(" ", 2)
            case = rest.split("|")[1].strip()
            f.write(f"failing input on the real code: {x}\n")
            f.write(f"replay: cd /verif/harness && CARGO_TARGET_DIR=/tmp/vp_replay cargo run --release --offline -- replay {sid} {case}\n")
        if pr.output:
            f.write("\nverifier command: " + pr.cmd + "\nverifier output:\n" + pr.output[-20000:] + "\n")
    for w, m, l in pr.failed:
        log(f"failed obligation: {w}: {m}")
    for x in fails:
        log(x[:600])
    log(f"VIOLATION property={pid} replay={path}" + ("" if fails else " no-failing-input-found"))
    return 1


ASSUME = [
    "machine floats are treated as real numbers in the deductive part; rounding, overflow, NaN and infinities are outside it",
    "ulps_eq / is_ulps_eq are modelled as exact equality of the represented numbers",
    "rustx.py/vgen.py: the extractor copies function text faithfully (its rewrite rules are listed in coverage.rewrites)",
    "Verus, vstd's contracts for the Rust standard library, Z3 and rustc are trusted",
]


def evidence_proof(pr, cfg):
    obl = [o for o in pr.obl if o[0].startswith("m::") or o[0].startswith("p::")]
    fns, dropped, custom, notes, types = [], {}, [], [], []
    pre = set()
    for q in getattr(pr, "parts", []):
        if q and q.spec:
            s = q.spec
            pre |= set(s.pre)
            fns += [{"function": vgen.label(f), "file": f.rel, "line": getattr(f, "line", None)} for f in s.fnspecs]
            for k, v in s.used.items():
                dropped[k] = dropped.get(k, 0) + v
            custom += sorted(set(s.custom))
            notes += s.notes
            types += s.types
    tb = [f"verus/prelude/{n}.rs: trusted contracts ({count_trusted(n)} assumed declarations)" for n in sorted(pre)]
    for q in getattr(pr, "parts", []):
        if q and q.spec:
            tb += q.spec.assumptions
    return {
        "obligations": len(obl), "discharged": sum(1 for o in obl if o[2]),
        "obligation_list": [{"unit": o[0], "kind": o[1], "ok": o[2], "smt_us": o[3]} for o in sorted(obl)],
        "checker_cmd": pr.cmd or "verus (not reached)", "back_end": "Verus 0.2026.09.13 / Z3",
        "solver_ms": pr.smt_ms, "solver_retries": getattr(pr, "retries", 0), "vacuity_probes": pr.probes,
        "functions_under_contract": fns, "types_lifted": types,
        "rewrites": {k: {"count": v, "rule": vgen.RULES.get(k, k)} for k, v in dropped.items()},
        "custom_rules": custom, "not_under_contract": cfg.get("outside", []), "notes": notes,
        "trusted_base": tb + ["Verus", "Z3", "vstd", "rustc front end", "tools/rustx.py, tools/vgen.py"],
    }


def count_trusted(n):
    t = open(os.path.join(VERIF, "verus", "prelude", n + ".rs")).read()
    return len(re.findall(r"\baxiom fn\b|external_body|assume_specification|\n    fn \w+\(", t))


if __name__ == "__main__":
    main()
