#!/usr/bin/env python3
"""Decides one property for /repo's current source.  usage: check.py <property> [--tier quick|thorough]

1. The Verus units (contracts on functions taken from /repo/src on this run) registered for the property are discharged.
2. The bounded comparison with reference implementations (/verif/oracle) runs on the real crate; it stands in for what
   is out of the verifiers' reach and looks for a failing input.
3. A failing input, or an obligation that the verifier refuses, is a violation. A unit whose anchors are gone or which
   the verifier cannot read is not: what it covered then rests on the bounded part, and the evidence says so."""
import concurrent.futures as cf
import glob
import importlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import literals, macro_oracle  # noqa: E402
from vf import verus as V  # noqa: E402
from vf.rust import LostAnchor  # noqa: E402

BUILD = os.path.join(HERE, "build")
LITERALS = os.path.join(BUILD, "literals.txt")
ORACLE_TARGET = os.environ.get("VF_ORACLE_TARGET", os.path.join(BUILD, "oracle"))


def load_units(prop):
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "units", "u_*.py"))):
        m = importlib.import_module("units." + os.path.basename(p)[:-3])
        if prop in m.PROPS:
            out.append(m)
    return out


def run_unit(m, prop, tier):
    """-> dict describing what the unit's obligations came to"""
    name = m.__name__.split(".")[-1]
    r = dict(unit=name, status="?", verified=0, fns=[], trusted=[], rewrites=[], errors=[], why="", smt_ms=0, wall=0, vacuity="")
    try:
        b = V.Builder()
        m.build(b)
        text = b.text()
        r["fns"], r["rewrites"], r["trusted"] = b.fns, b.rewrites, V.trusted(text)
        keep = os.path.join(BUILD, f"{prop}-{name}.rs")
        res = V.run_verus(text, rlimit=getattr(m, "RLIMIT", 60), keep=keep, timeout=300 if tier == "quick" else 800)
        if res["status"] in ("failed", "undecided") and getattr(m, "RETRY", True):
            # solvers can be unlucky: an obligation counts as refused only if it is refused again with another seed
            res2 = V.run_verus(text, rlimit=2 * getattr(m, "RLIMIT", 60), timeout=300, extra=("--smt-option", "smt.random_seed=7"))
            if res2["status"] == "ok" or res["status"] == "undecided":
                res = res2
        for k in ("status", "verified", "errors", "why", "smt_ms", "wall"):
            r[k] = res[k]
        r["stderr"] = res["stderr"]
        if res["status"] == "ok":
            if res["verified"] == 0:
                r.update(status="undecided", why="no obligations were generated")
            else:
                # vacuity guard: assert(false) at every entry and loop head must be refused
                vb = V.Builder(vacuity=True)
                m.build(vb)
                vres = V.run_verus(vb.text(), rlimit=30, timeout=300)
                lines = vb.text().split("\n")
                refused = len({(e["line"], e["text"].split("\n")[1]) for e in vres["errors"] if "VACUITY" in e["text"] or "assert(false)" in e["text"]})
                allowed = getattr(m, "UNREACHABLE", 0)
                r["vacuity"] = f"{refused} of {len(vb.probes)} assert(false) probes refused"
                if refused + allowed < len(vb.probes):
                    r.update(status="undecided", why=f"vacuous: {r['vacuity']}")
    except LostAnchor as e:
        r.update(status="lost-anchor", why=str(e))
    return r


def tags(err, text):
    lines = text.split("\n")
    out = set()
    for ln in [err["line"], *err["marked"]]:
        if 0 < ln <= len(lines):
            for m in re.finditer(r"/\*@([^*]*)\*/", lines[ln - 1]):
                out |= set(m.group(1).split())
    return out


def concerns(err, m, prop, path):
    try:
        text = open(path).read()
    except OSError:
        return True
    t = tags(err, text)
    also = getattr(m, "ALSO", {})  # properties that rest on what another property's contracts say
    fp = getattr(m, "FN_PROPS", {})
    if t:
        hit = set(t)
    elif err["fn"] in fp:
        hit = set(fp[err["fn"]])
    else:
        return True
    return prop in hit or any(prop in also.get(h, ()) for h in hit)


def build_oracle(prop, seed, tier):
    if prop == "V05":
        exe, failure, err = macro_oracle.build("/repo", seed, tier, BUILD)
        if failure:
            return dict(failure=failure, evals=1, sections={}, distinct=0, rules=[], samples=[], known=[]), ""
        return exe, err
    env = dict(os.environ, CARGO_TARGET_DIR=ORACLE_TARGET, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--no-default-features", "--features", {"S": "scale", "T": "text", "V": "value", "D": "serde"}[prop[0]]], cwd=os.path.join(HERE, "oracle"), env=env, capture_output=True, text=True)
    exe = os.path.join(ORACLE_TARGET, "debug", "oracle")
    return (exe if p.returncode == 0 else None), p.stderr


def run_oracle(exe, prop, seed, tier, scale=None, timeout=600):
    """-> (json or None, note)"""
    scale = scale or (6 if tier == "quick" else 2)
    cmd = [exe, prop, "--seed", str(seed), "--tier", tier, "--scale", str(scale), "--dict", LITERALS]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None, f"the bounded part did not finish in {timeout} s"
    try:
        return json.loads(p.stdout.strip().split("\n")[-1]), ""
    except ValueError:
        pass
    # the process died (stack overflow, abort): find out where
    tr = os.path.join(BUILD, f"{prop}.{seed}.trace")
    try:
        p2 = subprocess.run(cmd + ["--trace", tr], capture_output=True, text=True, timeout=timeout, errors="replace")
        sec, case = open(tr).read().split("\n")[:2]
    except (OSError, ValueError, subprocess.TimeoutExpired):
        return None, f"the bounded part ended with status {p.returncode}: {p.stderr[-500:]}"
    d = dict(failure=dict(section=sec, case=int(case), input="", what=f"the process ended with status {p2.returncode}: {p2.stderr[-300:]}"),
             evals=0, sections={}, distinct=0, rules=[], samples=[], known=[])
    return d, ""


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    units = load_units(prop)
    literals.write("/repo", LITERALS)
    with cf.ThreadPoolExecutor(8) as ex:
        fo = ex.submit(build_oracle, prop, seed, tier)
        fus = [(m, ex.submit(run_unit, m, prop, tier)) for m in units]
        exe, berr = fo.result()
        orc, note = (None, "the crate or the oracle does not build: " + berr[-2000:]) if exe is None else (exe, "") if isinstance(exe, dict) else run_oracle(exe, prop, seed, tier)
        ures = [(m, f.result()) for m, f in fus]

    failed, undecided = [], []
    doubt = False  # some obligation was refused, if perhaps one of another property
    fseed = seed
    obligations = discharged = 0
    for m, r in ures:
        path = os.path.join(BUILD, f"{prop}-{r['unit']}.rs")
        if r["status"] == "ok":
            obligations += r["verified"]
            discharged += r["verified"]
        elif r["status"] == "failed":
            obligations += r["verified"] + len(r["errors"])
            discharged += r["verified"]
            doubt = True
            mine = [e for e in r["errors"] if concerns(e, m, prop, path)]
            failed += [dict(by="verus", unit=r["unit"], what=f"{e['fn']}: {e['msg']}: {e['code']}", text=e["text"]) for e in mine]
        else:
            undecided.append(f"{r['unit']}: {r['status']}: {r['why']}")

    known_file = json.load(open(os.path.join(HERE, "known-findings.json")))
    known = [k for k in known_file["known"] if k["property"] == prop]
    failure = orc["failure"] if orc else None
    seen_known = []
    for kid, what in (orc["known"] if orc else []):
        hit = [k for k in known if k["id"] == kid and what.startswith(k["match"])]
        if hit:
            seen_known.append(hit[0]["match"])
        elif not failure:
            failure = dict(section=kid, case=0, input=what, what="not among the known findings")
    # an obligation was refused, or could not be decided on this tree: search longer for an input that shows a violation
    searched = 0
    if (doubt or undecided) and not failure and exe and orc and prop != "V05":
        jobs = [(s, "thorough" if s == seed + 1 else "quick", 2 if s == seed + 1 else 12) for s in range(seed + 1, seed + 7)]
        with cf.ThreadPoolExecutor(6) as ex:
            for (s, *_), (o2, _) in zip(jobs, ex.map(lambda j: run_oracle(exe, prop, *j, timeout=300), jobs)):
                if o2:
                    searched += o2["evals"]
                    if o2["failure"] and not failure:
                        failure, fseed = o2["failure"], s

    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{prop}.txt")
    violation = None
    if failure or failed:
        with open(replay, "w") as f:
            f.write(f"property {prop}\n")
            if failure:
                how = f"python3 check.py {prop}" if prop == "V05" else f"cd /verif/oracle && cargo run --offline -- {prop} --dict {LITERALS} --seed {fseed} --section '{failure['section']}' --case {failure['case']}"
                f.write(f"failing input (real crate, bounded search)\nsection: {failure['section']}\ncase: {failure['case']}\ninput: {failure['input']}\nwhat: {failure['what']}\n"
                        f"replay: {how}\n")
            for x in failed:
                f.write(f"\nfailed obligation ({x['by']}, {x['unit']}): {x['what']}\n{x['text']}\n")
            if failed and not failure:
                f.write(f"\nno failing input found in {searched} further cases\n")
        violation = f"VIOLATION property={prop} replay={replay}" + ("" if failure else " no-failing-input-found")

    level, note_level = "proof", ""
    man = {}
    try:
        man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
        level = man.get(prop, {}).get("level", "exploration")
    except OSError:
        level = "exploration"
    if level == "proof" and (not obligations or (undecided and not discharged)):
        level = "exploration"
    trusted = sorted({f"{r['unit']}: {t}" for _, r in ures for t in r["trusted"]})
    if ures:
        trusted.append("Verus 0.2026.09.13 and Z3; vstd's contracts for the standard library; the extraction and rewrites listed under rewrites")
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"verus --rlimit 60 build/{prop}-<unit>.rs (generated from /repo/src on this run)",
        trusted_base=trusted,
        functions_under_contract=[f for _, r in ures for f in r["fns"]],
        units=[{k: r[k] for k in ("unit", "status", "verified", "smt_ms", "wall", "why", "vacuity")} for _, r in ures],
        rewrites=sorted({x for _, r in ures for x in r["rewrites"]}),
        solver_ms=sum(r["smt_ms"] for _, r in ures),
        undecided=undecided,
        failed_obligations=[x["what"] for x in failed],
        evaluations=(orc["evals"] if orc else 0) + searched,
        distinct_nontrivial=orc["distinct"] if orc else 0,
        rule="; ".join(orc["rules"]) if orc else note,
        samples=orc["samples"] if orc else [],
        bounded_sections=orc["sections"] if orc else {},
        known_findings=seen_known,
        explanation="Obligations are proved for all inputs; evaluations are the bounded stand-in on the real crate and are not counted as proved.",
    )
    assumptions = list(trusted)
    if undecided:
        assumptions.append("not decided by proof on this tree: " + "; ".join(undecided))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)

    for w in seen_known:
        print(f"KNOWN-FINDING: property={prop} {w}")
    print(f"{prop}: {discharged}/{obligations} obligations discharged ({len(ures)} units); {cov['evaluations']} bounded cases; {ev['wall_s']} s")
    for u in undecided:
        print("undecided:", u)
    if violation:
        for x in failed[:5]:
            print("failed obligation:", x["what"])
        if failure:
            print("failing input:", failure["input"][:800], "--", failure["what"][:800])
        print(violation)
        return 1
    if orc is None:
        print("error:", note)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
