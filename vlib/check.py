"""check <property> [quick|thorough]: decides one property on the current tree."""
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

import numpy as np

from . import build, native, smt
from .explore import Explorer, Symex, Violation
from .props import PROPS

ROOT = build.ROOT


def known_findings():
    """lines: finding: property=<id> entry=<entry> label=<label> <text>"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.split()
            if w and w[0] == "finding:":
                d = dict(x.split("=", 1) for x in w[1:4])
                d["text"] = " ".join(w[4:])
                out.append(d)
    return out


def worker(job):
    np.seterr(all="ignore")
    pid, entry, (sxe, ll, nat), feats, opts, tier, seed, known = job
    t0 = time.time()
    base = smt.snapshot()
    base = {k: (v if isinstance(v, (int, float)) else 0) for k, v in base.items()}
    smt.STATS.update(queries=0, unsat=0, sat=0, unknown=0, time=0.0, claims=0, max_time=0.0)
    logf = open(os.path.join(build.BUILD, f"log-{pid}-{entry}{''.join('-' + f for f in feats)}.txt"), "w")

    def log(s):
        logf.write(s + "\n")
        logf.flush()

    out = dict(entry=entry, features=list(feats))
    sx = None
    try:
        sx = Symex(sxe, ll)
        ex = Explorer(sx, entry, seed=seed, opts=opts, log=log, pool=opts.get("pool", 1024), max_paths=opts.get("max_paths", 3000), budget=opts.get("budget", 400))
        ex.native = nat
        ex.known = [k for k in known if k["entry"] == entry]
        try:
            r = ex.explore()
        except Violation as v:
            r = ex.res
            out["violation"] = {k: x for k, x in v.d.items() if k not in ("path", "ob")}
        out["res"] = {k: (sorted(x) if isinstance(x, set) else x) for k, x in r.items()}
        out["funcs"] = sx.funcs()
    except Exception:
        out["error"] = traceback.format_exc()[-3000:]
        log(out["error"])
    finally:
        if sx:
            sx.close()
    out["smt"] = dict(smt.STATS)
    out["wall"] = time.time() - t0
    log(f"wall {out['wall']:.1f}")
    return out


def main():
    np.seterr(all="ignore")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = set(sys.argv[3:])
    P = PROPS[pid]
    t0 = time.time()
    replay_dir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    known = [k for k in known_findings() if k["property"] == pid]
    jobs = []
    try:
        for feats in P.get("configs", [()]):
            try:
                arts = build.build(P["bin"], feats)
            except build.BuildError:
                if "vf-hooks" not in feats:
                    raise
                print(f"NOTE property={pid}: the hooks do not compile; using the public interface only")
                feats = tuple(f for f in feats if f != "vf-hooks")
                arts = build.build(P["bin"], feats)
            ents = subprocess.run([arts[2], "--list"], capture_output=True, text=True).stdout.split()
            for e in ents:
                if tier == "quick" and e.startswith("t_"):
                    continue
                if feats and not P.get("entry_filter", lambda f, e: True)(feats, e):
                    continue
                if only and e not in only:
                    continue
                opts = dict(P.get("opts", {}))
                for k, v in P.get("entry_opts", {}).items():
                    if e.startswith(k):
                        opts.update(v)
                if tier == "thorough":
                    opts.setdefault("scale", 4)
                    opts["budget"] = opts.get("budget", 400) * 4
                    opts["max_paths"] = opts.get("max_paths", 3000) * 4
                jobs.append((pid, e, arts, feats, opts, tier, seed, known))
    except build.BuildError as e:
        print(f"ERROR property={pid} build: {e}")
        return 2
    build_s = time.time() - t0
    first = P.get("slow", [])
    jobs.sort(key=lambda j: (next((i for i, s in enumerate(first) if j[1].startswith(s)), 99), j[1]))
    outs = []
    with mp.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(worker, jobs)
        end = t0 + (float(os.environ.get("VF_WALL", 0)) or P.get("wall", 600) if tier == "quick" else P.get("wall_thorough", 3000))
        while True:
            try:
                o = it.next(timeout=max(1, end - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                pool.terminate()
                break
            outs.append(o)
            if os.environ.get("V"):
                r = o.get("res") or {}
                print("  done", o["entry"], o["features"], f"{o['wall']:.1f}s", "obl", r.get("obligations"), "proved", r.get("proved"), "paths", r.get("paths"), o.get("error", "")[:200], flush=True)
            if "violation" in o and o["violation"].get("confirmed"):
                pool.terminate()
                break
    if not any("violation" in o for o in outs):
        got = {(o["entry"], tuple(o["features"])) for o in outs}
        for j in jobs:
            if (j[1], tuple(j[3])) not in got:
                outs.append(dict(entry=j[1], features=list(j[3]), timeout=True, smt={}))
    outs.sort(key=lambda o: (o["entry"], o["features"]))
    return report(pid, P, tier, seed, outs, len(jobs), build_s, time.time() - t0, known)


def report(pid, P, tier, seed, outs, njobs, build_s, wall, known):
    tot = dict(paths=0, infeasible=0, obligations=0, proved=0, trivial=0, certified=0, pruned=0, steps=0, validated=0, mismatched=0, definedness=0, definedness_proved=0, witnesses=0, no_witness=0)
    st = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, claims=0)
    reduced, undecided, errors, axioms, funcs = [], [], [], set(), set()
    entries, viol, hits = [], [], []
    assumptions = set()
    for o in outs:
        if "error" in o:
            errors.append(dict(entry=o["entry"], error=o["error"]))
        if "timeout" in o:
            undecided.append(dict(entry=o["entry"], what="not finished within the time limit of the check"))
        r = o.get("res")
        for k in st:
            st[k] += o["smt"].get(k, 0)
        if not r:
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        tag = o["entry"] + ("[" + ",".join(o["features"]) + "]" if o["features"] else "")
        reduced += [dict(entry=tag, **x) for x in r["reduced"]]
        undecided += [dict(entry=tag, **x) for x in r["undecided"]]
        errors += [dict(entry=tag, error=x) for x in r["errors"]]
        axioms |= set(r["axioms"])
        assumptions |= set(r["assumptions"])
        hits += [dict(entry=o["entry"], label=x) for x in r.get("known_hits", [])]
        for f in o.get("funcs", []):
            n = f.split("\t")
            if ".build/pkg/" in n[0]:
                funcs.add(n[0].split(".build/pkg/")[-1] + " " + (n[1] if len(n) > 1 else ""))
        entries.append(dict(entry=tag, paths=r["paths"], obligations=r["obligations"], proved=r["proved"], steps=r["steps"],
                            symbolic_inputs=len(r["vars"]), marks=r["marks"], wall_s=round(o["wall"], 1), queries=o["smt"]["queries"], solver_s=round(o["smt"]["time"], 2)))
        if "violation" not in o and not r["marks"].get("reached") and not errors:
            errors.append(dict(entry=tag, error="vacuous: no feasible path reaches the end of the harness"))
        if "violation" in o:
            viol.append(o)
    unconf = [x for o in outs for x in o.get("res", {}).get("unconfirmed", [])]
    code = 0
    lines = []
    seenk = set()
    for h in hits:
        for k in known:
            if k["entry"] == h["entry"] and h["label"].startswith(k["label"]) and (k["entry"], k["label"]) not in seenk:
                seenk.add((k["entry"], k["label"]))
                lines.append(f"KNOWN-FINDING: property={pid} {k['entry']}/{k['label']} {k['text']}")
    for o in viol:
        v = o["violation"]
        path = os.path.join(ROOT, "evidence", "replay", f"{pid}-{o['entry']}.json")
        json.dump(dict(property=pid, entry=o["entry"], features=o["features"], **{k: x for k, x in v.items() if k != "entry"}), open(path, "w"), indent=1, default=str)
        with open(path[:-5] + ".sh", "w") as f:
            feat = "".join("-" + x for x in o["features"])
            f.write(f"#!/bin/sh\n# replays the counterexample on the natively compiled program\ncd \"$(mktemp -d)\"\nVF_INPUT={path[:-5]}.in exec {build.BUILD}/target{feat}/release/{P['bin']} {o['entry']}\n")
        native.write_input(path[:-5] + ".in", v["values"], v["choices"])
        lines.append(f"  counterexample in {o['entry']}: {v['kind']} {v['label']}: {v.get('native', '')}")
        lines.append(f"VIOLATION property={pid} replay={path}")
        code = 1
    if code == 0 and (errors or unconf):
        # nothing was decided at all: no verdict.  Otherwise what was not explored is listed.
        code = 2 if tot["proved"] == 0 else 0
        for e in errors[:5]:
            lines.append(f"UNDECIDED property={pid} {e}"[:1500])
        for e in unconf[:5]:
            lines.append(f"UNDECIDED property={pid} candidate that does not reproduce natively: {e}"[:800])
    for u in undecided[:10]:
        lines.append(f"UNDECIDED property={pid} {u}")
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"] + tot["infeasible"], transitions=tot["steps"], traces_validated_against_impl=tot["validated"],
            samples=entries[:40],
            explanation="bounded symbolic execution of the compiled IR of the real functions; states: symbolic paths explored to their end; transitions: IR instructions executed symbolically; traces: paths replayed natively with the same values of all checked quantities",
            obligations=tot["obligations"], discharged=tot["proved"], discharged_by_term_identity=tot["trivial"],
            discharged_at_reduced_bounds=reduced[:40], reduced_count=len(reduced), undecided=undecided[:40], not_explored=[str(e)[:300] for e in errors[:20]], unconfirmed_candidates=unconf[:10],
            branches_pruned_by_solver=tot["pruned"], infeasible_paths=tot["infeasible"],
            queries=st["queries"], queries_unsat=st["unsat"], queries_sat=st["sat"], queries_unknown=st["unknown"], algebra_lemmas_discharged=st["claims"],
            solver_time_s=round(st["time"], 2), bounds=P["bounds"], functions_encoded=sorted(funcs), functions_count=len(funcs),
            symbolic_divisors=tot["definedness"], trace_mismatches=tot["mismatched"], solver_witnesses=tot["witnesses"], paths_without_witness=tot["no_witness"],
            entries=len(entries), entries_planned=njobs, exhaustive=False, build_s=round(build_s, 1), known_findings=[x for x in lines if x.startswith("KNOWN")],
        ),
        assumptions=sorted(assumptions | set(P.get("assumptions", [])) | {"axiom: " + a for a in axioms} | {
            "IEEE doubles are interpreted as exact reals (rounding, overflow and NaN propagation are outside the claim)",
            "symbolic divisors are non-zero where the code divides",
        }),
        wall_s=round(wall, 1), violations=len(viol),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    if os.environ.get("V"):
        for e in sorted(entries, key=lambda e: e["wall_s"]):
            print(" ", e["entry"], "paths", e["paths"], "obl", e["obligations"], "proved", e["proved"], "q", e["queries"], "solver", e["solver_s"], "wall", e["wall_s"])
    for l in lines:
        print(l)
    print(f"{pid} {tier}: entries={len(entries)}/{njobs} paths={tot['paths']} obligations={tot['obligations']} proved={tot['proved']} reduced={len(reduced)} undecided={len(undecided)} queries={st['queries']} solver={st['time']:.1f}s wall={wall:.1f}s (build {build_s:.1f}s) exit={code}")
    return code


if __name__ == "__main__":
    sys.exit(main())
