"""Check driver: runs every contract of a property, decides, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_DEV_EVIDENCE") or os.path.join(VERIF, "evidence")


def _limit():
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def job(args):
    """one contract: proof, then (if needed) bounded; runs in a worker process"""
    pid, idx, tier, budget, want = args
    from . import verify as V

    con = V.REG[pid][idx]
    if con.budget:
        budget = con.budget if tier == "quick" else max(con.budget, budget)
    t_end = time.time() + budget
    out = {"key": con.key, "idx": idx, "funcs": con.funcs, "kind": want, "proof": None, "bounded": None}

    def pack(rep):
        return {
            "obl": {k: {q: o[q] for q in o} for k, o in rep.obl.items()},
            "paths": rep.paths,
            "unsup": rep.unsup[:5],
            "cex": rep.cex,
            "ok": bool(V.discharged(rep)),
            "nonvac": rep.nonvac,
            "queries": rep.queries,
            "solver_s": round(rep.solver_s, 3),
            "wall": round(rep.wall, 3),
        }

    try:
        if "p" in con.modes:
            rep = V.run_sym(con, False, True, t_end)
            out["proof"] = pack(rep)
            out["modular"] = bool(con.stubs)
            if not out["proof"]["ok"] and con.stubs:
                rep = V.run_sym(con, False, False, max(t_end, time.time() + budget / 2))
                if rep.obl or rep.paths["return"]:
                    out["proof_modular"] = out["proof"]
                    out["proof"] = pack(rep)
                    out["modular"] = False
        need_b = "b" in con.modes and (out["proof"] is None or not out["proof"]["ok"] or tier == "thorough")
        if need_b:
            rep = V.run_sym(con, True, False, time.time() + budget)
            out["bounded"] = pack(rep)
    except MemoryError:
        out["error"] = "memory"
    except BaseException as e:
        out["error"] = "%r %s" % (e, traceback.format_exc()[-800:])
    return out


def rjob(args):
    """runtime contract monitoring on generated inputs"""
    pid, idx, seed, n, budget = args[:5]
    import numpy as np
    from . import verify as V

    V.BIG[0] = len(args) > 5

    con = V.REG[pid][idx]
    t_end = time.time() + budget
    res = {"key": con.key, "idx": idx, "runs": 0, "ok": 0, "rejected": 0, "checked": 0, "fails": [], "sample": None, "distinct": 0}
    seen = set()
    k = 0
    while k < n and time.time() < t_end:
        rng = np.random.RandomState((seed * 1000003 + idx * 7919 + k) % (2**32))
        k += 1
        st, env, f = V.run_conc(con, rng=rng)
        res["runs"] += 1
        res["checked"] += env.checked
        if st == "reject" and env.checked == 0:
            res["rejected"] += 1
            continue
        h = hash(repr(sorted(env.inputs.items(), key=lambda z: z[0])))
        if h not in seen:
            seen.add(h)
        if st == "fail":
            # deterministic confirmation with the recorded inputs
            st2, env2, f2 = V.run_conc(con, record=dict(env.inputs))
            if st2 == "fail":
                res["fails"].append((f2[0], f2[1], env.inputs))
            else:
                rng = np.random.RandomState((seed * 1000003 + idx * 7919 + k - 1) % (2**32))
                st3, env3, f3 = V.run_conc(con, rng=rng)
                if st3 == "fail":
                    d = dict(env3.inputs)
                    d["__rng__"] = (seed * 1000003 + idx * 7919 + k - 1) % (2**32)
                    res["fails"].append((f3[0], f3[1], d))
            if len(res["fails"]) >= 2:
                break
        else:
            res["ok"] += 1
            if res["sample"] is None and k > 3:
                res["sample"] = env.inputs
    res["distinct"] = len(seen)
    return res


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.generic,)):
        return jsonable(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def trunc(x, n=600):
    s = json.dumps(jsonable(x))
    return s if len(s) <= n else s[:n] + "..."


def load(pid):
    importlib.import_module("props." + pid)
    from . import verify as V

    return V.REG[pid]


def fname(s):
    return "".join(c if c.isalnum() or c in "._-" else "_" for c in s)


def source_hash():
    import hashlib

    h = hashlib.sha256()
    from . import loader

    d = loader.REPO + "/mlpaper"
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


def main(argv):
    pid = argv[0]
    if pid == "--setup":
        import z3, cvc5, pandas, scipy  # noqa: F401

        print("ok z3", z3.get_version_string())
        return 0
    if pid == "--replay":
        return replay(argv[1])
    tier = "thorough" if "--thorough" in argv else "quick"
    only = [a[7:] for a in argv if a.startswith("--only=")]
    verbose = "-v" in argv or "-vv" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cons = load(pid)
    budget = 60 if tier == "quick" else 400
    mult = 1 if tier == "quick" else 20
    idxs = [i for i, c in enumerate(cons) if not only or any(o in c.key for o in only)]
    jobs = [(pid, i, tier, budget, "sym") for i in idxs if "p" in cons[i].modes or "b" in cons[i].modes]
    rj = [(pid, i, seed, cons[i].n_rand * mult, (12 if tier == "quick" else 200)) for i in idxs if "r" in cons[i].modes]
    nproc = min(8, max(1, len(jobs) + len(rj)))
    results, rres, lost = [], [], []
    with mp.get_context("fork").Pool(nproc, initializer=_limit, maxtasksperchild=1) as pool:
        rb = [(a, pool.apply_async(rjob, (a,))) for a in rj]
        ra = [(a, pool.apply_async(job, (a,))) for a in jobs]
        lim = time.time() + (500 if tier == "quick" else 3000)
        for a, r in rb:
            try:
                rres.append(r.get(timeout=max(1, lim - time.time())))
            except Exception as e:
                lost.append((cons[a[1]].key + " (runtime)", repr(e)))
        if any(x.get("fails") for x in rres):
            # a failing input is already in hand: the symbolic jobs get a short grace period only
            lim = min(lim, time.time() + 20)
        for a, r in ra:
            try:
                results.append(r.get(timeout=max(1, lim - time.time())))
            except Exception as e:
                lost.append((cons[a[1]].key, repr(e)))
        # proofs that fail with a counter model: search for a failing input at larger sizes
        if not any(x.get("fails") for x in rres):
            bad = [r["idx"] for r in results if refuted(r)]
            hit = [i for i in bad if "r" in cons[i].modes]
            # proof-only contracts: the run-time contracts of the same functions
            for i in bad:
                if "r" not in cons[i].modes:
                    hit += [j for j in idxs if "r" in cons[j].modes and set(cons[j].funcs) & set(cons[i].funcs)]
            more = [(pid, i, seed + 17, 10**6, 30, "big") for i in sorted(set(hit))][:8]
            for a, r in [(a, pool.apply_async(rjob, (a,))) for a in more]:
                try:
                    rres.append(r.get(timeout=60))
                except Exception as e:
                    lost.append((cons[a[1]].key + " (search)", repr(e)))
        pool.terminate()
    return decide(pid, tier, seed, cons, results, rres, lost, t0, verbose)


def refuted(r):
    """obligations of a contract whose negation has a counter model at every instantiation level, in a proof that did not go through"""
    p = r.get("proof")
    if not p or p["ok"]:
        return []
    return sorted({k for q in ("proof", "proof_modular") if r.get(q) for k, o in r[q]["obl"].items() if o.get("refuted")})


def write_replay(pid, con, name, record, detail, how):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s_%s.json" % (pid, fname(con.key), fname(name)))
    json.dump(
        {
            "property": pid,
            "contract": con.key,
            "obligation": name,
            "functions": con.funcs,
            "how": how,
            "inputs": jsonable(record) if record is not None else None,
            "output": detail,
            "replay_cmd": "/opt/venv/bin/python /verif/check.py --replay " + p,
        },
        open(p, "w"),
        indent=1,
    )
    return p


def unjson(x):
    if isinstance(x, dict):
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(v) for v in x]
    if x in ("inf", "-inf", "nan"):
        return float(x)
    return x


def replay(path):
    r = json.load(open(path))
    cons = load(r["property"])
    from . import verify as V
    import numpy as np

    con = [c for c in cons if c.key == r["contract"]][0]
    if r["inputs"] is None:
        print("no failing input; failed obligation %s\n%s" % (r["obligation"], r["output"]))
        return 1
    rec = unjson(r["inputs"])
    if "__rng__" in rec:
        st, env, f = V.run_conc(con, rng=np.random.RandomState(rec["__rng__"]))
    else:
        st, env, f = V.run_conc(con, record=rec)
    print(st, f)
    return 1 if st == "fail" else 0


def decide(pid, tier, seed, cons, results, rres, lost, t0, verbose):
    from . import verify as V

    viol = []
    n_obl = n_ok = 0
    per = []
    undis = []
    assumptions = set()
    queries, solver_s = 0, 0.0
    funcs_p, funcs_b, funcs_r = set(), set(), set()
    for r in results:
        con = cons[r["idx"]]
        d = {"contract": r["key"], "functions": r["funcs"]}
        if r.get("error"):
            d["error"] = r["error"]
            undis.append((r["key"], r["error"]))
        for mode in ("proof", "proof_modular", "bounded"):
            rep = r.get(mode)
            if rep:
                queries += rep["queries"]
                solver_s += rep["solver_s"]
        p = r.get("proof")
        if p:
            no = sum(o["proved"] + o["sat"] + o["unknown"] for o in p["obl"].values())
            ok = sum(o["proved"] for o in p["obl"].values())
            n_obl += no + (1 if p["paths"]["unsupported"] else 0)
            n_ok += ok
            d.update(
                mode="proof (unbounded)", obligations=no, discharged=ok, paths=p["paths"], names=sorted(p["obl"]), ok=p["ok"],
                modular=r.get("modular"), wall_s=p["wall"],
            )
            if not p["ok"]:
                why = "; ".join(
                    ["%s: %d sat %d unknown %s" % (k, o["sat"], o["unknown"], o.get("detail", "")) for k, o in p["obl"].items() if o["sat"] or o["unknown"]]
                    + ["outside reach: " + u for u in p["unsup"][:2]]
                    + ([] if p["nonvac"] else ["vacuous"])
                )
                undis.append((r["key"], why))
            else:
                funcs_p.update(r["funcs"])
        b = r.get("bounded")
        if b:
            d["bounded"] = {"paths": b["paths"], "obligations": sum(sum(o[q] for q in ("proved", "sat", "unknown")) for o in b["obl"].values()),
                            "discharged": sum(o["proved"] for o in b["obl"].values()), "unsupported": b["unsup"][:3], "ok": b["ok"], "wall_s": b["wall"]}
            if b["ok"]:
                funcs_b.update(r["funcs"])
            hit = False
            for name, rec in b["cex"]:
                st, env, f = V.run_conc(con, record=rec)
                if st == "fail":
                    path = write_replay(pid, con, f[0], rec, f[1], "counter-model of the bounded symbolic run, replayed on the real code")
                    viol.append((con, f[0], path, True))
                    hit = True
                    break
            if not hit:
                sat = [k for k, o in b["obl"].items() if o["sat"]]
                if sat:
                    d["bounded"]["sat_not_replayed"] = sat
                # a counter model that the real code does not confirm counts only when the query is
                # about fully interpreted functions (log, exp, t distribution are known by axioms only)
                sat = [k for k in sat if b["obl"][k].get("exact_sat")]
                if sat:
                    path = write_replay(pid, con, sat[0], None, {"verifier": "z3: sat", "counter_models": jsonable(b["cex"][:3]), "obligations": b["obl"]}, "counter-model not reproduced")
                    viol.append((con, sat[0], path, False))
        bad = refuted(r)
        if bad and not any(x[0] is con for x in viol):
            tgt = ([con] if "r" in con.modes else []) + [c for c in cons if "r" in c.modes and c is not con and "r" not in con.modes and set(c.funcs) & set(con.funcs)]
            for name, rec in [x for q in ("proof", "proof_modular") if r.get(q) for x in r[q]["cex"]]:
                for c in tgt:
                    st, env, f = V.run_conc(c, record=rec)
                    if st == "fail" and (c is con or f[0] != "well-formed-result"):
                        path = write_replay(pid, c, f[0], rec, f[1], "counter-model of the failed obligation %s of %s, replayed on the real code" % (name, con.key))
                        viol.append((c, f[0], path, True))
                        break
                if any(x[3] for x in viol):
                    break
        if bad and not any(x[0] is con for x in viol):
            out = {q: {"obligations": r[q]["obl"], "unsupported": r[q]["unsup"]} for q in ("proof", "proof_modular") if r.get(q)}
            path = write_replay(pid, con, bad[0], None, {"verifier": "z3: counter model of the verification condition (sat)", "failed": bad, "runs": out}, "failed proof obligation, no failing input found")
            viol.append((con, bad[0], path, False))
        per.append(d)
    ev = {"runs": 0, "checked": 0, "distinct": 0, "rejected": 0}
    samples = []
    rper = []
    for r in rres:
        con = cons[r["idx"]]
        for k in ev:
            ev[k] += r[k]
        if r["sample"] is not None and len(samples) < 6:
            samples.append({"contract": r["key"], "inputs": trunc(r["sample"], 400)})
        rper.append({"contract": r["key"], "runs": r["runs"], "accepted": r["ok"], "rejected_by_precondition": r["rejected"], "assertions": r["checked"]})
        funcs_r.update(con.funcs)
        for name, detail, rec in r["fails"][:1]:
            path = write_replay(pid, con, name, rec, detail, "contract violated at run time on a generated input")
            viol.append((con, name, path, True))
        if r["ok"] == 0 and not r["fails"]:
            undis.append((r["key"], "runtime: no generated input satisfied the precondition"))
    for l in lost:
        undis.append(l)
    real = [x for x in viol if x[3]]
    final = real if real else viol
    total_checks = n_obl + ev["checked"]
    trusted = [
        "z3 %s / cvc5 (solvers)" % __import__("z3").get_version_string(),
        "pyvc symbolic executor and lemma instantiation (/verif/pyvc)",
        "facades of numpy/scipy/pandas/decimal: assumed contracts on the dependencies (/verif/pyvc/npf.py, spf.py, pdf.py, decf.py)",
        "floating point treated as extended reals (no rounding/overflow); np.isclose exact",
    ]
    proved_all = n_obl > 0 and n_obl == n_ok and not [u for u in undis]
    has_proof = any("p" in c.modes for c in cons)
    level = "proof" if has_proof else "exploration"
    mf = os.path.join(VERIF, "MANIFEST.json")
    try:
        for c in json.load(open(mf))["checks"]:
            if c["property"] == pid:
                level = c["level"]
    except Exception:
        pass
    evid = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "obligations": n_obl,
            "discharged": n_ok,
            "checker_cmd": "/opt/venv/bin/python /verif/check.py %s%s" % (pid, " --thorough" if tier == "thorough" else ""),
            "trusted_base": trusted,
            "functions_proved": sorted(funcs_p),
            "functions_bounded_only": sorted((funcs_b | funcs_r) - funcs_p),
            "contracts": per,
            "solver_queries": queries,
            "solver_s": round(solver_s, 2),
            "undischarged": [{"contract": a, "why": b} for a, b in undis],
            "runtime_monitoring": rper,
            "evaluations": ev["runs"],
            "distinct_nontrivial": ev["distinct"],
            "rule": "inputs drawn by the contract's generators (ties, constants, zeros, wide magnitudes, special values); non-trivial = accepted by the precondition and distinct",
            "samples": samples,
            "runtime_assertions": ev["checked"],
            "source_sha256": source_hash(),
        },
        "assumptions": sorted(assumptions)
        + ["IEEE rounding, overflow and signed zero are not modelled in proofs; the run-time monitoring (bounded) executes the real floats"]
        + [a for c in [sys.modules["props." + pid]] for a in getattr(c, "ASSUMPTIONS", [])],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(final),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(evid, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d runtime runs (%d assertions), %.1fs" % (pid, n_ok, n_obl, ev["runs"], ev["checked"], time.time() - t0))
    for a, b in undis:
        print("  undischarged %s: %s" % (a, str(b)[:700]))
    if verbose:
        for d in per:
            print("  %s %s %s/%s paths=%s %.1fs%s" % ("ok " if d.get("ok") else "-- ", d["contract"], d.get("discharged"), d.get("obligations"), list(d.get("paths", {}).values()), d.get("wall_s", 0), " modular" if d.get("modular") else ""), ("bounded %s" % json.dumps(d["bounded"])[:300]) if d.get("bounded") else "")
        if "-vv" in sys.argv:
            for d in rper:
                print("  ", json.dumps(d))
    for con, name, path, rp in final:
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if rp else " no-failing-input-found"))
        if verbose:
            print("    ", con.key, name, open(path).read()[:1500])
    if final:
        return 1
    if total_checks == 0:
        print("no obligations generated")
        return 2
    return 0
