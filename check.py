#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   |   check.py --replay FILE   |   check.py --sym CONTRACT

Verifies the contracts of one property against the current sources of /repo."""
import argparse
import json
import multiprocessing as mp
import os
import pathlib
import re
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(ROOT))
sys.setrecursionlimit(20000)
from ntnvc import registry  # noqa: E402

VENV = os.environ.get("NTN_PY", "/opt/venv/bin/python")
REPO = os.environ.get("NTN_REPO", "/repo")
FINDINGS = ROOT / "KNOWN_FINDINGS.txt"


def sym_worker(a):
    cid, kw = a
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    threading.stack_size(512 << 20)
    res = {}

    def go():
        from ntnvc import symrun
        c = next(c for c in registry.CONTRACTS if c.id == cid)
        try:
            res["r"] = symrun.run(c, **kw)
        except MemoryError:
            res["r"] = {"contract": cid, "obligations": [], "refuted": [], "paths": 0,
                        "problems": [{"kind": "memory", "what": "memory limit"}]}
        except Exception as e:
            import traceback
            res["r"] = {"contract": cid, "obligations": [], "refuted": [], "paths": 0,
                        "problems": [{"kind": "engine", "what": "%s: %s" % (type(e).__name__, str(e)[:300]),
                                      "where": "".join(traceback.format_tb(e.__traceback__)[-3:])[-700:]}]}
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res["r"]


def conc_start(jobs, budget, prop):
    d = tempfile.mkdtemp(prefix="ntnvc.")
    rq, rs = os.path.join(d, "q.json"), os.path.join(d, "r.json")
    json.dump({"prop": prop, "budget": budget, "jobs": jobs}, open(rq, "w"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", OMP_NUM_THREADS="2", HOME=d,
               MPLCONFIGDIR=d, CUDA_VISIBLE_DEVICES="-1")
    p = subprocess.Popen([VENV, str(ROOT / "ntnvc" / "conc.py"), rq, rs], stdout=subprocess.DEVNULL,
                         stderr=open(os.path.join(d, "err"), "w"), env=env, cwd=d)
    return p, d, rs


def conc_wait(h, timeout):
    p, d, rs = h
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    r = None
    if os.path.exists(rs):
        try:
            r = json.load(open(rs))
        except ValueError:
            r = None
    err = open(os.path.join(d, "err")).read()[-1500:]
    for f in os.listdir(d):
        fp = os.path.join(d, f)
        if os.path.isfile(fp):
            os.unlink(fp)
    subprocess.run(["rm", "-rf", d])
    if r is None:
        r = {"results": [], "error": "concrete executor died: " + err}
    return r


def read_findings():
    out = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) contract=(\S+) obligation=(\S+) (.*)", line)
            if m:
                out.append(dict(zip(("property", "contract", "obligation", "what"), m.groups())))
    return out


def safe(s):
    return re.sub(r"[^A-Za-z0-9_.-]+", "_", s)[:80]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--nosym", action="store_true")
    ap.add_argument("--noconc", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    registry.load_all()
    if a.selftest:
        from ntnvc import terms as T, prover as P, loader
        x, y = T.var("x"), T.var("y")
        ok = P.prove(T.eq((x + y) * (x - y), x * x - y * y)).ok and P.prove(T.le(T.const(0), T.sqrt(x * x + 1))).ok
        ok = ok and not P.prove(T.le(x, y)).ok
        loader.Loader().get(loader.PKG)
        from ntnvc import conform
        agree, uns, bad = 0, [], []
        for sd in (1, 2):
            o = subprocess.run([VENV, "-B", str(ROOT / "ntnvc" / "conform.py"), "real", str(sd)], capture_output=True, text=True, timeout=600,
                               env=dict(os.environ, TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="-1"))
            n, u, b = conform.model(sd, json.loads(o.stdout.strip().splitlines()[-1]))
            agree, uns, bad = agree + n, u, bad + b
        print("operation model against TensorFlow: %d agreements, %d outside the model, %d disagreements" % (agree, len(uns), len(bad)))
        for b in bad:
            print("  " + b)
        ok = ok and not bad
        print("ntnvc: prover %s, package loads, %d contracts" % ("ok" if ok else "BROKEN", len(registry.CONTRACTS)))
        return 0 if ok else 2
    if a.replay:
        rp = json.load(open(a.replay))
        if not rp.get("job"):
            print("no executable replay: " + rp.get("verifier_output", ""))
            return 1
        r = conc_wait(conc_start([rp["job"]], 600, rp["property"]), 700)
        print(json.dumps(r, indent=1)[:6000])
        return 1 if any(x["status"] == "failed" for x in r["results"]) else 0
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    cs = registry.for_prop(a.prop)
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    if not cs:
        print("no contract for property %s" % a.prop)
        return 3
    findings = [f for f in read_findings() if f["property"] == a.prop]
    budget_total = 1500.0 if thorough else 420.0
    # ---- concrete conformance jobs (run in parallel with the proofs)
    handles = []
    if not a.noconc:
        jobs = []
        for c in cs:
            n = c.runs[1] if thorough else c.runs[0]
            jobs += [{"contract": c.id, "seed": seed * 1000 + k} for k in range(n)]
        jobs.sort(key=lambda j: j["seed"])
        nproc = 3 if thorough else (2 if len(jobs) > 60 else 1)
        for k in range(nproc):
            handles.append(conc_start(jobs[k::nproc], 1200 if thorough else 240, a.prop))
    # ---- proofs
    sym = []
    todo = [c for c in cs if c.symbolic]
    if todo and not a.nosym:
        kw = dict(seed=seed, limit=60.0 if thorough else 20.0, refute_budget=20.0 if thorough else 6.0,
                  deadline=t0 + budget_total)
        ctx = mp.get_context("fork")
        with ctx.Pool(min(7, sum(max(1, c.shards) for c in todo)), maxtasksperchild=1) as pool:
            it = [(c, pool.apply_async(sym_worker, ((c.id, dict(kw, shard=k)),)))
                  for c in todo for k in (range(c.shards) if c.shards else [None])]
            for c, h in it:
                try:
                    sym.append(h.get(max(5.0, budget_total + 60 - (time.time() - t0))))
                except mp.TimeoutError:
                    sym.append({"contract": c.id, "obligations": [], "refuted": [], "paths": 0,
                                "problems": [{"kind": "timeout", "what": "no answer within the time budget"}]})
            pool.terminate()
    conc = {"results": [], "error": None}
    for h in handles:
        r = conc_wait(h, 1500 if thorough else 300)
        conc["results"] += r["results"]
        conc["error"] = conc["error"] or r.get("error")
        conc["import_from_repo"] = r.get("import_from_repo")
    # ---- replay of refutations
    rep = {}
    rjobs = []
    for s in sym:
        seen = {}
        for k, rf in enumerate(s["refuted"]):
            if seen.get(rf["obligation"], 0) >= 2 or len(seen) > 8:
                continue
            seen[rf["obligation"]] = seen.get(rf["obligation"], 0) + 1
            for sd in range(3):
                rjobs.append({"contract": s["contract"], "seed": seed * 1000 + sd, "overrides": rf["overrides"],
                              "tag": [rf["obligation"], k]})
    if rjobs and not a.noconc:
        r = conc_wait(conc_start(rjobs, 200, a.prop), 260)
        conc["error"] = conc["error"] or r.get("error")
        for j, x in zip(rjobs, r["results"]):
            x["job"] = j
            rep.setdefault((j["contract"], j["tag"][0], j["tag"][1]), []).append(x)
    # ---- verdict
    viol = {}
    known = {}
    rdir = ROOT / "evidence" / "replay"
    rdir.mkdir(parents=True, exist_ok=True)

    def base(n):
        return re.sub(r"\[.*", "", n)

    def report(cid, ob, job, detail, nofail=False):
        for f in findings:
            if f["contract"] == cid and f["obligation"] == base(ob).replace(" ", "_"):
                known[(cid, f["obligation"])] = f
                return
        key = (cid, base(ob))
        if key in viol:
            return
        p = rdir / ("%s.%s.json" % (safe(cid), safe(base(ob))))
        json.dump({"property": a.prop, "contract": cid, "obligation": ob, "job": job, "detail": detail,
                   "replay_with": "python3-vt check.py --replay %s" % p, "verifier_output": detail if nofail else ""},
                  open(p, "w"), indent=1, default=str)
        viol[key] = (p, nofail, detail)

    for x in conc["results"]:
        if x["status"] == "failed":
            for n, note in x["failures"]:
                report(x["contract"], n, {"contract": x["contract"], "seed": x["seed"]},
                       {"failure": note, "inputs": x.get("inputs")})
    for (cid, ob, k), xs in rep.items():
        for x in xs:
            if x["status"] == "failed":
                for n, note in x["failures"]:
                    report(cid, n, x["job"], {"failure": note, "inputs": x.get("inputs")})
                break
    if conc["error"] and conc.get("import_from_repo"):
        report(cs[0].id, "the package imports", None, {"error": conc["error"]}, nofail=True)
    # ---- accounting
    tot = sum(len(s["obligations"]) for s in sym)
    proved = sum(o["status"] == "proved" for s in sym for o in s["obligations"])
    cby = {c.id: c for c in cs}
    isb = lambda s: bool(cby[s["contract"]].bounded or s.get("fallback"))
    btot = sum(len(s["obligations"]) for s in sym if isb(s))
    bproved = sum(o["status"] == "proved" for s in sym for o in s["obligations"] if isb(s))
    undec = []
    for s in sym:
        for o in s["obligations"]:
            if o["status"] != "proved":
                undec.append({"contract": s["contract"], **o})
        for pr in s["problems"]:
            undec.append({"contract": s["contract"], "name": "(path)", "status": pr["kind"], "detail": pr["what"],
                          "where": pr.get("where", "")})
    backends = {}
    for s in sym:
        for o in s["obligations"]:
            if o["status"] == "proved":
                b = {"trivial": "ring normal form"}.get(o["backend"], o["backend"])
                backends[b] = backends.get(b, 0) + 1
    checked = sum(x.get("checked", 0) for x in conc["results"])
    ran = sum(x["status"] in ("ok", "failed") for x in conc["results"])
    conc_undec = [x for x in conc["results"] if x["status"] == "undecided"]
    bounded = sorted({c.id + ": " + c.bounded for c in cs if c.bounded})
    fall = {s["contract"]: s["fallback"] for s in sym if s.get("fallback")}
    bounded += ["%s: every dimension 2 or 3 (%s)" % kv for kv in sorted(fall.items())]
    unb = [c for c in cs if not c.bounded and c.symbolic and c.id not in fall]
    undec_ids = {u["contract"] for u in undec}
    fully = [c for c in unb if c.id not in undec_ids]
    functions = sorted({f for c in cs for f in c.functions})
    proved_fn = sorted({f for c in fully for f in c.functions})
    level = "proved" if unb and not undec and proved == tot and tot > btot else ("bounded" if tot else "exploration")
    # a verification condition the verifier does not accept is reported, with or without a failing input
    for u in undec:
        if u["status"] == "timeout" or (u["contract"] in {k[0] for k in viol}):
            continue
        report(u["contract"], u["name"], None, {
            "failure": "obligation not discharged (%s): %s %s" % (u["status"], u.get("detail", ""), u.get("where", "")),
            "vc": next((r["vc"] for s in sym for r in s["refuted"] if s["contract"] == u["contract"]
                        and r["obligation"] == u["name"]), None), "choices": u.get("choices")}, nofail=True)
    for x in conc_undec:
        if x["contract"] not in {k[0] for k in viol} and not cby[x["contract"]].symbolic:
            report(x["contract"], "contract executes", None, {"failure": x.get("error")}, nofail=True)
    manifest_level = None
    try:
        man = json.load(open(ROOT / "MANIFEST.json"))
        manifest_level = next((c["level"] for c in man["checks"] if c["property"] == a.prop), None)
    except Exception:
        pass
    from ntnvc import trusted
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "proof" if level == "proved" else ("other" if manifest_level in (None, "proof") else manifest_level),
        "coverage": {
            "obligations": tot - btot, "discharged": proved - bproved,
            "bounded_obligations": btot, "bounded_discharged": bproved,
            "evaluations": ran, "distinct_nontrivial": checked,
            "rule": "random admissible inputs drawn per contract from VERIF_SEED; one evaluation = one execution of the real "
                    "code with every clause of the contract evaluated; distinct_nontrivial counts evaluated clause instances",
            "samples": [x.get("sample") for x in conc["results"] if x.get("sample")][:3],
            "explanation": "contracts of the property discharged by symbolic execution of the real sources + prover; "
                           "contracts listed under `bounded` fix some dimension or option and are not counted as proved",
            "checker_cmd": "python3-vt check.py %s --tier %s" % (a.prop, a.tier),
            "trusted_base": trusted.BASE,
            "proof_status_this_run": level,
            "contracts": len(cs), "functions_under_contract": functions, "functions_fully_proved": proved_fn,
            "paths": sum(s["paths"] for s in sym), "backends": backends,
            "solver_seconds": {"z3": round(sum(s.get("z3_s", 0) for s in sym), 2),
                               "ring": round(sum(s.get("ring_s", 0) for s in sym), 2),
                               "cvc5": round(sum(s.get("cvc5_s", 0) for s in sym), 2)},
            "bounded": bounded,
            "undecided": undec[:40],
            "concrete_runs": ran, "concrete_checks": checked,
            "concrete_rejected": sum(x["status"] == "rejected" for x in conc["results"]),
            "concrete_undecided": [x.get("error", "")[:300] for x in conc_undec][:5],
            "vacuity_checked_paths": sum(s.get("vacuity_checked", 0) for s in sym),
            "obligation_names": sorted({s["contract"] + "/" + base(o["name"]) for s in sym for o in s["obligations"]}),
        },
        "assumptions": trusted.ASSUMPTIONS + [x for c in cs for x in getattr(c, "assumes", [])],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
        "violation_details": [{"contract": k[0], "obligation": k[1], "replay": str(v[0]), "no_failing_input": v[1]}
                       for k, v in viol.items()],
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    json.dump(ev, open(ROOT / "evidence" / (a.prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d contracts, %d/%d obligations discharged %s, %d concrete runs (%d checks), %.1fs" % (
        a.prop, len(cs), proved, tot, backends, ran, checked, time.time() - t0))
    for u in undec[:(100 if a.v else 12)]:
        print("  not discharged: %s / %s: %s %s %s" % (
            u["contract"], u["name"], u["status"], str(u.get("detail", ""))[:160], u.get("where", "")))
    for x in conc_undec[:(20 if a.v else 3)]:
        print("  concrete run undecided: %s seed %s: %s" % (x["contract"], x["seed"], x.get("error", "")[:500]))
    if a.v:
        for s in sym:
            print("   %-40s paths %4d obligations %4d wall %.1fs %s" % (s["contract"], s["paths"], len(s["obligations"]), s.get("wall", 0), "BOUNDED: " + s["fallback"] if s.get("fallback") else ""))
        for c in cs:
            xs = [x for x in conc["results"] if x["contract"] == c.id]
            if xs:
                print("   conc %-40s runs %d rejected %d avg %.2fs checks %d" % (
                    c.id, len(xs), sum(x["status"] == "rejected" for x in xs), sum(x["t"] for x in xs) / len(xs),
                    sum(x.get("checked", 0) for x in xs)))
    for k, f in known.items():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    for k, (p, nofail, detail) in viol.items():
        print("  failed obligation %s / %s: %s" % (k[0], k[1], str(detail.get("failure", detail))[:300]))
        if a.v:
            print("     inputs:", str(detail.get("inputs"))[:1500])
    for k, (p, nofail, detail) in viol.items():
        print("VIOLATION property=%s replay=%s%s" % (a.prop, p, " no-failing-input-found" if nofail else ""))
    if viol:
        return 1
    if conc["error"] and not a.noconc:
        print("concrete executor error: %s" % conc["error"])
        return 4
    if (tot == 0 and not a.nosym and todo) and ran == 0:
        print("no obligation was generated")
        return 5
    return 0


if __name__ == "__main__":
    sys.exit(main())
