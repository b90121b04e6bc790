"""Symbolic verification of one contract: every feasible path, every obligation."""
import time
import traceback
import os
from . import terms as T
from . import prover as P
from . import evalt
from . import loader as L
from . import nparr
from .paths import Paths
from .env import SymEnv, Reject, Skip, ShapeMismatch


def in_repo(tb):
    root = os.path.realpath(os.path.join(L.REPO, "OpenNTN"))
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def export(val, choices):
    apps = {}
    for key, v in val.apps.items():
        apps.setdefault(key[0], []).append([[int(i) for i in key[1:]], v if not isinstance(v, bool) else bool(v)])
    return {"vars": dict(val.vars), "apps": apps,
            "choices": {k: v for k, v in choices if isinstance(v, (str, int, float, bool))}}


def run(c, **kw):
    """unbounded; where the code leaves the symbolic subset (e.g. a Python loop over a symbolic dimension), once more with every
    dimension fixed to a small number - reported as bounded"""
    if os.environ.get("NTN_BOUNDED"):
        return _run(c, bounded=True, **kw)
    out = _run(c, **kw)
    kinds = {p["kind"] for p in out["problems"]}
    if "unsupported" in kinds and kinds <= {"unsupported"} and not out["refuted"]:
        kw["deadline"] = min(kw.get("deadline") or 1e18, time.time() + 150)
        o2 = _run(c, bounded=True, **kw)
        o2["fallback"] = out["problems"][0]["what"]
        o2["wall"] = round(o2.get("wall", 0) + out.get("wall", 0), 2)
        return o2
    return out


def _run(c, seed=1, limit=20.0, refute_budget=6.0, deadline=None, max_paths=3000, shard=None, bounded=False):
    t00, cpu0 = time.time(), time.process_time()
    effort = max(200.0, deadline - t00) if deadline else 0
    z0, r0, c0 = P.TIMES["z3"], P.TIMES["ring"], P.TIMES["cvc5"]
    opts = {"loader": None, "limit": limit, "sample": {}, "memo": {}, "bounded": bounded, "nref": 0}
    opts["late"] = lambda: (None if not deadline or time.time() <= deadline else
                            # given up after real effort, or merely starved of processor time
                            "budget" if time.process_time() - cpu0 >= 0.6 * effort else "timeout")
    opts["refute"] = lambda g, h, b: evalt.refute(g, h, dict(P.RANGES), {}, seed=seed, budget=b, sample=opts["sample"])
    paths = Paths(max_paths)
    if shard is not None:
        paths.script = [[shard, []]]
    out = {"contract": c.id, "obligations": [], "problems": [], "refuted": [], "paths": 0, "pruned": 0, "names": {}}
    nref = 0
    assumed_paths = 0
    try:
        opts["loader"] = L.Loader()
        opts["loader"].get(L.PKG)
    except T.Unsupported as e:
        out["problems"].append({"kind": "unsupported", "what": str(e)[:300]})
        return out
    except Exception as e:
        out["problems"].append({"kind": "load", "what": "%s: %s" % (type(e).__name__, str(e)[:300])})
        return out
    while True:
        if opts["late"]():
            out["problems"].append({"kind": opts["late"](), "what": "time budget of the check used up"})
            break
        env = None
        try:
            paths.start()
            T.PATHS[0] = paths
            nparr.LOOPS.clear()
            env = SymEnv(paths, opts)
            c.fn(env)
            if not env.records:
                out["empty_paths"] = out.get("empty_paths", 0) + 1
        except Reject:
            out["pruned"] += 1
        except Skip:
            out["problems"].append({"kind": "skip", "what": "not applicable symbolically"})
        except (T.Unsupported, T.TooBig, T.KeepSym, RecursionError) as e:
            out["problems"].append({"kind": "unsupported", "what": "%s: %s" % (type(e).__name__, str(e)[:300]),
                                    "where": _where(e)})
        except ShapeMismatch as e:
            out["problems"].append({"kind": "shape", "what": str(e)[:300]})
            _witness(out, env, opts, c, "shape: " + str(e)[:200], seed, paths)
        except Exception as e:
            w = "%s: %s" % (type(e).__name__, str(e)[:300])
            if P.smt(T.FALSE, list(paths.hyps), ms=3000, depth=1)[0] == "unsat":
                out["infeasible_exc"] = out.get("infeasible_exc", 0) + 1
            elif in_repo(e.__traceback__):
                out["problems"].append({"kind": "exception", "what": w, "where": _where(e)})
                _witness(out, env, opts, c, "no exception on valid input: " + w, seed, paths)
            else:
                out["problems"].append({"kind": "driver", "what": w, "where": _where(e)})
        if env is not None:
            env.close()
        out["paths"] += 1
        if env is not None:
            for r in env.records:
                o = {"name": r["name"], "status": r["status"], "backend": r["backend"], "t": round(r.get("time", 0), 3)}
                if r["status"] != "proved":
                    o["choices"] = [(k, str(v)) for k, v in r["choices"]]
                    o["detail"] = (r.get("detail") or "") + " " + r.get("note", "")
                    if not r.get("norefute") and nref < 12:
                        nref += 1
                        val, n = opts["refute"](r["goal"], r["hyps"], refute_budget)
                        o["samples"] = n
                        if val is not None:
                            o["status"] = "refuted"
                            out["refuted"].append({"obligation": r["name"], "note": r.get("note", ""),
                                                   "overrides": export(val, r["choices"]),
                                                   "vc": T.show(r["goal"])[:1500]})
                out["obligations"].append(o)
            # vacuity: the hypotheses of the path must be satisfiable
            hy = [h for h in paths.hyps]
            if env.records and hy:
                assumed_paths += 1
                if P.smt(T.FALSE, hy, ms=1500, depth=1)[0] == "unsat":
                    out["infeasible"] = out.get("infeasible", 0) + 1
        T.PATHS[0] = None
        if not paths.next():
            break
    if assumed_paths and out.get("infeasible", 0) == assumed_paths:
        out["problems"].append({"kind": "vacuous", "what": "contradictory precondition"})
    out["wall"] = round(time.time() - t00, 2)
    out["z3_s"] = round(P.TIMES["z3"] - z0, 2)
    out["ring_s"] = round(P.TIMES["ring"] - r0, 2)
    out["cvc5_s"] = round(P.TIMES["cvc5"] - c0, 2)
    out["vacuity_checked"] = assumed_paths
    return out


def _where(e):
    fr = traceback.extract_tb(e.__traceback__)
    rp = [f for f in fr if f.filename.startswith(L.REPO)]
    f = rp[-1] if rp else fr[-1]
    return "%s:%s" % (f.filename, f.lineno)


def _witness(out, env, opts, c, name, seed, paths):
    """an input that drives the real code down this path"""
    val, n = evalt.refute(T.FALSE, list(paths.hyps), dict(P.RANGES), {}, seed=seed, budget=5.0, sample=opts["sample"])
    if val is not None:
        for nm in list(P.RANGES):
            if nm not in val.vars and "." not in nm:
                pass
        for h in paths.hyps:
            for x in T.walk(h):
                if x.op == "v" and not x.args[0].startswith("#"):
                    val.ev(x, {})
        out["refuted"].append({"obligation": name, "note": "", "overrides": export(val, env.choices), "vc": name})
