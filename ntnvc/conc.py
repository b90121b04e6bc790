"""Concrete executor: runs contracts on the real code with real TensorFlow (under /opt/venv).

usage: conc.py REQUEST.json RESPONSE.json
request: {"prop": id, "budget": s, "jobs": [{"contract": id, "seed": n, "overrides": {...}|null}, ...]}
"""
import json
import os
import sys
import time
import traceback
import types
import importlib
import importlib.util
import pathlib

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
sys.dont_write_bytecode = True
REPO = os.environ.get("NTN_REPO", "/repo")
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
NAME = "sionna.phy.channel.tr38811"


class Draw:
    def __init__(self, kind, dims, raw, value, **par):
        self.kind, self.dims, self.raw, self.value, self.par = kind, dims, raw, value, par


class Ctx:
    def __init__(self):
        import tensorflow as tf
        import numpy as np
        self.np = np
        self.tf = tf
        try:
            tf.config.threading.set_intra_op_parallelism_threads(2)
            tf.config.threading.set_inter_op_parallelism_threads(2)
        except Exception:
            pass
        import sionna.phy as phy
        self.phy = phy
        for k in list(sys.modules):
            if k == NAME or k.startswith(NAME + "."):
                del sys.modules[k]
        root = pathlib.Path(REPO) / "OpenNTN"
        spec = importlib.util.spec_from_file_location(NAME, root / "__init__.py", submodule_search_locations=[str(root)])
        m = importlib.util.module_from_spec(spec)
        sys.modules[NAME] = m
        spec.loader.exec_module(m)
        import sionna.phy.channel as ch
        ch.tr38811 = m
        self.pkg = m
        self.env = None
        self._patch()

    def module(self, name):
        return importlib.import_module(NAME + "." + name)

    def rdtype(self): return self.phy.config.tf_rdtype
    def cdtype(self): return self.phy.config.tf_cdtype
    def set_precision(self, p): self.phy.config.precision = p

    def begin(self, env):
        self.env = env
        self.set_precision("double")

    def _raw(self, nm, v):
        for idx, x in self.env.ov.get("apps", {}).get(nm, []):
            if len(idx) == v.ndim and all(0 <= i < d for i, d in zip(idx, v.shape)):
                v[tuple(idx)] = x
        return v

    def uniform(self, shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
        tf, np, env = self.tf, self.np, self.env
        dtype = tf.as_dtype(dtype or tf.float32)
        dims = tuple(int(x) for x in np.asarray(shape).reshape(-1))
        if maxval is None:
            if dtype.is_integer:
                raise ValueError("Must specify maxval for integer dtype")
            maxval = 1
        nm = "unif%d" % len(env.log)
        lo, hi = tf.convert_to_tensor(minval, dtype), tf.convert_to_tensor(maxval, dtype)
        if dtype.is_integer:
            raw = self._raw(nm, env.nrng.integers(int(lo), int(hi), dims))
            raw = tf.constant(raw, dtype)
            env.log.append(Draw("uniform_int", dims, raw, raw, lo=lo, hi=hi, name=nm))
            return raw
        r = np.minimum(env.nrng.random(dims), 1 - 1e-6)
        if env.rng.random() < .2:
            r = np.where(env.nrng.random(dims) < .3, 0., r)
        raw = tf.constant(self._raw(nm, r), dtype)
        val = lo + (hi - lo) * raw
        env.log.append(Draw("uniform", dims, raw, val, lo=lo, hi=hi, name=nm))
        return val

    def normal(self, shape, mean=0.0, stddev=1.0, dtype=None, seed=None, name=None):
        tf, np, env = self.tf, self.np, self.env
        dtype = tf.as_dtype(dtype or tf.float32)
        dims = tuple(int(x) for x in np.asarray(shape).reshape(-1))
        nm = "norm%d" % len(env.log)
        m, s = tf.convert_to_tensor(mean, dtype), tf.convert_to_tensor(stddev, dtype)
        z = env.nrng.standard_normal(dims) * env.rng.choice([1., 1., 3.])
        raw = tf.constant(self._raw(nm, z), dtype)
        val = m + s * raw
        env.log.append(Draw("normal", dims, raw, val, mean=m, std=s, name=nm))
        return val

    def _patch(self):
        tf = self.tf
        tf.random.uniform = self.uniform
        tf.random.normal = self.normal
        ns = types.SimpleNamespace(uniform=self.uniform, normal=self.normal)
        self.phy.config._tf_rng = ns
        orig = tf.linalg.cholesky

        def chol(x, name=None):
            out = orig(x)
            self.env.chols.append((x, out))
            return out
        tf.linalg.cholesky = chol


def from_repo(tb):
    """does the exception come from inside the code under verification?"""
    root = str(pathlib.Path(REPO) / "OpenNTN")
    frames = traceback.extract_tb(tb)
    names = [os.path.realpath(f.filename) for f in frames]
    return any(n.startswith(os.path.realpath(root)) for n in names)


def show_inputs(env):
    out = {}
    for k, v in env.inputs.items():
        try:
            s = repr(v.tolist()) if hasattr(v, "tolist") else repr(v)
        except Exception:
            s = "?"
        out[k] = s if len(s) < 1500 else s[:1500] + "..."
    return out


def run_one(c, seed, ov, ctx):
    from ntnvc.env import ConcEnv, Reject, Skip, ShapeMismatch
    env = ConcEnv(seed, ctx, ov)
    res = {"contract": c.id, "seed": seed, "status": "ok", "failures": []}
    try:
        c.fn(env)
    except Reject:
        res["status"] = "rejected"
    except Skip:
        res["status"] = "skipped"
    except ShapeMismatch as e:
        env.failures.append(("shape", str(e)))
    except Exception as e:
        txt = "%s: %s" % (type(e).__name__, str(e)[:300])
        if from_repo(e.__traceback__):
            fr = [f for f in traceback.extract_tb(e.__traceback__) if REPO in f.filename]
            env.failures.append(("no exception on valid input", "%s (at %s:%s)" % (txt, fr[-1].filename if fr else "?", fr[-1].lineno if fr else 0)))
        else:
            res["status"] = "undecided"
            res["error"] = txt + " | " + "".join(traceback.format_tb(e.__traceback__)[-2:])[-600:]
    env.close()
    res["checked"] = env.checked
    if seed % 1000 == 0 and not env.failures:
        res["sample"] = {"contract": c.id, "seed": seed, "inputs": {k: v[:160] for k, v in list(show_inputs(env).items())[:8]}}
    if env.failures:
        res["status"] = "failed"
        res["failures"] = env.failures[:20]
        res["inputs"] = show_inputs(env)
    return res


def main():
    req = json.load(open(sys.argv[1]))
    from ntnvc import registry
    registry.load_all()
    cs = {c.id: c for c in registry.CONTRACTS}
    out = {"results": [], "error": None}
    try:
        ctx = Ctx()
    except Exception as e:
        # the package itself does not import
        out["error"] = "%s: %s" % (type(e).__name__, str(e)[:500])
        out["import_from_repo"] = from_repo(e.__traceback__)
        json.dump(out, open(sys.argv[2], "w"))
        return
    t0 = time.time()
    for j in req["jobs"]:
        if time.time() - t0 > req.get("budget", 1e9):
            out["truncated"] = True
            break
        c = cs[j["contract"]]
        t1 = time.time()
        r = run_one(c, j["seed"], j.get("overrides"), ctx)
        r["t"] = round(time.time() - t1, 3)
        r["tag"] = j.get("tag")
        out["results"].append(r)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
