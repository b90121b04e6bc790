"""Differential check of the operation model (symtf) against the real TensorFlow.

python conform.py real SEED   (TensorFlow's interpreter: prints the results as JSON)
model(SEED, ref)              (the verifier's: evaluates the model's terms on the same inputs and compares)"""
import json
import random
import sys
import types


def inputs(seed, n, name, spec, sizes):
    kind, shape = spec
    shape = [sizes.get(s, s) for s in shape]
    r = random.Random("%d/%d/%s" % (seed, n, name))

    def one():
        v = round(r.uniform(-3, 3), 3) or .5
        return {"r": v, "p": abs(v) + .1, "u": round(r.uniform(-.99, .99), 3), "c": [v, round(r.uniform(-3, 3), 3)],
                "i": r.randint(-6, 6), "b": r.random() < .5, "j4": r.randint(0, 3)}[kind]

    def go(s):
        return one() if not s else [go(s[1:]) for _ in range(s[0])]
    return go(shape), shape


SIONNA = ["expand_to_rank", "insert_dims", "flatten_last_dims", "split_dim", "log10", "deg_2_rad", "rad_2_deg", "wrap_angle_0_360"]


def real(seed):
    import numpy as np
    import tensorflow as tf
    import sionna.phy
    from sionna.phy import utils as su, channel as sc
    from ntnvc import opcases
    sionna.phy.config.precision = "double"
    tf.ntn = types.SimpleNamespace(PI=sionna.phy.PI, SPEED_OF_LIGHT=sionna.phy.SPEED_OF_LIGHT, **{k: getattr(su, k, None) or getattr(sc, k) for k in SIONNA})
    out = {}
    for n, (name, f, ins) in enumerate(opcases.C):
        kw = {}
        for k, spec in ins.items():
            v, sh = inputs(seed, n, k, spec, opcases.SIZES)
            a = np.array(v)
            if spec[0] == "c":
                a = (a[..., 0] + 1j * a[..., 1])
            kw[k] = tf.constant(a, {"c": tf.complex128, "i": tf.int32, "j4": tf.int32, "b": tf.bool}.get(spec[0], tf.float64))
        try:
            y = f(tf, **kw).numpy()
            out[name] = dict(shape=list(y.shape), dtype=str(y.dtype), v=[[float(np.real(x)), float(np.imag(x))] for x in np.ravel(y)])
        except Exception as e:
            out[name] = dict(error="%s: %s" % (type(e).__name__, str(e)[:150]))
    print("\n" + json.dumps(out))


def model(seed, ref):
    """-> (agreeing, unsupported with symbolic sizes, list of disagreements)"""
    import itertools
    from . import terms as T, symtf as S, evalt, opcases, loader as L, paths
    ld = L.Loader()
    tf = ld.tf
    ph = ld.mods["sionna.phy"]
    tf.ntn = types.SimpleNamespace(PI=ph.PI, SPEED_OF_LIGHT=ph.SPEED_OF_LIGHT, **{k: getattr(ph.utils if k in ph.utils.__dict__ else ph.channel, k) for k in SIONNA})
    ok, uns, bad = 0, [], []
    for n, (name, f, ins) in enumerate(opcases.C):
        for symbolic in (True, False):
            p = paths.Paths()
            p.start()
            T.PATHS[0] = p
            val = evalt.Val(1, {}, {})
            kw = {}
            for s, v in opcases.SIZES.items():
                val.vars[s] = v
                p.assume(T.le(T.const(v), T.var(s, True)))      # large enough for the constant indices used
            for k, spec in ins.items():
                v, sh = inputs(seed, n, k, spec, opcases.SIZES)
                dims = tuple(S.dim(T.var(d, True)) if symbolic and isinstance(d, str) else opcases.SIZES.get(d, d) for d in spec[1])
                kind = spec[0]
                for idx in itertools.product(*map(range, sh)):
                    x = v
                    for i in idx:
                        x = x[i]
                    if kind == "c":
                        val.apps[("%s.re" % k,) + idx], val.apps[("%s.im" % k,) + idx] = x
                    else:
                        val.apps[(k,) + idx] = x
                if kind == "c":
                    kw[k] = S.STensor(S.complex128, dims, (lambda k: lambda i: S.Cx(T.app(k + ".re", *i), T.app(k + ".im", *i)))(k))
                elif kind == "b":
                    kw[k] = S.STensor(S.bool_, dims, (lambda k: lambda i: T.app(k, *i, kind="B"))(k))
                elif kind in ("i", "j4"):
                    T.INT_FUNS.add(k)
                    kw[k] = S.STensor(S.int32, dims, (lambda k: lambda i: T.app(k, *i))(k))
                else:
                    kw[k] = S.STensor(S.float64, dims, (lambda k: lambda i: T.app(k, *i))(k))
            want = ref[name]
            tag = name + (" (symbolic sizes)" if symbolic else "")
            try:
                y = S.convert(f(tf, **kw))
                num = lambda t: val.ev(T.const(t), {})
                shape = [int(num(d)) for d in y.dims]
                got = []
                for idx in itertools.product(*map(range, shape)):
                    e = y.elem(tuple(T.const(i) for i in idx))
                    got.append([num(e.re), num(e.im)] if isinstance(e, S.Cx) else [float(num(e)), 0.])
            except T.Unsupported as e:
                uns.append(tag + ": " + str(e)[:80])
                continue
            except Exception as e:
                if "error" not in want:
                    bad.append("%s: model raises %s: %s" % (tag, type(e).__name__, str(e)[:120]))
                continue
            finally:
                T.INT_FUNS.difference_update(k for k, s in ins.items() if s[0] in ("i", "j4"))
                T.PATHS[0] = None
            if "error" in want:
                bad.append("%s: TensorFlow raises %s" % (tag, want["error"]))
            elif shape != want["shape"] or y.dtype.name.replace("bool_", "bool") != want["dtype"]:
                bad.append("%s: %s %s, TensorFlow %s %s" % (tag, shape, y.dtype.name, want["shape"], want["dtype"]))
            elif any(abs(g - w) > 1e-6 * (1 + abs(w)) for a, b in zip(got, want["v"]) for g, w in zip(a, b)):
                bad.append("%s: %s, TensorFlow %s" % (tag, got[:3], want["v"][:3]))
            else:
                ok += 1
    return ok, uns, bad


if __name__ == "__main__":
    sys.path.insert(0, __file__.rsplit("/", 2)[0])
    real(int(sys.argv[2]))
