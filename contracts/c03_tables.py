"""C03 - integrity of the parameter tables shipped with the package"""
import os
from fractions import Fraction
from ntnvc.registry import contract
from contracts.common import *

REPO = os.environ.get("NTN_REPO", "/repo")
FILES = sorted(tables())
ORDER = ["DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD"]
PAIRS = [("ASD", "DS"), ("ASA", "DS"), ("ASA", "SF"), ("ASD", "SF"), ("DS", "SF"), ("ASD", "ASA"), ("ASD", "K"), ("ASA", "K"),
         ("DS", "K"), ("SF", "K"), ("ZSD", "SF"), ("ZSA", "SF"), ("ZSD", "K"), ("ZSA", "K"), ("ZSD", "DS"), ("ZSA", "DS"),
         ("ZSD", "ASD"), ("ZSA", "ASD"), ("ZSD", "ASA"), ("ZSA", "ASA"), ("ZSD", "ZSA")]


def load(e, f):
    return json.loads((pathlib.Path(REPO) / "OpenNTN" / "models" / f).read_text())


def num(x):
    return x if isinstance(x, str) else Fraction(str(x))


@contract("C03", "values", ["models/*.json"], runs=(36, 72))
def values(e):
    """every entry of the 24 environment tables is the reference entry (TR 38.811 tables 6.6.2-1..3, 6.7.2-1..8 as shipped)"""
    f = e.choose("file", FILES)
    have, want = load(e, f), tables()[f]
    e.ensure("no reference entry is missing", all(k in have for k in want))
    for k in sorted(want):
        e.ensure("entry %s" % k, k in have and (num(have[k]) == num(want[k]) if not isinstance(want[k], str)
                                                else str(have[k]) == want[k]))


@contract("C03", "admissible", ["models/*.json"], runs=(36, 72))
def admissible(e):
    """every table is usable: positive correlation distances and delay scaling, at least two clusters, probabilities in [0,1]
    increasing with elevation, non-negative spreads, and a positive definite cross-correlation matrix"""
    f = e.choose("file", FILES)
    t = load(e, f)
    los = [num(t["LoS_p_%d" % a]) for a in range(10, 100, 10)]
    e.ensure("LoS probability within [0,1]", all(0 <= x <= 1 for x in los))
    e.ensure("LoS probability does not decrease with elevation", all(x <= y for x, y in zip(los, los[1:])))
    for a in range(10, 100, 10):
        g = lambda n: num(t["%s_%d" % (n, a)])
        for n in ORDER:
            e.ensure("correlation distance of %s positive at %d" % (n, a), g("corrDist" + n) > 0)
            e.ensure("spread of %s non-negative at %d" % (n, a), g("sigma" + n) >= 0)
        e.ensure("delay scaling above one at %d" % a, g("rTau") > 1)
        e.ensure("two to twenty clusters at %d" % a, 2 <= g("numClusters") <= 20 and g("numClusters").denominator == 1)
        m = [[Fraction(int(i == j)) for j in range(7)] for i in range(7)]
        for x, y in PAIRS:
            i, j = ORDER.index(x), ORDER.index(y)
            m[i][j] = m[j][i] = g("corr%svs%s" % (x, y))
        e.ensure("correlations within [-1,1] at %d" % a, all(abs(v) <= 1 for r in m for v in r))
        e.ensure("cross-correlation matrix positive definite at %d" % a, positive_definite(m))


def positive_definite(m):
    """exact LDL^T over the rationals: all pivots positive"""
    m = [list(r) for r in m]
    n = len(m)
    for k in range(n):
        if m[k][k] <= 0:
            return False
        for i in range(k + 1, n):
            f = m[i][k] / m[k][k]
            for j in range(k, n):
                m[i][j] -= f * m[k][j]
    return True
