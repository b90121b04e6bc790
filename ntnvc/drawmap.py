"""Matching the random draws of the code with those of a specification.

A specification names the draws it needs by kind and shape. The layout of an i.i.d. draw is immaterial, so a draw of the code matches when its
shape agrees up to axes of size one and the order of the axes; one draw may also supply several of the specification's (one per slice along an
axis of fixed small size), or several draws one of them (stacked along such an axis).
"""
import itertools


class Draw:
    def __init__(self, kind, dims, raw, value, **par):
        self.kind, self.dims, self.raw, self.value, self.par = kind, dims, raw, value, par


def axis_maps(src, dst, eq, limit=2):
    """assignments of the axes of dst (None for axes of size one) to those of src"""
    s = [i for i, d in enumerate(src) if not eq(d, 1)]
    t = [i for i, d in enumerate(dst) if not eq(d, 1)]
    if len(s) != len(t):
        return []
    out = []

    def go(k, used, acc):
        if len(out) >= limit:
            return
        if k == len(t):
            m = [None] * len(dst)
            for i, j in zip(t, acc):
                m[i] = j
            out.append(m)
            return
        for j in [s[k]] + [x for x in s if x != s[k]]:
            if j not in used and eq(src[j], dst[t[k]]):
                go(k + 1, used | {j}, acc + [j])
    go(0, frozenset(), [])
    return out


def assign(ds, specs, exact, ops):
    """ops: eq(a, b), view(draw, dims, axis map), part(draw, axis, i), size(dim) -> int or None, stack(draws, axis, dims)"""
    ds = list(ds)
    out = _assign(ds, specs, exact, ops)
    if out:
        return out
    for k, d in enumerate(ds):                       # one draw split into several
        for ax, n in enumerate(d.dims):
            n = ops.size(n)
            if n is not None and 2 <= n <= 8:
                parts = [ops.part(d, ax, i) for i in range(n)]
                out += _assign(ds[:k] + parts + ds[k + 1:], specs, exact, ops)
        if out:
            return out
    if len(specs) == 1 and len(ds) > 1:              # several draws stacked
        kind, dims = specs[0]
        for ax, n in enumerate(dims):
            if ops.size(n) == len(ds):
                rest = tuple(dims[:ax]) + tuple(dims[ax + 1:])
                vs = [_views(d, kind, rest, ops)[:1] for d in ds]
                if all(vs):
                    return [[ops.stack([v[0] for v in vs], ax, dims)]]
    return []


def _views(d, kind, dims, ops):
    if d.kind not in kind.split("|"):
        return []
    return [ops.view(d, dims, m) for m in axis_maps(d.dims, dims, ops.eq)]


def _assign(ds, specs, exact, ops):
    if exact and len(ds) != len(specs):
        return []
    views = [[_views(d, k, dm, ops) for d in ds] for k, dm in specs]
    first, rest = [], []
    for perm in itertools.permutations(range(len(ds)), len(specs)):
        for k, c in enumerate(itertools.product(*(views[j][i] for j, i in enumerate(perm)))):
            (rest if k else first).append(list(c))
        if len(first) >= 120:
            break
    return (first + rest)[:120]
