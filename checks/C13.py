"""Global group pooling is the invariant max or mean over grid and group."""
from fractions import Fraction

import numpy as np

from lib import oracle, sym
from lib.cfg import ORDER, SPACE, WALL, groups
from lib.grids import BOTH, uniq

EXPLAIN = (
    "The jaxpr of each global pooling layer is executed on a symbolic signal; z3 decides that each "
    "output is the maximum (mean) over all positions and group elements, for all values, and that the "
    "outputs for g.x and x are equal for every group element (generators in 3D)."
)
BOUNDS = "1D, 2D, 3D; all groups; spatial sides 1..4; batch and channels <= 3; keepdims on and off; both formats"


def cases(tier, seed):
    out = []
    for kind in ("Max", "Average"):
        for df in BOTH:
            for keep in (0, 1):
                for g in WALL:
                    for n in [[3], [1], [4]]:
                        out.append({"kind": kind, "group": g, "n": n, "df": df, "keep": keep, "b": 2, "C": 2})
                    for n in [[2, 2], [3, 3], [1, 1]] + ([[2, 3], [4, 1]] if g not in ("P4", "P4M") else []):
                        out.append({"kind": kind, "group": g, "n": n, "df": df, "keep": keep, "b": 2, "C": 3 if n == [2, 2] else 2})
                for g in SPACE:
                    for n in [[2, 2, 2], [1, 1, 1]] + ([[2, 2, 3], [1, 1, 3]] if g.startswith("D4") else []):
                        out.append({"kind": kind, "group": g, "n": n, "df": df, "keep": keep, "C": 2, "b": 1, "cost": 20})
        for g in ["P4", "D4"]:
            out.append({"kind": kind, "group": g, "n": [2] * (3 if g == "D4" else 2), "df": None, "keep": None, "b": 2, "C": 2})
        if tier == "thorough":
            for g in WALL:
                for df in BOTH:
                    out.append({"kind": kind, "group": g, "n": [5, 5], "df": df, "keep": 0, "b": 3, "C": 2})
            for g in ["D4", "D4h", "O"]:
                out.append({"kind": kind, "group": g, "n": [3, 3, 3], "df": "channels_last", "keep": 0, "b": 1, "C": 2, "cost": 50})
    return uniq(out)


def sides(case, ctx):
    from groco import layers

    g = groups()[case["group"]]
    d = len(case["n"])
    first = case["df"] == "channels_first"
    kw = {}
    if case["df"]:
        kw["data_format"] = case["df"]
    if case["keep"] is not None:
        kw["keepdims"] = bool(case["keep"])
    b, C, o = case["b"], case["C"], ORDER[case["group"]]
    shape = (b, C, *case["n"], o) if first else (b, *case["n"], o, C)
    axes = tuple(range(2, 2 + d)) if first else tuple(range(1, 1 + d))
    ga = d + 2 if first else d + 1
    x = ctx.var("x", shape)
    cls = getattr(layers, "GlobalGroup%sPooling%dD" % (case["kind"], d))

    def make(t):
        with ctx.building():
            layer = cls(**kw)
            layer.build(t.shape)
        return ctx.layer(layer, [], t)

    y = make(x)
    pooled = axes + (ga,)
    rest = [a for a in range(x.ndim) if a not in pooled]
    flat = x.transpose(rest + list(pooled)).reshape(b, C, -1)
    want = np.empty((b, C), dtype=object)
    for i in np.ndindex(b, C):
        vals = list(flat[i])
        if case["kind"] == "Max":
            want[i] = sym.smax(vals) if ctx.symbolic else max(vals)
        else:
            s = sum(vals[1:], vals[0])
            want[i] = s * Fraction(1, len(vals)) if ctx.symbolic else s / len(vals)
    if case["keep"]:
        for a in sorted(pooled):
            want = np.expand_dims(want, a)
    yield "pooled value", y, want
    if o > 1:
        yield "maximum or mean over half of the group", y, (make(np.take(x, [0] * o, axis=ga))), False
    if d == 1:
        return
    mats = oracle.matrices(g)
    use = range(1, len(mats)) if d == 2 else oracle.generators(mats)
    for i in use:
        gx = oracle.act_group(x, mats[i], mats, axes, ga)
        yield "invariance under element %d" % i, make(gx), y
