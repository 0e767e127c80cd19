"""Group pooling computes the max or mean over cosets and windows."""
import keras
import numpy as np

from lib import grids, oracle, values
from lib.cfg import Conf, ORDER, SUBS, WALL

EXPLAIN = (
    "The jaxpr of each real pooling layer is executed on a symbolic signal; z3 decides that it equals, "
    "entry by entry for all values, plain Keras pooling of the independently padded signal of which "
    "entry h is the max (mean) over entries h*r, r the listed coset representatives, with products "
    "taken from the symmetries. Group entries are pooled one by one, so mixing would be refuted."
)
BOUNDS = (
    "1D, 2D, 3D; 2D: all groups x subgroups, sizes 1..7, pool sizes 1..4, strides default and 1..3; "
    "3D sizes 2..5; batch and channels <= 2; also non-equivariant padding on request"
)


def cases(tier, seed):
    out = grids.pooling(tier)
    for kind in ("Max", "Average"):
        for g in WALL:
            for sub in SUBS[g]:
                for df in grids.BOTH:
                    for n, k, s, pad in [(4, 2, None, "valid_equiv"), (5, 2, None, "same_equiv"), (5, 3, 2, "valid_equiv"), (4, 3, 1, "same_equiv"), (5, 2, 3, "valid_equiv")]:
                        c = dict(cls="Group%sPooling1D" % kind, group=g, sub=sub, n=n, k=k, pad=pad, df=df, b=2, C=2)
                        out.append(dict(c, s=s) if s else c)
        for d in (1, 2, 3):
            for n, k, s, pad in [(5, 2, 1, "same"), (4, 3, 2, "valid"), (6, 3, 2, "same"), (4, 2, 3, "valid")]:
                for df in grids.BOTH:
                    out.append(dict(cls="Group%sPooling%dD" % (kind, d), group="D4" if d == 3 else "P4", n=n, k=k, s=s, pad=pad, df=df, allow=1, C=1 if d == 3 else 2))
        out.append(dict(cls="Group%sPooling2D" % kind, group="P4M", sub="P2MM", n=4, k=2, b=3, C=3))
    return grids.uniq(out)


def reference(conf, ctx, x):
    """Independent value of the pooling layer."""
    pool, mean = "max" if "Max" in conf.c["cls"] else "average", "Max" not in conf.c["cls"]
    allm = oracle.matrices(conf.group)
    H = [int(i) for i in conf.group.subgroup[conf.sub]]
    R = [int(i) for i in conf.group.cosets[conf.sub]]
    if len(H) * len(R) != conf.group.order:
        raise oracle.Violation("%d elements and %d representatives for %s" % (len(H), len(R), conf.sub))
    prods = [[oracle.index_of(allm[h] @ allm[r], allm) for r in R] for h in H]
    if any(p is None for row in prods for p in row):
        raise oracle.Violation("products of elements out of the group")
    red = keras.ops.mean if mean else keras.ops.max
    pads = [oracle.equiv_padding(m, k, s, conf.pad) if conf.pad.endswith("equiv") else (0, 0) for m, k, s in zip(conf.n, conf.k, conf.s)]
    if any(e for _, e in pads):  # zeros on both sides, nothing left to Keras
        amounts, mode = [((b + e) // 2,) * 2 for b, e in pads], "valid"
    else:
        amounts, mode = [(0, 0)] * conf.d, conf.pad.removesuffix("_equiv")
    fn = keras.ops.average_pool if mean else keras.ops.max_pool
    outs = []
    for row in prods:
        entries = [np.take(x, p, axis=conf.group_axis) for p in row]
        one = ctx.call(lambda *e: red(keras.ops.stack(e), axis=0), *entries)
        one = oracle.zero_pad(one, amounts, conf.axes)
        outs.append(
            ctx.call(lambda t: fn(t, conf.k, strides=conf.s, padding=mode, data_format=conf.df), one)
        )
    return np.stack(outs, axis=conf.group_axis)


def sides(case, ctx):
    conf = Conf(case)
    x = ctx.var("x", conf.in_shape())
    layer = conf.build_or_skip(ctx)
    y = ctx.layer(layer, [], x)
    want = reference(conf, ctx, x)
    yield "pooling layer against cosets and windows", y, want
    if ORDER[conf.sub] > 1:
        yield "group entries rolled", y, np.roll(want, 1, axis=conf.group_axis), False
