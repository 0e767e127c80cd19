"""A group convolution is the ordinary convolution with transformed kernels."""
import keras
import numpy as np

from lib import grids, oracle, values
from lib.cfg import ORDER, Conf

EXPLAIN = (
    "The real layer's jaxpr is executed on symbolic input, kernel and bias; z3 decides that its "
    "h-component equals, entry by entry and for all values, the plain Keras convolution of the "
    "independently padded and merged input with the kernel transformed by the signed permutation "
    "matrix of h, plus bias, activated. Parameter shapes are compared with the documented ones."
)
BOUNDS = (
    "2D: all 7 groups x subgroups, input sizes 1..7, kernels 1..4, strides 1..4 (thorough 9/5/5), "
    "anisotropic cases, dilation 1..4; 3D: sizes 1..4, kernels 1..3, strides 1..3; channels, filters, "
    "batch <= 3; kernels of up to 69312 entries, zero but for some; also non-equivariant padding on request"
)


def cases(tier, seed):
    out = []
    for lift in (True, False):
        out += grids.conv2d(lift, tier) + grids.conv3d(lift, tier)
        L = {"lift": 1} if lift else {}
        for g, sub in [("P4M", "P4"), ("P2MM", "PMh"), ("P4", "P4")]:
            for n, k, s, pad in [(5, 2, 1, "same"), (4, 3, 2, "valid"), (6, 3, 2, "same"), (4, 2, 3, "valid")]:
                for df in grids.BOTH:
                    out.append(dict(L, cls="GroupConv2D", group=g, sub=sub, n=n, k=k, s=s, pad=pad, df=df, allow=1, C=2, F=2))
        out.append(dict(L, cls="GroupConv3D", group="D4", n=3, k=2, s=2, pad="valid", allow=1))
        for df in grids.BOTH:
            for n, k, s, pad in [([4, 3], [2, 3], 1, "valid"), (5, 3, 2, "valid"), (4, 3, 1, "same"), (3, 3, 1, "same")]:
                for act in (None, "relu"):
                    c = dict(L, cls="GroupConv2D", group="P1", n=n, k=k, s=s, pad=pad, df=df, C=2, F=2, plain=1)
                    out.append(dict(c, act=act) if act else c)
        # a kernel that is not square in groups that keep the axes, several features
        out.append(dict(L, cls="GroupConv2D", group="P2MM", sub="PMw", n=[4, 3], k=[3, 2], C=3, F=2, b=2, act="relu"))
    # kernels too large for 16 bit indices: zero but for the last channels and filters
    G = {"group": "P4M", "big": 1, "cost": 30}
    out.append(dict(G, cls="GroupConv2D", n=1, k=1, C=92, F=92))
    out.append(dict(G, cls="GroupConv2D", n=1, k=1, C=65, F=65, sub="P4", df="channels_first"))
    out.append(dict(G, cls="GroupConv2D", n=3, k=3, C=86, F=86, lift=1))
    out.append(dict(G, cls="GroupConv3D", n=2, k=2, C=91, F=91, lift=1, group="D4"))
    out.append(dict(G, cls="GroupConv3D", n=1, k=1, C=38, F=38, group="Oh", sub="D4"))
    return grids.uniq(out)


def sides(case, ctx):
    conf = Conf(case)
    x = conf.input(ctx)
    layer = conf.build_or_skip(ctx)
    values.expected_parameters(conf, layer)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    want = values.conv(conf, ctx, x, w)
    yield "layer against transformed convolutions", y, want
    mats = conf.mats(conf.acting)
    if len(mats) > 1 and max(conf.k) > 1:
        same = np.stack([np.take(want, 0, axis=conf.group_axis)] * len(mats), axis=conf.group_axis)
        yield "the same kernel for every element", y, same, False
    if case.get("plain"):
        cls = keras.layers.Conv2D if conf.d == 2 else keras.layers.Conv3D
        with ctx.building():
            kw = conf.kwargs()
            kw.pop("group")
            kw.pop("subgroup", None)
            plain = cls(**kw)
            shape = list(values.merged(conf, x).shape)
            plain.build(tuple(shape))
        z = ctx.layer(plain, w, values.merged(conf, x))
        yield "P1 against the plain Keras layer", np.take(y, 0, axis=conf.group_axis), z
