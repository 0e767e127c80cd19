"""A transposed group convolution is the ordinary one with transformed kernels."""
import keras
import numpy as np

from lib import grids, values
from lib.cfg import SUBS, WALL, Conf

EXPLAIN = (
    "The real transposed layer's jaxpr is executed on symbolic input, kernel and bias; z3 decides that its h-component "
    "equals, entry by entry and for all values, the plain Keras transposed convolution of the padded and merged input "
    "with the kernel transformed by the signed permutation matrix of h (zero outside the subgroup), plus bias, "
    "activated. Parameter shapes are compared with the documented ones."
)
BOUNDS = (
    "2D: all 7 groups x subgroups, input sizes 1..6, kernels 1..5, strides 1..4, both paddings and formats, built-in "
    "padding on request, output padding 1..2; 3D: sizes 1..3, kernels 1..3, strides 1..3, groups D4, D4h, O, Oh; "
    "channels, filters, batch <= 3; kernels of up to 69312 entries, zero but for some"
)


def cases(tier, seed):
    out = grids.transposed(tier)
    for lift in (0, 1):
        L = {"lift": 1} if lift else {}
        for df in grids.BOTH:
            for g in WALL:
                for sub in SUBS[g]:
                    c = dict(L, cls="GroupConv2DTranspose", group=g, sub=sub, df=df, C=2, F=3, b=2)
                    out.append(dict(c, n=2, k=2, s=1))
                    out.append(dict(c, n=2, k=2, s=2, pad="same", allow=1, act="relu"))
                    out.append(dict(c, n=2, k=3, s=2, pad="valid", allow=1, bias=False))
            for n, k, s, pad in [(3, 2, 1, "same"), (4, 3, 2, "valid"), (3, 3, 2, "same"), (2, 2, 3, "valid"), ([2, 3], 2, [1, 2], "valid")]:
                if isinstance(s, list):
                    continue
                for g, sub in [("P4M", "P4"), ("P4", "P2"), ("P2MM", "PMh")]:
                    out.append(dict(L, cls="GroupConv2DTranspose", group=g, sub=sub, n=n, k=k, s=s, pad=pad, df=df, allow=1, F=2))
            for n, k, s, pad in [(3, 2, 1, "valid"), (4, 3, 3, "valid"), (4, 3, 1, "same"), ([2, 4], [2, 3], 1, "valid")]:
                for act in (None, "relu"):
                    if pad == "valid" and isinstance(n, int) and n % 2 != k % 2 and s > 1:
                        continue
                    c = dict(L, cls="GroupConv2DTranspose", group="P1", n=n, k=k, s=s, pad=pad, df=df, C=2, F=2, plain=1, allow=1)
                    out.append(dict(c, act=act) if act else c)
            out.append(dict(L, cls="GroupConv3DTranspose", group="D4h", sub="D4", n=2, k=2, s=2, pad="same", df=df, allow=1, cost=8))
            out.append(dict(L, cls="GroupConv3DTranspose", group="O", sub="D4", n=1, k=2, s=1, df=df, F=2, cost=8))
        out.append(dict(L, cls="GroupConv2DTranspose", group="P2MM", sub="PMw", n=[3, 2], k=[3, 2], C=3, F=2, b=2, act="relu"))
        out += grids.output_padding(lift)
    # kernels too large for 16 bit indices: zero but for the last channels and filters
    G = {"group": "P4M", "big": 1, "cost": 30}
    out.append(dict(G, cls="GroupConv2DTranspose", n=1, k=1, C=92, F=92))
    out.append(dict(G, cls="GroupConv2DTranspose", n=1, k=1, C=65, F=65, sub="P4", df="channels_first"))
    out.append(dict(G, cls="GroupConv2DTranspose", n=1, k=3, C=86, F=86, lift=1))
    out.append(dict(G, cls="GroupConv3DTranspose", n=1, k=2, C=91, F=91, lift=1, group="D4"))
    out.append(dict(G, cls="GroupConv3DTranspose", n=1, k=1, C=38, F=38, group="Oh", sub="D4"))
    return [c for c in grids.uniq(out) if not (c.get("pad") == "same_equiv" and np.min(np.asarray(c["k"]) % 2) == 0)]


def sides(case, ctx):
    conf = Conf(case)
    x = conf.input(ctx)
    layer = conf.build_or_skip(ctx)
    values.expected_parameters(conf, layer)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    want = values.conv(conf, ctx, x, w)
    yield "layer against transformed convolutions", y, want
    mats = conf.mats(conf.acting)
    if len(mats) > 1 and max(conf.k) > 1:
        same = np.stack([np.take(want, 0, axis=conf.group_axis)] * len(mats), axis=conf.group_axis)
        yield "the same kernel for every element", y, same, False
    if case.get("plain"):
        with ctx.building():
            kw = {k: v for k, v in conf.kwargs().items() if k not in ("group", "subgroup", "allow_non_equivariance")}
            plain = (keras.layers.Conv2DTranspose if conf.d == 2 else keras.layers.Conv3DTranspose)(**kw)
            plain.build(tuple(values.merged(conf, x).shape))
        z = ctx.layer(plain, w, values.merged(conf, x))
        yield "P1 against the plain Keras layer", np.take(y, 0, axis=conf.group_axis), z
