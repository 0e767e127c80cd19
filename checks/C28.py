"""Layers commute with translations of the grid."""
import numpy as np

from lib import grids, values
from lib.cfg import Conf
from lib.grids import uniq

EXPLAIN = (
    "The jaxpr of the real layer is executed on a symbolic signal and on that signal shifted along one "
    "axis (or all of them) by a multiple t of the stride, with fresh unknowns moving in. z3 decides for all "
    "signals and weights that every output whose window lies inside the image moves along by t. For "
    "(transposed) convolutions of signals that vanish where they would be shifted out, also all outputs at "
    "the border; a transposed layer shifts by t times the stride."
)
BOUNDS = (
    "2D: all groups x subgroups, sizes 3..8 (thorough 10), kernels 1..4, strides 1..3, dilation 1..3, shifts by 1 or 2 strides "
    "along each axis and along all at once; 3D: D4, D4h, O (thorough Oh), sizes 2..5; both formats; pooling max and average"
)


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for lift in (True, False):
        out += grids.conv2d(lift, tier) + grids.conv3d(lift, tier)
    out += grids.transposed(tier) + grids.pooling(tier)
    keep = []
    for i, c in enumerate(uniq(out)):
        if c["group"] == "Oh" and not big:
            continue
        if big or i % 3 == 0:
            keep.append(c)
    for lift in (0, 1):
        for n, k, s, dil in [(8, 3, 2, 1), (7, 2, 3, 1), (6, 3, 1, 2), (7, 3, 2, 1)] + ([(10, 4, 3, 1), (9, 2, 1, 3)] if big else []):
            for pad in ("valid_equiv", "same_equiv", "valid", "same"):
                c = dict(cls="GroupConv2D", group="P4", sub="P2" if n % 2 else "P4", n=n, k=k, s=s, pad=pad)
                if dil > 1:
                    c["dil"] = dil
                if not pad.endswith("equiv"):
                    c["allow"] = 1
                keep.append(dict(c, lift=1) if lift else c)
    for kind in ("Max", "Average"):
        for n, k, s, pad in [(6, 2, 1, "same"), (8, 3, 2, "valid"), (7, 2, 2, "valid"), (7, 3, 2, "same")]:
            keep.append(dict(cls="Group%sPooling2D" % kind, group="P4M", sub="P4", n=n, k=k, s=s, pad=pad, allow=1))
            keep.append(dict(cls="Group%sPooling1D" % kind, group="P4M", sub="P4", n=n, k=k, s=s, pad=pad, allow=1, df="channels_first"))
    return uniq(keep)


def sl(ndim, where):
    return tuple(where.get(a, slice(None)) for a in range(ndim))


def shifted(x, head, by, axes):
    """x moved up along the axes, the part that moves in taken from head."""
    y = head.copy()
    y[sl(x.ndim, {a: slice(b, None) for a, b in zip(axes, by)})] = x[
        sl(x.ndim, {a: slice(0, x.shape[a] - b) for a, b in zip(axes, by)})
    ]
    return y


def sides(case, ctx):
    conf = Conf(case)
    x, head = ctx.var("x", conf.in_shape()), ctx.var("head", conf.in_shape())
    layer = conf.build_or_skip(ctx)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    pads = None if conf.transpose else values.pad_amounts(conf)
    d, out = conf.d, [y.shape[a] for a in conf.axes]
    shifts = [tuple(t * (i == j) for j in range(d)) for i in range(d) for t in (1, 2)]
    shifts += [(1,) * d] if d > 1 else []
    found = False
    for t in shifts:
        # pixels the input moves, outputs the result moves
        by = [a if conf.transpose else a * s for a, s in zip(t, conf.s)]
        to = [a * s if conf.transpose else a for a, s in zip(t, conf.s)]
        if any(b >= n for b, n in zip(by, conf.n)):
            continue
        if not conf.transpose:
            inside = []
            for i in range(d):
                ok = [
                    j for j in range(out[i] - to[i])
                    if 0 <= j * conf.s[i] - pads[i][0] and j * conf.s[i] - pads[i][0] + conf.ke[i] <= conf.n[i] - by[i]
                ]
                inside.append(slice(ok[0], ok[-1] + 1) if ok else None)
            if None not in inside:
                z = ctx.layer(layer, w, shifted(x, head, by, conf.axes))
                a = y[sl(y.ndim, dict(zip(conf.axes, inside)))]
                here = [slice(i.start + b, i.stop + b) for i, b in zip(inside, to)]
                yield "windows inside, shift %s" % (t,), z[sl(y.ndim, dict(zip(conf.axes, here)))], a
                if not found:
                    yield "windows not moved", z[sl(y.ndim, dict(zip(conf.axes, inside)))], a, False
                found = True
        if conf.pool or any(b >= o for b, o in zip(to, out)):
            continue
        x0 = x.copy()
        for a, b in zip(conf.axes, by):
            x0[sl(x.ndim, {a: slice(x.shape[a] - b, None)})] = 0 * x0[sl(x.ndim, {a: slice(x.shape[a] - b, None)})]
        u = ctx.layer(layer, w, x0)
        v = ctx.layer(layer, w, shifted(x0, 0 * head, by, conf.axes))
        yield "all windows, shift %s" % (t,), v[sl(v.ndim, {a: slice(b, None) for a, b in zip(conf.axes, to)})], u[
            sl(u.ndim, {a: slice(0, o - b) for a, b, o in zip(conf.axes, to, out)})
        ]
        found = True
    if not found:
        from lib.harness import Skip

        raise Skip("no shift keeps a window inside")
