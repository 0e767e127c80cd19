"""channels_first is channels_last with the axes moved."""
import keras
import numpy as np

from lib import grids
from lib.cfg import ORDER, SPACE, SUBS, WALL, Conf, groups
from lib.grids import uniq

EXPLAIN = (
    "The same configuration is built with both data formats; both jaxprs are executed on the same symbolic "
    "input (axes moved) and weights, z3 decides that the outputs agree entry by entry after moving the axes "
    "back, for all values. Also with the format left out under each Keras default format."
)
BOUNDS = "the layer grids of C07-C13: 1D pooling, 2D all groups x subgroups, 3D; sizes 1..7; global pooling with and without keepdims; non-equivariant padding on request"


def cases(tier, seed):
    big = tier == "thorough"
    raw = []
    for lift in (True, False):
        raw += grids.conv2d(lift, tier) + grids.conv3d(lift, tier)
    raw += grids.transposed(tier) + grids.pooling(tier)
    L = {"lift": 1}
    for cls in ("GroupConv2D", "GroupConv2DTranspose", "GroupMaxPooling2D", "GroupAveragePooling2D"):
        for n, k, s, pad in [(4, 3, 1, "same"), (5, 2, 2, "same"), (5, 2, 2, "valid"), ([3, 5], 2, [1, 2], "same"), ([4, 3], [2, 3], 2, "same")]:
            g = "PMh" if isinstance(k, list) else "P4"
            if isinstance(s, list) and "Transpose" in cls:
                s = 2
            for l in (0, 1) if "Conv" in cls else (0,):
                raw.append(dict(L if l else {}, cls=cls, group=g, n=n, k=k, s=s, pad=pad, allow=1, C=2, F=3, b=2))
    for cls in ("GroupConv3D", "GroupConv3DTranspose", "GroupMaxPooling3D"):
        raw.append(dict(cls=cls, group="D4", n=[2, 3, 4], k=2, s=2, pad="same", allow=1, cost=5))
        raw.append(dict(cls=cls, group="D4", n=3, k=2, s=2, pad="valid", allow=1, C=2, F=2, cost=5))
    for kind in ("Max", "Average"):
        for g in WALL:
            for sub in SUBS[g]:
                raw.append(dict(cls="Group%sPooling1D" % kind, group=g, sub=sub, n=5, k=2, s=1, pad="same_equiv", C=2, b=2))
                raw.append(dict(cls="Group%sPooling1D" % kind, group=g, sub=sub, n=4, k=2, C=2))
    out = []
    for c in raw:
        c = {a: b for a, b in c.items() if a != "df"}
        if not c["cls"].endswith("1D"):
            # features and positions must not be confused with each other
            if c.get("C", 1) == 1 and c["cls"][-2:] != "3D" and "3D" not in c["cls"]:
                c["C"] = 2
        if "Conv" in c["cls"] and c.get("F", 1) == 1 and "3D" not in c["cls"]:
            c["F"] = 2
        out.append(c)
    out = uniq(out)
    if not big:
        # sizes do not matter much here: keep a third of the plain size sweep
        out = [c for i, c in enumerate(out) if i % 3 == seed % 3 or c.get("allow") or isinstance(c["n"], list)]
    picked = [c for i, c in enumerate(out) if i % 9 == 0]
    for c in picked:
        for default in ("channels_first", "channels_last"):
            out.append(dict(c, default=default))
    for kind in ("Max", "Average"):
        for g in WALL + SPACE:
            for keep in (0, 1):
                for d in (1, 2) if g in WALL else (3,):
                    n = [[3], [2, 3], [2, 1, 3]][d - 1]
                    c = {"cls": "GlobalGroup%sPooling%dD" % (kind, d), "group": g, "n": n, "keep": keep}
                    out.append(c)
                    for default in ("channels_first", "channels_last"):
                        out.append(dict(c, default=default))
    return uniq(out)


class default_format:
    def __init__(self, fmt):
        self.fmt = fmt

    def __enter__(self):
        self.old = keras.config.image_data_format()
        if self.fmt:
            keras.config.set_image_data_format(self.fmt)

    def __exit__(self, *a):
        keras.config.set_image_data_format(self.old)


def to_first(x, channels_axis):
    return np.moveaxis(x, channels_axis, 1)


def global_sides(case, ctx):
    from groco import layers

    cls = getattr(layers, case["cls"])
    d = len(case["n"])
    x = ctx.var("x", (2, *case["n"], ORDER[case["group"]], 2))
    xf = np.moveaxis(x, -1, 1)

    def run(t, **kw):
        with ctx.building():
            layer = cls(keepdims=bool(case["keep"]), **kw)
            layer.build(t.shape)
        return ctx.layer(layer, [], t)

    last = run(x, data_format="channels_last")
    first = run(xf, data_format="channels_first")
    yield "channels_first", np.moveaxis(first, 1, -1), last
    if case.get("default"):
        with default_format(case["default"]):
            if case["default"] == "channels_first":
                yield "default channels_first", run(xf), first
            else:
                yield "default channels_last", run(x), last
    if d > 1:
        yield "wrong entries", np.moveaxis(first, 1, -1), np.roll(last, 1, axis=-1), False


def sides(case, ctx):
    if case["cls"].startswith("Global"):
        yield from global_sides(case, ctx)
        return
    cl = Conf(dict(case, df="channels_last"))
    cf = Conf(dict(case, df="channels_first"))
    xl = ctx.var("x", cl.in_shape())
    ll = cl.build_or_skip(ctx)
    w = cl.weights(ctx, ll)
    last = ctx.layer(ll, w, xl)
    xf = np.moveaxis(xl, -1, 1)
    if xf.shape != cf.in_shape():
        raise AssertionError("axes")
    lf = cf.build_or_skip(ctx)
    shapes = [[tuple(v.shape) for v in l.trainable_variables] for l in (ll, lf)]
    if shapes[0] != shapes[1]:
        from lib.oracle import Violation

        raise Violation("weights of shape %s with channels_last, %s with channels_first" % tuple(shapes))
    first = ctx.layer(lf, w, xf)
    yield "channels_first", np.moveaxis(first, 1, -1), last
    if case.get("default"):
        with default_format(case["default"]):
            conf = Conf({k: v for k, v in case.items()})
            conf = cf if case["default"] == "channels_first" else cl
            plain = Conf({k: v for k, v in case.items() if k != "df"})
            with ctx.building():
                layer = plain.make()
                layer.build(conf.in_shape())
            y = ctx.layer(layer, w, xf if conf is cf else xl)
        yield "data format left out", y, first if conf is cf else last
    if case["group"] != "P1":
        yield "rolled entries", np.moveaxis(first, 1, -1), np.roll(last, 1, axis=cl.group_axis), False
