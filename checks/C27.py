"""Layers do not interfere with each other."""
import numpy as np

from checks.C12 import reference as pool_reference
from lib import values
from lib.cfg import Conf, groups
from lib.grids import uniq
from lib.oracle import Violation

EXPLAIN = (
    "In one process two layers with colliding kernel shapes, group orders, subgroup names or formats are "
    "built and called in several orders, each with its own symbolic weights and input. z3 decides that "
    "each call equals the independent reference value of that layer alone (C10, C12, C26), whatever "
    "was built and called before. The group tables are compared before and after."
)
BOUNDS = (
    "pairs of layers that differ in one argument or size, and all ordered pairs (also of equal configurations) out of 26 2D and 7 3D layers (quick: each pair in one of the schedules), in three schedules: "
    "A B A, both built before either is called, and layers of equal names; sizes 2..4, kernels 1..3"
)
FAST = True


def pool_2d():
    C, T, M, A = "GroupConv2D", "GroupConv2DTranspose", "GroupMaxPooling2D", "GroupAveragePooling2D"
    F = "channels_first"
    return [
        dict(cls=C, group="P4M", n=2, k=2, F=1),
        dict(cls=C, group="P4M", sub="P4", n=2, k=2, F=2),
        dict(cls=C, group="P4M", sub="P2MM", n=2, k=2, F=2),
        dict(cls=C, group="P4M", sub="PMh", n=2, k=2, F=4),
        dict(cls=C, group="P4M", sub="PMw", n=2, k=2, F=4),
        dict(cls=C, group="P4M", sub="P2", n=2, k=2, F=4),
        dict(cls=C, group="P4", n=3, k=2, F=2),
        dict(cls=C, group="P2MM", n=3, k=2, F=2),
        dict(cls=C, group="P4", n=3, k=2, F=2, df=F),
        dict(cls=C, group="P2", n=3, k=2, C=2, F=2),
        dict(cls=C, group="PMh", n=3, k=2, C=2, F=2),
        dict(cls=C, group="PMw", n=3, k=2, C=2, F=2),
        dict(cls=C, group="P1", n=3, k=2, C=4, F=2),
        dict(cls=C, group="P4", lift=1, n=3, k=2, C=4, F=2),
        dict(cls=C, group="P2MM", lift=1, n=3, k=2, C=4, F=2),
        dict(cls=C, group="P4", n=3, k=2, F=2, s=3, pad="same_equiv"),
        dict(cls=C, group="P4", n=4, k=2, F=2, s=3),
        dict(cls=T, group="P4", n=3, k=2, F=2),
        dict(cls=T, group="P2MM", n=3, k=2, F=2),
        dict(cls=T, group="P4M", sub="P4", n=2, k=2, F=2),
        dict(cls=T, group="P4M", sub="P2MM", n=2, k=2, F=2),
        dict(cls=M, group="P4M", sub="P4", n=2, k=2),
        dict(cls=M, group="P4M", sub="P2MM", n=2, k=2),
        dict(cls=A, group="P4M", sub="P2", n=3, k=2, s=1),
        dict(cls=A, group="P4M", sub="PMh", n=3, k=2, s=1),
        dict(cls=A, group="P4", n=3, k=2, s=1, df=F),
    ]


def pool_3d():
    C, M = "GroupConv3D", "GroupMaxPooling3D"
    return [
        dict(cls=C, group="O", sub="D4", n=2, k=2, lift=1),
        dict(cls=C, group="D4h", sub="D4", n=2, k=2, lift=1),
        dict(cls=C, group="D4", n=2, k=2, lift=1),
        dict(cls=C, group="Oh", sub="D4", n=2, k=2, lift=1),
        dict(cls="GroupConv3DTranspose", group="D4h", sub="D4", n=2, k=2, lift=1),
        dict(cls=M, group="O", sub="D4", n=2, k=2),
        dict(cls=M, group="D4h", sub="D4", n=2, k=2),
    ]


def variants():
    """Pairs of layers that differ in one argument or size."""
    S, C, A = "same_equiv", "GroupConv2D", "GroupAveragePooling2D"
    bases = [
        (dict(cls=C, group="P4", n=3, k=2, s=3, pad=S, F=2),
         [dict(n=4), dict(n=5), dict(s=1), dict(pad="valid_equiv"), dict(k=3), dict(df="channels_first"), dict(act="relu"),
          dict(C=2), dict(F=1), dict(lift=1), dict(bias=False), dict(group="P2"), dict(sub="P2"), dict(allow=1), dict(b=2),
          dict(cls="GroupConv2DTranspose", s=1), dict(n=[3, 4])]),
        (dict(cls=C, group="P4M", sub="P4", n=4, k=2, lift=1),
         [dict(n=3), dict(dil=2), dict(pad="valid", allow=1), dict(pad="same", allow=1), dict(sub="P2MM"), dict(s=2), dict(n=[4, 3])]),
        (dict(cls="GroupConv2DTranspose", group="P4", sub="P2", n=3, k=2, s=2),
         [dict(n=2), dict(s=1), dict(sub="P1"), dict(k=3), dict(lift=1), dict(F=2), dict(group="P2MM", sub="PMw")]),
        (dict(cls="GroupMaxPooling2D", group="P4M", sub="P4", n=5, k=2),
         [dict(n=4), dict(s=3), dict(k=3), dict(pad=S), dict(sub="P2"), dict(cls=A), dict(df="channels_first"), dict(C=2)]),
        (dict(cls=A, group="P2MM", sub="PMh", n=4, k=3, pad=S),
         [dict(n=5), dict(s=1), dict(sub="PMw"), dict(pad="valid_equiv"), dict(n=[4, 5])]),
        (dict(cls="GroupConv3D", group="D4", n=3, k=2, s=2, pad=S, lift=1, cost=5),
         [dict(n=2), dict(s=1), dict(pad="valid_equiv", s=1), dict(df="channels_first")]),
        (dict(cls="GroupAveragePooling3D", group="D4h", sub="D4", n=3, k=2, cost=5),
         [dict(n=2), dict(s=1), dict(sub="D4h"), dict(cls="GroupMaxPooling3D")]),
    ]
    for base, changes in bases:
        for ch in changes:
            yield base, dict(base, **ch)


def cases(tier, seed):
    out = []
    for a, b in variants():
        for mode in ("sequence", "built", "named"):
            if mode != "named" or tier == "thorough":
                out.append({"a": a, "b": b, "mode": mode})
                out.append({"a": b, "b": a, "mode": mode})
    for pool in (pool_2d(), pool_3d()):
        for i, a in enumerate(pool):
            for j, b in enumerate(pool):
                for mode in ("sequence", "built", "named"):
                    if (tier == "thorough" or (i + j) % 3 == ("sequence", "built", "named").index(mode)):
                        out.append({"a": a, "b": b, "mode": mode})
    return uniq(out)


def tables():
    out = {}
    for name, g in groups().items():
        for what in ("composition", "inverses"):
            v = getattr(g, what, None)
            if v is not None:
                out[name, what] = np.asarray(v).copy()
        for what in ("subgroup", "cosets"):
            for sub, v in getattr(g, what).items():
                out[name, what, sub] = np.asarray(v).copy()
    return out


class One:
    """A layer with symbolic weights of its own."""

    def __init__(self, name, case, ctx):
        self.name, self.ctx = name, ctx
        self.conf = Conf(dict(case))
        self.x = ctx.var("x" + name, self.conf.in_shape())

    def build(self, **over):
        self.layer = self.conf.build_or_skip(self.ctx, **over)
        self.w = [
            self.ctx.var("w%s%d" % (self.name, i), v.shape)
            for i, v in enumerate(self.layer.trainable_variables)
        ]

    def call(self):
        return self.ctx.layer(self.layer, self.w, self.x)

    def want(self):
        if self.conf.pool:
            return pool_reference(self.conf, self.ctx, self.x)
        return values.conv(self.conf, self.ctx, self.x, self.w)


def sides(case, ctx):
    before = tables()
    a, b = One("A", case["a"], ctx), One("B", case["b"], ctx)
    over = {"name": "layer"} if case["mode"] == "named" else {}
    a.build(**over)
    if case["mode"] != "sequence":
        b.build(**over)
    ya = a.call()
    if case["mode"] == "sequence":
        b.build(**over)
    yb = b.call()
    za = a.call()
    if case["mode"] == "built":
        zb = b.call()
    wa, wb = a.want(), b.want()
    yield "first layer", ya, wa
    yield "second layer", yb, wb
    yield "first layer after the second", za, wa
    if case["mode"] == "built":
        yield "second layer after the first", zb, wb
    after = tables()
    if before.keys() != after.keys() or any((before[k] != after[k]).any() for k in before):
        raise Violation("layers changed the group tables")
    if ya.shape == yb.shape and case["a"] != case["b"]:
        yield "both layers alike", ya, yb, False
