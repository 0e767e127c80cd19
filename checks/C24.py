"""A built layer does not depend on the input it was built with."""
import random

import numpy as np

from lib import grids, oracle
from lib.cfg import ORDER, SPACE, SUBS, WALL, Conf, tup
from lib.grids import BOTH, uniq
from lib.harness import Skip

EXPLAIN = (
    "One layer built for (size, batch) A, half of them also called on such a signal, and one built for B are both executed on the same symbolic input of size B "
    "and the same symbolic weights; z3 decides that the outputs are equal for all values. Batch entries: the output "
    "for a symbolic batch, entry by entry, equals the output for each entry alone."
)
BOUNDS = (
    "pairs of spatial sizes 1..9 (per axis) that need the same extra padding, batch 0..4 and unknown; convolutions, "
    "transposed convolutions, pooling in 1D, 2D, 3D; all groups x subgroups. Pairs of sizes that need different "
    "padding are a known finding (padding is fixed when the layer is built): three of them are run"
)


def need(conf, n):
    out = []
    for m, k, s in zip(n, conf.ke, conf.s):
        if m < k and not conf.pad.startswith("same") and not conf.transpose:
            return None
        if not conf.pad.endswith("equiv"):
            out.append(0)
            continue
        p = oracle.equiv_padding(m, k, s, conf.pad, conf.transpose)
        if p is None:
            return None
        out.append(p if conf.pool else p[1])
    return out


def cases(tier, seed):
    rng = random.Random(seed)
    big = tier == "thorough"
    out = []

    def add(**c):
        conf_n = c.pop("sizes")
        out.extend(dict(c, n=b, was=a) for a in conf_n for b in conf_n if a != b)

    for df in BOTH:
        for lift in (0, 1):
            L = {"df": df, "lift": 1} if lift else {"df": df}
            for g in WALL:
                for sub in SUBS[g]:
                    c = dict(L, cls="GroupConv2D", group=g, sub=sub)
                    add(**c, k=2, s=1, pad="valid_equiv", sizes=[2, 4], F=2)
                    add(**c, k=3, s=1, pad="same_equiv", sizes=[3, 2], C=2)
                    add(**dict(c, cls="GroupConv2DTranspose"), k=2, s=1, pad="valid_equiv", sizes=[2, 3], F=2)
            for g in ("P4", "P2MM"):
                c = dict(L, cls="GroupConv2D", group=g)
                for k, s, pad, sizes in [
                    (3, 2, "valid_equiv", [3, 5, 7]), (3, 3, "same_equiv", [3, 6, 9]), (2, 3, "valid_equiv", [2, 5, 8]),
                    (2, 3, "same_equiv", [4, 7, 1]), (3, 2, "same_equiv", [3, 7]), (4, 1, "same_equiv", [3, 5]), (3, 3, "valid_equiv", [4, 7]),
                    (2, 1, "same_equiv", [2, 4, 5]), (1, 3, "valid_equiv", [2, 5]),
                ]:
                    add(**c, k=k, s=s, pad=pad, sizes=sizes)
                for k, s, pad in [(2, 2, "same"), (3, 2, "valid"), (2, 1, "same")]:
                    add(**c, k=k, s=s, pad=pad, allow=1, sizes=[3, 4, 6])
                add(**c, k=2, dil=2, pad="same_equiv", sizes=[3, 5])
                for k, s in [(2, 2), (3, 3), (3, 1), (2, 1)]:
                    add(**dict(c, cls="GroupConv2DTranspose"), k=k, s=s, pad="valid_equiv", sizes=[4, 2, 6] if s == 2 else [3, 6, 4])
                add(**dict(c, cls="GroupConv2DTranspose"), k=3, s=1, pad="same_equiv", sizes=[2, 4])
                add(**dict(c, cls="GroupConv2DTranspose"), k=2, s=2, pad="same", allow=1, sizes=[2, 3])
            for g in ("PMh", "PMw", "P2MM"):
                c = dict(L, cls="GroupConv2D", group=g)
                add(**c, k=[2, 3], s=[1, 2], pad="valid_equiv", sizes=[[3, 5], [2, 7], [4, 3]])
                add(**c, k=2, s=1, pad="same_equiv", sizes=[[3, 5], [5, 3], [2, 2]])
            for g, sub in [("D4", "D4"), ("D4h", "D4"), ("O", "D4")]:
                c = dict(L, cls="GroupConv3D", group=g, sub=sub, cost=10)
                add(**c, k=2, s=1, pad="valid_equiv", sizes=[2, 3])
                add(**c, k=3, s=1, pad="same_equiv", sizes=[1, 2])
                add(**dict(c, cls="GroupConv3DTranspose"), k=2, s=1, pad="valid_equiv", sizes=[1, 2])
            add(**L, cls="GroupConv3D", group="D4", k=[1, 1, 2], s=1, pad="valid_equiv", sizes=[[2, 2, 3], [3, 3, 2]], cost=5)
        for kind in ("Max", "Average"):
            for d, gs in [(1, ["P2", "P4M"]), (2, WALL), (3, ["D4"])]:
                for g in gs:
                    for sub in SUBS[g] if d == 2 else SUBS[g][:1] + SUBS[g][-1:]:
                        c = dict(df=df, cls="Group%sPooling%dD" % (kind, d), group=g, sub=sub, cost=d * d)
                        add(**c, k=2, pad="valid_equiv", sizes=[2, 4])
                        if d < 3:
                            add(**c, k=3, s=1, pad="same_equiv", sizes=[2, 3], C=2)
                for k, s, pad, sizes in [(3, 2, "valid_equiv", [3, 5]), (3, 3, "same_equiv", [3, 6]), (3, 3, "same_equiv", [4, 7]), (2, 1, "same_equiv", [2, 5]), (2, 2, "same", [3, 4])]:
                    if d < 3 or sizes[1] < 6:
                        c = dict(df=df, cls="Group%sPooling%dD" % (kind, d), group=gs[-1], k=k, s=s, pad=pad)
                        add(**dict(c, allow=1) if pad == "same" else c, sizes=sizes)
    out = uniq(out)
    if not big:
        keep = [c for c in out if c["group"] in ("P4", "P2MM", "PMh", "D4") and c.get("sub", c["group"]) == c["group"]]
        rest = [c for c in out if c not in keep]
        out = keep + [c for i, c in enumerate(rest) if i % 2 == seed % 2]
    for i, c in enumerate(out):
        c["wasb"] = (1, 3, None, 2)[i % 4]
        c["called"] = 1 - i // 4 % 2
        if c["cls"][-2] == "2" and i % 3 == 0:
            c["b"] = 2
    # batch entries on their own
    raw = grids.conv2d(True, "quick") + grids.conv2d(False, "quick") + grids.transposed("quick") + grids.pooling("quick")
    raw += [c for c in grids.conv3d(False, "quick") + grids.conv3d(True, "quick") if c["group"] in ("D4", "D4h")]
    for c in raw if big else rng.sample(raw, 250):
        out.append(dict(c, b=3, alone=1))
    # known finding: sizes that need different padding
    out.append({"cls": "GroupConv2D", "group": "P4", "lift": 1, "k": 3, "s": 3, "n": 4, "was": 3, "differs": 1})
    out.append({"cls": "GroupConv2DTranspose", "group": "P4", "k": 3, "s": 3, "n": 4, "was": 3, "differs": 1})
    out.append({"cls": "GroupMaxPooling2D", "group": "P4", "k": 3, "n": 4, "was": 3, "differs": 1})
    return uniq(out)


def sides(case, ctx):
    conf = Conf(case)
    shape = conf.in_shape()
    if case.get("alone"):
        x = ctx.var("x", shape)
        layer = conf.build_or_skip(ctx)
        w = conf.weights(ctx, layer)
        y = ctx.layer(layer, w, x)
        for i in range(shape[0]):
            yield "batch entry %d on its own" % i, y[i : i + 1], ctx.layer(layer, w, x[i : i + 1])
        yield "an empty batch", ctx.layer(layer, w, x[:0]), y[:0]
        yield "batch entries in turn", y, np.roll(y, 1, axis=0), False
        return
    was = tup(case["was"], conf.d)
    a, b = need(conf, was), need(conf, conf.n)
    if a is None or b is None:
        raise Skip("no equivariant padding exists for one of the sizes")
    if a != b and not case.get("differs"):
        raise Skip("the sizes need different padding")
    x = ctx.var("x", shape)
    with ctx.building():
        layer = conf.make()
        layer.build(conf.in_shape())
        other = conf.make()
        other.build((case.get("wasb", 1),) + conf.in_shape(was)[1:])
        if case.get("called"):
            other(np.zeros((case.get("wasb") or 1,) + conf.in_shape(was)[1:], dtype="float32"))
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    yield "layer built for %s" % (was,), ctx.layer(other, w, x), y
    if conf.d > 1 and ORDER[conf.acting] > 1:
        yield "entries rolled", y, np.roll(y, 1, axis=conf.group_axis), False
