"""Signals that do not live on a layer's group are refused."""
import contextlib
import sys

import numpy as np

from lib import harness, jaxsym, solve, sym, symint
from lib.cfg import Conf, ORDER, SPACE, SUBS, WALL
from lib.grids import BOTH, uniq
from lib.oracle import Violation

EXPLAIN = (
    "The real build runs on a shape whose group axis has a symbolic size (a JAX trace over z3 integers, all "
    "branches explored): z3 decides that it is accepted exactly if the size is the order of the group the "
    "signal has to live on. Built layers are then traced on symbolic signals of other group sizes, "
    "ranks and (convolutions) channels: each has to be refused with an exception, while the right one is accepted."
)
BOUNDS = (
    "group axis 1..200 symbolic at build; calls after building: group sizes 1..9, 16, 24 and 48, with 1..3 channels, and signals "
    "without group axis; all groups x subgroups, both formats, all layer kinds"
)
ENCODES = ["GroupTransforms.build", "GroupConv*.build", "GroupPooling.build"]
FAST = True


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    kinds = ["GroupConv%dD", "GroupConv%dDTranspose", "GroupMaxPooling%dD", "GroupAveragePooling%dD"]
    i = 0
    for g in WALL + SPACE:
        for sub in SUBS[g]:
            d = 3 if g in SPACE else 2
            for df in BOTH:
                for name in kinds:
                    i += 1
                    if d == 3 and not big and i % 3:
                        continue
                    c = dict(cls=name % d, group=g, sub=sub, n=2 if d == 3 else 4, k=2, s=1, df=df, C=2, F=2)
                    out.append(dict(c, kind="build"))
                    out.append(dict(c, kind="call", cost=4))
                    if "Pooling" in name and d == 2:
                        out.append(dict(c, kind="build", cls=name % 1))
                        out.append(dict(c, kind="call", cls=name % 1, cost=4))
                    if "Conv" in name and (big or i % 2):
                        out.append(dict(c, kind="call", lift=1))
    for df in BOTH:
        for kind in ("Max", "Average"):
            for d in (1, 2, 3):
                out.append({"kind": "global", "cls": "GlobalGroup%sPooling%dD" % (kind, d), "df": df})
    return uniq(out)


def layer_of(case):
    c = {k: v for k, v in case.items() if k != "kind"}
    return Conf(c)


@contextlib.contextmanager
def int_shapes(e):
    """Weights need plain shapes: a symbolic size takes every value it can have at this point."""
    import keras

    if not e.symbolic:
        yield
        return
    old = keras.layers.Layer.add_weight

    def add_weight(self, shape=None, *a, **k):
        shape = tuple(int(v) if isinstance(v, symint.SymTracer) else v for v in shape)
        return old(self, shape, *a, **k)

    keras.layers.Layer.add_weight = add_weight
    try:
        yield
    finally:
        keras.layers.Layer.add_weight = old


def ints(case, e, bound):
    conf = layer_of(case)
    m = e.var("m", 1, 200 if bound == "wide" else 60)
    order = ORDER[conf.domain]
    layer = conf.make()
    shape = list(conf.in_shape())
    shape[conf.group_axis] = m
    try:
        with int_shapes(e):
            layer.build(tuple(shape))
    except (symint.PathLimit, solve.Inconclusive, sym.Unsupported, harness.Timeout):
        raise
    except Exception:
        yield "refused although the signal lives on the group", e.no(e.raw(m) == order)
        return
    yield "accepted although the signal does not live on the group", e.both(e.raw(m) == order)


def refused(ctx, layer, x):
    if ctx.symbolic:
        with ctx.building():
            try:
                jaxsym.Traced(lambda t: layer(t), [x.shape])
            except harness.Timeout:
                raise
            except Exception:
                return True
        return False
    try:
        layer(np.asarray(x, dtype="float32"))
    except Exception:
        return True
    return False


def sides(case, ctx):
    if case["kind"] == "global":
        yield from global_sides(case, ctx)
        return
    conf = layer_of(case)
    layer = conf.build(ctx)
    w = conf.weights(ctx, layer)
    x = ctx.var("x", conf.in_shape())
    y = ctx.layer(layer, w, x)
    if refused(ctx, layer, x):
        raise Violation("refused a signal on the group")

    def shape(g, c):
        head = (conf.b, c) + conf.n if conf.first else (conf.b,) + conf.n
        return head + ((g,) if g else ()) + (() if conf.first else (c,))

    order = 0 if conf.lift else ORDER[conf.domain]
    sizes = [0] + list(range(1, 10)) + [16, 24, 48]
    for g in sizes:
        chans = {conf.C}
        if g == order:
            chans = set() if conf.pool else {1, 3, conf.C * 2}
        else:
            # also those that give the same number of merged channels
            chans |= {c for c in (1, 3, 4, 8) if g * c == order * conf.C}
        for c in sorted(chans):
            if not refused(ctx, layer, ctx.var("x_%d_%d" % (g, c), shape(g, c))):
                raise Violation("accepted a signal of shape %s on a layer built for %s" % (shape(g, c), tuple(x.shape)))
    # and the refusals change nothing
    yield "the right signal after the refusals", ctx.layer(layer, w, x), y
    if conf.pool and conf.d > 1:
        fresh = conf.make()
        if not refused(ctx, fresh, ctx.var("plain", shape(0, max(order, 2)))):
            raise Violation("a pooling layer on the group accepted a signal on the grid")


def global_sides(case, ctx):
    from groco import layers

    d, first = int(next(ch for ch in case["cls"] if ch in "123")), case["df"] == BOTH[1]
    for g, good in ((4, True), (0, False)):
        layer = getattr(layers, case["cls"])(data_format=case["df"])
        shape = ((1, 2) + (2,) * d if first else (1,) + (2,) * d) + ((g,) if g else ()) + (() if first else (2,))
        x = ctx.var("x%d" % g, shape)
        if refused(ctx, layer, x) == good:
            raise Violation("%s a signal of shape %s" % ("refused" if good else "accepted", shape))
        if good:
            y = ctx.layer(layer, [], x)
            yield "accepted signal", y, y


def decide(case):
    if case["kind"] == "build":
        return symint.decide(ints, case)
    return harness.decide_sides(sys.modules[__name__], case, False)


def replay(case, values):
    if case["kind"] == "build":
        return symint.replay(ints, case, values) if values else None
    return harness.replay_sides(sys.modules[__name__], case, values)
