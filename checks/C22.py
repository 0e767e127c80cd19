"""Stacks of group layers are equivariant and globally pooled ones invariant."""
import keras
import numpy as np

from lib import oracle
from lib.cfg import ORDER, groups, tup
from lib.grids import BOTH, uniq
from lib.harness import Skip
from lib.oracle import Violation

EXPLAIN = (
    "Whole networks of real group layers (Sequential models and plain composition), with biases and activations, are "
    "traced to one jaxpr and executed on a symbolic input and symbolic weights of all layers; z3 decides "
    "N(g.x) = g.N(x), or N(g.x) = N(x) after global pooling, for the generators of the group the layers share, for all "
    "inputs and all weights."
)
BOUNDS = (
    "2 to 5 layers, 2D (P4M, P4, P2MM, PMh, PMw, P2 and their subgroups passed on) and 3D (D4, D4h, O); input sides 2..6, "
    "at most 2 channels; ReLU, tanh, linear; max and average pooling; square and, for groups without rotations, "
    "rectangular inputs; batch 1..2"
)


def conv(group, k=2, sub=None, F=1, pad="valid_equiv", **kw):
    return dict(kw, t="Conv", group=group, sub=sub, kernel_size=k, filters=F, padding=pad)


def tconv(group, k=2, sub=None, F=1, pad="valid_equiv", **kw):
    return dict(kw, t="ConvT", group=group, sub=sub, kernel_size=k, filters=F, padding=pad)


def pool(kind, group, k=2, sub=None, pad="valid_equiv", **kw):
    return dict(kw, t=kind, group=group, sub=sub, pool_size=k, padding=pad)


def glob(kind):
    return {"t": "Global" + kind}


R = dict(activation="relu")


def cases(tier, seed):
    big = tier == "thorough"
    out = []

    def add(share, layers, n, df=None, **kw):
        for f in BOTH if df is None else [df]:
            out.append(dict(kw, share=share, layers=layers, n=n, df=f))

    for kind in ("Max", "Average"):
        for g in ("P4M", "P4", "P2MM", "PMh", "PMw", "P2", "P1"):
            add(g, [conv(g, 2, **R), pool(kind, g, 2, strides=1), conv(g, 1, F=2)], [4, 4], cost=10)
            add(g, [conv(g, 3, pad="same_equiv", **R), conv(g, 2), glob(kind)], [3, 3], cost=10)
            add(g, [conv(g, 2, F=2), pool(kind, g, 2, pad="same_equiv"), glob(kind)], [5, 5], C=2, cost=10)
        for g, sub in [("P4M", "P4"), ("P4M", "P2MM"), ("P4M", "P2"), ("P4", "P2"), ("P4M", "PMh"), ("P2MM", "PMw"), ("P4", "P1")]:
            # a convolution to a subgroup, next layers on the subgroup
            add(sub, [conv(g, 2, **R), conv(g, 2, sub=sub, **R), conv(sub, 1)], [4, 4], cost=20)
            add(sub, [conv(g, 2, sub=sub, **R), pool(kind, sub, 2), glob(kind)], [5, 5], cost=10)
            # pooling to a subgroup
            add(sub, [conv(g, 2, **R), pool(kind, g, 2, sub=sub, strides=1), conv(sub, 2)], [4, 4], cost=20)
            # transposed from the subgroup to the group
            add(sub, [conv(g, 2, sub=sub, **R), tconv(g, 2, sub=sub, strides=2), pool(kind, g, 2)], [3, 3], cost=20)
            add(sub, [conv(sub, 2), tconv(g, 2, sub=sub), glob(kind)], [3, 3], cost=20)
            add(sub, [tconv(g, 2, sub=sub), conv(g, 2, sub=sub), glob(kind)], [2, 2], cost=20)
    for g in ("P4", "P2MM", "PMh"):
        add(g, [conv(g, 2, activation="tanh"), tconv(g, 3, strides=3, activation="sigmoid"), conv(g, 1)], [3, 3], cost=10)
        add(g, [conv(g, 3, pad="same_equiv", strides=2, **R), conv(g, 2, pad="same_equiv", strides=1, **R)], [5, 5], b=2, cost=20)
        add(g, [conv(g, 1, F=2, **R), conv(g, 1, F=2, **R), conv(g, 1, **R), glob("Max")], [2, 2], C=2, cost=5)
        add(g, [conv(g, 2, dilation_rate=2, **R), pool("Max", g, 3, strides=1, pad="same_equiv"), conv(g, 2)], [5, 5], cost=20)
        # as the example in the tests of the repository
        add(g, [conv(g, 3, pad="same_equiv"), pool("Max", g, 2), conv(g, 1), pool("Max", g, 2), tconv(g, 3, pad="same_equiv")], [4, 4], cost=30)
        # input on the group already
        add(g, [conv(g, 2, **R), pool("Average", g, 2), conv(g, 1, use_bias=False)], [5, 5], dom=g, cost=10)
    for g in ("P2MM", "PMh", "PMw", "P2"):
        add(g, [conv(g, [2, 1], strides=[1, 2], **R), pool("Max", g, [1, 2]), conv(g, 1)], [3, 7], cost=5)
        add(g, [conv(g, [1, 3], pad="same_equiv", **R), tconv(g, 2), glob("Average")], [3, 4], cost=5)
    add("P4", [conv("P4", 2, **R), pool("Max", "P4", 2, strides=1), conv("P4", 1)], [3, 4], cost=10)
    add("P4M", [conv("P4M", 2, **R), pool("Average", "P4M", 2, strides=1), glob("Max")], [4, 3], cost=10)
    for kind in ("Max", "Average"):
        for g in ("D4", "D4h", "O"):
            c = {"D4": 30, "D4h": 60, "O": 80}[g]
            add(g, [conv(g, 2, **R), conv(g, 1), glob(kind)], [2, 2, 2], df=BOTH[kind == "Max"], cost=c)
            add(g, [conv(g, 1, **R), pool(kind, g, 2), conv(g, 1)], [2, 2, 2], df=BOTH[kind == "Max"], cost=c)
        for g, sub in [("D4h", "D4"), ("O", "D4")]:
            add(sub, [conv(g, 1, sub=sub, **R), pool(kind, sub, 2), conv(sub, 1)], [2, 2, 2], cost=20)
            add(sub, [conv(g, 1, **R), pool(kind, g, 2, sub=sub), glob(kind)], [2, 2, 2], df=BOTH[kind == "Max"], cost=20)
            add(sub, [conv(sub, 2, **R), tconv(g, 1, sub=sub), glob(kind)], [2, 2, 2], df=BOTH[kind == "Max"], cost=20)
        add("D4", [conv("D4", 2, **R), tconv("D4", 2, strides=2), pool(kind, "D4", 2)], [2, 2, 2], cost=20)
        add("D4", [conv("D4", [1, 1, 2], **R), pool(kind, "D4", [2, 2, 1]), glob(kind)], [2, 2, 3], cost=10)
    out = [dict(c, seq=i % 2) for i, c in enumerate(out)]
    return uniq(out)


def build(spec, df, d):
    from groco import layers

    t = spec["t"]
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in spec.items() if k not in ("t", "sub") and v is not None}
    kw["data_format"] = df
    if spec.get("sub"):
        kw["subgroup"] = spec["sub"]
    if "Global" in t:
        return getattr(layers, "GlobalGroup%sPooling%dD" % (t[6:], d))(data_format=df)
    if "Conv" in t:
        kw["kernel_initializer"] = "zeros"
        return getattr(layers, "GroupConv%dD%s" % (d, "Transpose" if t == "ConvT" else ""))(**kw)
    return getattr(layers, "Group%sPooling%dD" % (t, d))(**kw)


def impossible(spec, n, d):
    k = spec.get("kernel_size", spec.get("pool_size"))
    s = spec.get("strides", 1 if "Conv" in spec["t"] else k)
    k, s, e = (tup(v, d) for v in (k, s, spec.get("dilation_rate", 1)))
    return any(
        oracle.equiv_padding(m, (a - 1) * c + 1, b, spec["padding"], spec["t"] == "ConvT") is None
        for m, a, b, c in zip(n, k, s, e)
    )


def sides(case, ctx):
    n, df = list(case["n"]), case["df"]
    d, first = len(n), df == "channels_first"
    b, C = case.get("b", 1), case.get("C", 1)
    axes = tuple(range(2, 2 + d)) if first else tuple(range(1, 1 + d))
    ga = d + 2 if first else d + 1
    dom = case.get("dom")
    extra = [ORDER[dom]] if dom else []
    shape = (b, C, *n, *extra) if first else (b, *n, *extra, C)
    x = ctx.var("x", shape)

    def network(s):
        with ctx.building():
            # sizes for which no equivariant padding exists are outside the property (C14, C15)
            trial = Composed([build(spec, df, d) for spec in case["layers"]])
            try:
                trial.build(tuple(s))
            except ValueError:
                spec, m = case["layers"][trial.at], [trial.shape[a] for a in axes]
                if impossible(spec, m, d):
                    raise Skip("no equivariant padding exists in layer %d" % trial.at)
                raise
            parts = [build(spec, df, d) for spec in case["layers"]]
            if case["seq"]:
                model = keras.Sequential(parts)
                model.build(tuple(s))
            else:
                model = Composed(parts)
                model.build(tuple(s))
        return model

    net = network(shape)
    ws = net.trainable_variables
    w = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(ws)]
    y = ctx.layer(net, w, x)
    share = oracle.matrices(groups()[case["share"]])
    # the group the last layer maps to
    last = case["layers"][-1]
    pooled = last["t"].startswith("Global")
    if not pooled:
        target = last["group"] if last["t"] == "ConvT" else (last.get("sub") or last["group"])
        tm = oracle.matrices(groups()[target])
        if y.shape[ga] != len(tm):
            raise Violation("output of shape %s on %s" % (y.shape, target))
    dm = oracle.matrices(groups()[dom]) if dom else None
    twin = False
    for i in oracle.generators(share):
        m = share[i]
        gx = oracle.act_group(x, m, dm, axes, ga) if dom else oracle.act_grid(x, m, axes)
        net2 = net if gx.shape == x.shape else network(gx.shape)
        lhs = ctx.layer(net2, w, gx)
        rhs = y if pooled else oracle.act_group(y, m, tm, axes, ga)
        yield ("N(gx) = N(x)" if pooled else "N(gx) = gN(x)") + ", element %d" % i, lhs, rhs
        if not pooled and not twin and ctx.symbolic and len(share) > 1:
            twin = True
            yield "N(x) = gN(x)", y, rhs, False


class Composed(keras.layers.Layer):
    """Layers applied one after the other."""

    def __init__(self, parts):
        super().__init__()
        self.parts = parts

    def build(self, shape):
        for self.at, p in enumerate(self.parts):
            self.shape = tuple(shape)
            p.build(shape)
            shape = keras.ops.shape(p(np.zeros(shape, "float32")))
        self.built = True

    def call(self, x):
        for p in self.parts:
            x = p(x)
        return x
