"""Layers survive a configuration round trip."""
import json

import keras

from checks.C16 import default_format
from lib import grids
from lib.cfg import ORDER, SPACE, SUBS, WALL, Conf, groups
from lib.grids import BOTH, uniq
from lib.oracle import Violation

EXPLAIN = (
    "The configuration of each real layer goes through JSON and from_config (or Keras serialisation, or a whole "
    "Sequential model); original and rebuilt layer are executed symbolically on one input and one set of weights, "
    "z3 decides that their outputs are equal for all values."
)
BOUNDS = (
    "the layer grids of C07-C13 (every third configuration in the quick tier): 1D, 2D, 3D, all groups x subgroups, "
    "paddings, strides, dilation, activations, permission for non-equivariant padding; built and unbuilt; one and two "
    "round trips; three-layer Sequential models"
)
VIA = ("plain", "built", "twice", "keras", "default")


def cases(tier, seed):
    big = tier == "thorough"
    raw = []
    for lift in (True, False):
        raw += grids.conv2d(lift, tier) + grids.conv3d(lift, tier)
    raw += grids.transposed(tier) + grids.pooling(tier)
    raw = [c for i, c in enumerate(raw) if big or i % 4 == seed % 4 or "act" in c or c.get("bias") is False]
    for df in BOTH:
        for cls in ("GroupConv2D", "GroupConv2DTranspose", "GroupMaxPooling2D", "GroupAveragePooling2D"):
            for n, k, s, pad in [(4, 2, 2, "same"), (5, 2, 2, "valid"), (5, 2, 2, "same"), (3, 2, 1, "same"), (5, 3, 3, "valid")]:
                raw.append(dict(cls=cls, group="P4M", sub="P4", n=n, k=k, s=s, pad=pad, allow=1, df=df, C=2, F=2))
        for cls in ("GroupConv3D", "GroupConv3DTranspose", "GroupMaxPooling3D", "GroupAveragePooling3D"):
            for g, sub in [("D4h", "D4"), ("O", "D4"), ("D4", None)]:
                c = dict(cls=cls, group=g, n=3, k=2, s=2, pad="same", allow=1, df=df, cost=10)
                raw.append(dict(c, sub=sub) if sub else c)
        for kind in ("Max", "Average"):
            for g in WALL:
                for sub in SUBS[g]:
                    raw.append(dict(cls="Group%sPooling1D" % kind, group=g, sub=sub, n=5, k=2, s=1, pad="same_equiv", df=df, C=2))
                    raw.append(dict(cls="Group%sPooling1D" % kind, group=g, sub=sub, n=4, k=2, df=df))
        for cls, s in [("GroupConv2D", 1), ("GroupConv2D", 2), ("GroupConv2DTranspose", 1)]:
            for act in ("relu", "sigmoid", "softmax", "elu"):
                raw.append(dict(cls=cls, group="P4", n=3, k=3, s=s, pad="same_equiv", act=act, df=df, C=2, F=2))
    raw += grids.output_padding()[:: 1 if big else 3]
    raw = uniq(raw)
    out = [dict(c, via=VIA[i % len(VIA)]) for i, c in enumerate(raw)]
    for c in raw[:: 40]:
        out += [dict(c, via=v) for v in VIA]
    for kind in ("Max", "Average"):
        for d, g in [(1, "P4"), (2, "P4M"), (3, "D4")]:
            for keep in (0, 1):
                for df in BOTH:
                    for via in VIA:
                        out.append({"cls": "GlobalGroup%sPooling%dD" % (kind, d), "group": g, "n": 2, "keep": keep, "df": df, "via": via})
    for name in ("P4MConv2D", "P4Conv2D", "P2MMConv2D", "PMhConv2D", "PMwConv2D", "P2Conv2D", "P1Conv2D"):
        for via in ("plain", "built"):
            out.append({"named": name, "cls": "GroupConv2DTranspose" if "Transpose" in name else "GroupConv2D", "group": name[: name.index("Conv")], "n": 3, "k": 2, "C": 2, "F": 2, "via": via})
    for name in ("D4Conv3D", "D4hConv3D", "OConv3D"):
        out.append({"named": name, "cls": "GroupConv3DTranspose" if "Transpose" in name else "GroupConv3D", "group": name[: name.index("Conv")], "n": 2, "k": 2, "F": 2, "via": "plain"})
    for df in BOTH:
        for g, sub in [("P4M", "P4"), ("P4", "P2"), ("P2MM", "PMh")]:
            for kind in ("Max", "Average"):
                out.append({"model": 1, "group": g, "sub": sub, "kind": kind, "n": 4, "df": df})
    return uniq(out)


def custom():
    from groco import layers

    return {n: c for n, c in vars(layers).items() if isinstance(c, type)}


def through_json(config):
    try:
        text = json.dumps(config)
    except TypeError as e:
        raise Violation("configuration is not JSON serialisable: %s" % e)
    return json.loads(text)


def round_trip(layer, cls, via):
    if via == "keras":
        return keras.layers.deserialize(through_json(keras.layers.serialize(layer)), custom_objects=custom())
    for _ in range(2 if via == "twice" else 1):
        layer = cls.from_config(through_json(layer.get_config()))
    return layer


def sides(case, ctx):
    from groco import layers

    if "model" in case:
        yield from model_sides(case, ctx)
        return
    cls = getattr(layers, case["cls"])
    if case["cls"].startswith("Global"):
        d, first = int(case["cls"][-2]), case["df"] == "channels_first"
        sp, o = (case["n"],) * d, ORDER[case["group"]]
        shape = (2, 2, *sp, o) if first else (2, *sp, o, 2)
        ga = d + 2 if first else d + 1
        make = lambda: cls(keepdims=bool(case["keep"]), data_format=case["df"])  # noqa: E731
    else:
        conf = Conf(case)
        shape, ga = conf.in_shape(), None
        if "named" in case:
            named = getattr(layers, case["named"])
            make = lambda: named(**{k: v for k, v in conf.kwargs().items() if k != "group"})  # noqa: E731
        else:
            make = conf.make
    x = ctx.var("x", shape)
    with ctx.building():
        layer = make()
        early = round_trip(layer, cls, "plain") if case["via"] == "built" else None
        if ga is None:
            layer = conf_build(conf, layer)
        else:
            layer.build(shape)
        with default_format("channels_first" if case["via"] == "default" else None):
            again = round_trip(layer, cls, case["via"])
            if not again.built:  # Keras builds what was built before
                again.build(shape)
        if early is not None:
            early.build(shape)
    w = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(layer.trainable_variables)]
    y = ctx.layer(layer, w, x)
    for name, other in (("rebuilt", again), ("rebuilt from the unbuilt layer", early)):
        if other is None:
            continue
        if type(other) is not type(layer):
            raise Violation("rebuilt layer is a %s" % type(other).__name__)
        shapes = [[tuple(v.shape) for v in l.variables] for l in (layer, other)]
        if shapes[0] != shapes[1]:
            raise Violation("weights of shape %s, rebuilt %s" % tuple(shapes))
        yield name + " layer", ctx.layer(other, w, x), y
    if w and ctx.symbolic:
        import numpy as np

        yield "other weights", ctx.layer(again, [np.roll(v, 1) if v.size > 1 else v + v for v in w], x), y, False


def conf_build(conf, layer):
    from lib.harness import Skip

    try:
        layer.build(conf.in_shape())
    except ValueError:
        if conf.impossible():
            raise Skip("no equivariant padding exists")
        raise
    return layer


def model_sides(case, ctx):
    from groco import layers

    g, sub, df = case["group"], case["sub"], case["df"]
    n = (case["n"],) * 2
    shape = (1, 2, *n) if df == "channels_first" else (1, *n, 2)
    kw = dict(group=g, subgroup=sub, data_format=df)
    with ctx.building():
        seq = [
            layers.GroupConv2D(filters=2, kernel_size=3, padding="same_equiv", activation="relu", kernel_initializer="zeros", **kw),
            getattr(layers, "Group%sPooling2D" % case["kind"])(group=sub, pool_size=2, strides=2, padding="valid_equiv", data_format=df),
            layers.GroupConv2DTranspose(group=sub, filters=1, kernel_size=2, data_format=df, kernel_initializer="zeros"),
            getattr(layers, "GlobalGroup%sPooling2D" % case["kind"])(data_format=df),
        ]
        model = keras.Sequential(seq)
        model.build((None,) + shape[1:])
        config = through_json(model.get_config())
        again = keras.Sequential.from_config(config, custom_objects=custom())
        if not again.built:
            again.build((None,) + shape[1:])
        third = keras.models.model_from_json(model.to_json(), custom_objects=custom())
    x = ctx.var("x", shape)
    w = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(model.trainable_variables)]
    y = ctx.layer(model, w, x)
    for other in (again, third):
        if [v.shape for v in other.trainable_variables] != [v.shape for v in model.trainable_variables]:
            raise Violation("rebuilt model has other weights")
        yield "rebuilt model", ctx.layer(other, w, x), y
