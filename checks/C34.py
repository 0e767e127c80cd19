"""Copied, cloned and reloaded models compute the same function, with weights of their own."""
import copy
import os
import shutil
import tempfile

import keras
import numpy as np

from lib.cfg import Conf
from lib.grids import BOTH, uniq
from lib.harness import Skip
from lib.oracle import Violation

EXPLAIN = (
    "Layers and models of group layers are built, called, given distinct weights and then deep-copied, cloned, saved to a "
    ".keras file or to a weights file and loaded back. The jaxprs of original and copy are executed on the same "
    "symbolic input and weights; z3 decides that they agree for all values. The copy's stored weights are compared with the "
    "original's one by one, and changing the copy's must leave the original's alone."
)
BOUNDS = (
    "single 2D and 3D layers of all kinds, with subgroups, strides, paddings, formats and activations; a sequential stack and a "
    "functional model with a branch; sizes 2..6; five ways of copying, before and after a call"
)
HOW = ("deepcopy", "clone", "file", "weights", "config")


def layers_2d():
    out = []
    for df in BOTH:
        for cls in ("GroupConv2D", "GroupConv2DTranspose"):
            out += [
                dict(cls=cls, group="P4M", sub="P4", n=3, k=2, F=2, df=df),
                dict(cls=cls, group="P4", n=4 if "T" not in cls[5:] else 3, k=2, s=2, F=1, C=2, df=df, act="relu", bias=False),
                dict(cls=cls, group="P2MM", sub="PMh", n=[3, 4], k=[2, 3], lift=1, F=2, df=df),
            ]
        out.append(dict(cls="GroupConv2D", group="P4", n=4, k=2, s=3, pad="same_equiv", df=df))
        out.append(dict(cls="GroupConv2D", group="P4M", sub="P2", n=5, k=2, dil=2, pad="same", allow=1, df=df))
        for cls in ("GroupMaxPooling2D", "GroupAveragePooling2D", "GroupMaxPooling1D"):
            out.append(dict(cls=cls, group="P4M", sub="P4", n=4, k=2, df=df))
            out.append(dict(cls=cls, group="P4", n=4, k=3, s=1, pad="same_equiv", df=df))
    return out


def layers_3d():
    out = []
    for df in BOTH:
        for cls in ("GroupConv3D", "GroupConv3DTranspose"):
            out.append(dict(cls=cls, group="D4h", sub="D4", n=2, k=2, lift=1, df=df, cost=6))
            out.append(dict(cls=cls, group="D4", n=2, k=2, df=df, cost=6))
        out.append(dict(cls="GroupAveragePooling3D", group="D4h", sub="D4", n=2, k=2, df=df, cost=6))
    return out


def cases(tier, seed):
    out = []
    for i, c in enumerate(layers_2d() + layers_3d()):
        for j, how in enumerate(HOW):
            for called in (0, 1):
                if tier == "thorough" or (i + j + called) % 2 or how == "deepcopy":
                    out.append({"layer": c, "how": how, "called": called, "cost": c.get("cost", 1)})
    for kind in ("sequential", "functional", "transposed", "3D"):
        for how in HOW:
            for called in (0, 1):
                out.append({"model": kind, "how": how, "called": called, "cost": 8})
    return uniq(out)


def custom():
    import groco.layers as L

    out = {}
    for m in (L,):
        out.update({k: v for k, v in vars(m).items() if isinstance(v, type) and issubclass(v, keras.layers.Layer)})
    return out


def model_of(case):
    import groco.layers as L

    kind = case["model"]
    if kind == "sequential":
        m = keras.Sequential([
            L.GroupConv2D(group="P4M", filters=1, kernel_size=3, padding="same_equiv", activation="relu"),
            L.GroupMaxPooling2D(group="P4M", subgroup="P4", pool_size=2),
            L.GroupConv2D(group="P4", filters=2, kernel_size=2),
            L.GlobalGroupAveragePooling2D(),
        ])
        return m, (1, 4, 4, 1)
    if kind == "transposed":
        m = keras.Sequential([
            L.GroupConv2D(group="P4", filters=1, kernel_size=2, data_format="channels_first"),
            L.GroupConv2DTranspose(group="P4", filters=1, kernel_size=2, data_format="channels_first"),
            L.GlobalGroupMaxPooling2D(data_format="channels_first", keepdims=True),
        ])
        return m, (1, 1, 3, 3)
    if kind == "3D":
        m = keras.Sequential([
            L.GroupConv3D(group="D4", filters=1, kernel_size=2),
            L.GroupAveragePooling3D(group="D4", pool_size=1),
            L.GlobalGroupAveragePooling3D(),
        ])
        return m, (1, 2, 2, 2, 1)
    i = keras.Input((3, 3, 1))
    a = L.GroupConv2D(group="P4", filters=2, kernel_size=3, padding="same_equiv")(i)
    b = L.GroupConv2D(group="P4", filters=2, kernel_size=1, padding="same_equiv", activation="relu")(a)
    o = L.GlobalGroupAveragePooling2D()(keras.layers.Add()([a, b]))
    return keras.Model(i, o), (1, 3, 3, 1)


def original(case):
    if "model" in case:
        m, shape = model_of(case)
        if not m.built:
            m.build(shape)
        return m, shape
    conf = Conf(dict(case["layer"]))
    if conf.impossible():
        raise Skip("no equivariant padding exists")
    m = keras.Sequential([conf.make()])
    m.build(conf.in_shape())
    return m, conf.in_shape()


def fill(m):
    start = 1
    for v in m.variables:
        size = int(np.prod(v.shape))
        v.assign(np.arange(start, start + size).reshape(v.shape) / 64)
        start += size


def copied(case, m, shape):
    how = case["how"]
    if how == "deepcopy":
        return copy.deepcopy(m)
    if how == "clone":
        m2 = keras.models.clone_model(m)
    elif how == "config":
        m2 = type(m).from_config(m.get_config(), custom_objects=custom())
    else:
        d = tempfile.mkdtemp(prefix="groco-c34-")
        try:
            if how == "file":
                m.save(os.path.join(d, "m.keras"))
                return keras.models.load_model(os.path.join(d, "m.keras"), custom_objects=custom())
            m.save_weights(os.path.join(d, "m.weights.h5"))
            m2 = type(m).from_config(m.get_config(), custom_objects=custom())
            if not m2.built:
                m2.build(shape)
            m2.load_weights(os.path.join(d, "m.weights.h5"))
            return m2
        finally:
            shutil.rmtree(d)
    if not m2.built:
        m2.build(shape)
    m2.set_weights(m.get_weights())
    return m2


def sides(case, ctx):
    with ctx.building():
        m, shape = original(case)
        fill(m)
        if case["called"]:
            m(np.ones(shape, "float32"))
        keep = [np.asarray(v.value).copy() for v in m.variables]
        m2 = copied(case, m, shape)
        if len(m2.variables) != len(keep):
            raise Violation("the copy has %d variables, not %d" % (len(m2.variables), len(keep)))
        for v, w in zip(m2.variables, keep):
            if tuple(v.shape) != w.shape or (np.asarray(v.value) != w).any():
                raise Violation("the copy does not have the weights of the original")
        for v in m2.variables:
            v.assign(np.asarray(v.value) + 1)
        if any((np.asarray(v.value) != w).any() for v, w in zip(m.variables, keep)):
            raise Violation("changing the copy's weights changes the original")
        for v in m.variables:
            v.assign(np.asarray(v.value) * 2)
        if any((np.asarray(v.value) != w + 1).any() for v, w in zip(m2.variables, keep)):
            raise Violation("changing the original's weights changes the copy")
    x = ctx.var("x", shape)
    w = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(m.trainable_variables)]
    y = ctx.layer(m, w, x)
    z = ctx.layer(m2, w, x)
    yield "copy and original", z, y
    yield "original after the copy was called", ctx.layer(m, w, x), y
    if ctx.symbolic:
        yield "copy on the negated input", ctx.layer(m2, w, -x), y, False
