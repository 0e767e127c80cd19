"""Group layers compute the same inside transformations, wrappers and larger models."""
import jax
import jax.numpy as jnp
import keras
import numpy as np

from checks.C32 import Global
from lib.cfg import Conf
from lib.grids import BOTH, uniq
from lib.oracle import Violation

EXPLAIN = (
    "The same real layer is called directly, computing eagerly, and inside jit, vmap over inputs, vmap over weights, scan, "
    "checkpointing, forward differentiation, TimeDistributed, a functional model with unknown batch size that uses it twice, "
    "and a layer of the user's own. The jaxprs of both are executed on the same symbolic inputs and weights; z3 decides that "
    "they agree for all values. Forward derivatives are compared with differences, which is exact as the layers are linear, and "
    "gradients through a checkpoint with those of the direct call."
)
BOUNDS = (
    "single 2D and 3D layers of all kinds, lifting or not, with subgroups, strides, paddings, formats and activations; sizes 2..5; "
    "forward derivatives of layers without activation or maximum, gradients of layers without maximum; mapped axes of 2 in three positions, scans of 2 steps, sequences of 2"
)
WAYS = ("jit", "vmap", "vmap_weights", "vmap_both", "scan", "remat", "jvp", "time", "functional", "own", "batched_jit")


def layers():
    out = []
    for df in BOTH:
        for cls in ("GroupConv2D", "GroupConv2DTranspose"):
            out += [
                dict(cls=cls, group="P4M", sub="P4", n=3, k=2, df=df),
                dict(cls=cls, group="P4", n=3, k=2, F=2, C=2, lift=1, df=df, act="relu"),
                dict(cls=cls, group="P2MM", sub="PMh", n=[3, 4], k=[2, 3], df=df, bias=False),
            ]
        out.append(dict(cls="GroupConv2D", group="P4", n=4, k=2, s=3, pad="same_equiv", lift=1, df=df))
        out.append(dict(cls="GroupConv2DTranspose", group="P4", n=2, k=2, s=2, lift=1, df=df))
        for kind in ("Max", "Average"):
            out.append(dict(cls="Group%sPooling2D" % kind, group="P4M", sub="P4", n=4, k=2, df=df))
            out.append(dict(cls="Group%sPooling2D" % kind, group="P4", n=4, k=3, s=1, pad="same_equiv", df=df))
            out.append(dict(cls="Group%sPooling1D" % kind, group="P4", sub="P2", n=5, k=2, s=3, pad="same_equiv", df=df))
            for d in (1, 2, 3):
                out.append({"cls": "GlobalGroup%sPooling%dD" % (kind, d), "df": df, "keep": d % 2})
        for cls in ("GroupConv3D", "GroupConv3DTranspose"):
            for lift in (0, 1):
                c = dict(cls=cls, group="D4", n=2, k=2, df=df, cost=3)
                out.append(dict(c, lift=1) if lift else c)
        out.append(dict(cls="GroupAveragePooling3D", group="D4", n=2, k=2, df=df))
    return out


def cases(tier, seed):
    out = []
    for i, c in enumerate(layers()):
        for j, way in enumerate(WAYS):
            if way.startswith("vmap_") and "Conv" not in c["cls"]:
                continue
            if way == "jvp" and ("act" in c or "Max" in c["cls"]):
                continue  # not linear
            for axis in (0, 1, -1) if way == "vmap" else (0,):
                if tier == "thorough" or axis == 0 or (i + axis) % 2:
                    out.append(dict(c, way=way, **({"axis": axis} if axis else {})))
    return uniq(out)


def conf_of(case):
    c = {k: v for k, v in case.items() if k not in ("way", "axis")}
    return Global(c) if c["cls"].startswith("Global") else Conf(c)


class Own(keras.layers.Layer):
    """A layer of the user's, calling a group layer."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def build(self, shape):
        self.built = True

    def call(self, x, training=False):
        return self.inner(x)


def sides(case, ctx):
    conf = conf_of(case)
    way = case["way"]
    layer = conf.build(ctx)
    shape = tuple(conf.in_shape())
    nv = [v for v in layer.trainable_variables]
    n = len(nv)

    def on(model):
        """The model as a function of weights and input, as a user calls it."""
        where = {id(v): i for i, v in enumerate(nv)}

        def f(*a):
            pairs = [(v, a[where[id(v)]]) for v in model.variables if id(v) in where]
            with keras.StatelessScope(pairs):
                return model(a[n])

        return f

    f = on(layer)
    w = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(nv)]
    w2 = [ctx.var("v%d" % i, v.shape) for i, v in enumerate(nv)]
    x, x2 = ctx.var("x", shape), ctx.var("x2", shape)
    direct = lambda ws, t: ctx.call(f, *ws, t, mode="eager", what=case["cls"] + ".call")  # noqa: E731
    y = direct(w, x)

    def same(name, got, want):
        if np.shape(got) != np.shape(want):
            raise Violation("%s: shape %s, directly %s" % (name, np.shape(got), np.shape(want)))
        return name, got, want

    if way == "jit":
        yield same("jit", ctx.call(f, *w, x, mode="jit"), y)
        yield "jit on the negated input", ctx.call(f, *w, -x, mode="jit"), y, False
    elif way == "batched_jit":  # traced for another batch size first
        b = shape[0] + 2
        big = ctx.var("big", (b,) + shape[1:])
        z = ctx.call(f, *w, big, mode="jit")
        again = ctx.call(f, *w, x, mode="jit")
        yield same("jit after another batch size", again, y)
        yield same("jit of a larger batch", z, np.concatenate([direct(w, big[i : i + 1]) for i in range(b)]))
    elif way == "vmap":
        ax = case.get("axis", 0)
        xs = np.stack([x, x2], axis=ax)
        got = ctx.call(lambda *a: jax.vmap(f, in_axes=(None,) * n + (ax,))(*a), *w, xs, mode="jit")
        yield same("vmap", got, np.stack([y, direct(w, x2)]))
    elif way == "vmap_weights":
        ws = [np.stack([a, b]) for a, b in zip(w, w2)]
        got = ctx.call(lambda *a: jax.vmap(f, in_axes=(0,) * n + (None,))(*a), *ws, x, mode="jit")
        yield same("vmap over weights", got, np.stack([y, direct(w2, x)]))
    elif way == "vmap_both":
        ws = [np.stack([a, b]) for a, b in zip(w, w2)]
        got = ctx.call(lambda *a: jax.vmap(f)(*a), *ws, np.stack([x, x2]), mode="jit")
        yield same("vmap over weights and inputs", got, np.stack([y, direct(w2, x2)]))
    elif way == "scan":
        def scanned(*a):
            return jax.lax.scan(lambda c, t: (c, f(*a[:n], t)), 0, a[n])[1]

        yield same("scan", ctx.call(scanned, *w, np.stack([x, x2]), mode="jit"), np.stack([y, direct(w, x2)]))
    elif way == "remat":
        yield same("checkpoint", ctx.call(lambda *a: jax.checkpoint(f)(*a), *w, x, mode="jit"), y)
        if "Max" in case["cls"]:
            return
        c = ctx.var("c", np.shape(y))
        g = ctx.call(lambda ct, *a: list(jax.grad(lambda *b: jnp.sum(jax.checkpoint(f)(*b) * ct), argnums=tuple(range(n + 1)))(*a)), c, *w, x, mode="jit")
        h = ctx.call(lambda ct, *a: list(jax.vjp(f, *a)[1](ct)), c, *w, x)
        for i, (a, b) in enumerate(zip(g, h)):
            yield same("gradient %d through a checkpoint" % i, a, b)
    elif way == "jvp":
        dx = ctx.var("dx", shape)
        got = ctx.call(lambda *a: jax.jvp(lambda t: f(*a[:n], t), (a[n],), (a[n + 1],))[1], *w, x, dx)
        yield same("forward derivative", got, direct(w, x + dx) - y)
    elif way == "time":
        with ctx.building():
            wrapped = keras.layers.TimeDistributed(layer)
            wrapped.build((shape[0], 2) + shape[1:])
        got = ctx.call(on(wrapped), *w, np.stack([x, x2], axis=1))
        yield same("TimeDistributed", got, np.stack([y, direct(w, x2)], axis=1))
    elif way == "functional":
        with ctx.building():
            a, b = keras.Input(shape[1:]), keras.Input(shape[1:])
            u, v = layer(a), layer(b)
            if tuple(u.shape)[1:] != tuple(np.shape(y))[1:] or u.shape[0] is not None:
                raise Violation("shape %s in a functional model, actual %s" % (tuple(u.shape), np.shape(y)))
            model = keras.Model([a, b], [u, v])
            if len(model.trainable_variables) != n:
                raise Violation("a shared layer has %d variables" % len(model.trainable_variables))

        def g(*args):
            with keras.StatelessScope(list(zip(nv, args[:n]))):
                return list(model([args[n], args[n + 1]]))

        u, v = ctx.call(g, *w, x, x2)
        yield same("first place", u, y)
        yield same("second place", v, direct(w, x2))
        if len(shape) > 1 and np.prod(shape) > 1:
            yield "places mixed up", u, direct(w, x2), False
    else:
        with ctx.building():
            own = Own(layer)
            own.build(shape)
        yield same("in a layer of one's own", ctx.call(on(own), *w, x), y)
