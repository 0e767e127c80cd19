"""Calling a layer leaves it unchanged."""
import itertools
import random

import jax
import jax.numpy as jnp
import keras
import numpy as np
from keras.src.backend.common.stateless_scope import StatelessScope

from lib import grids, oracle
from lib.cfg import ORDER, Conf
from lib.grids import BOTH, uniq

EXPLAIN = (
    "Histories of calls on the real layer object: calls on other symbolic inputs, on other batch and spatial "
    "sizes, failing calls (wrong channels, wrong group axis, wrong rank, an activation that raises), eagerly "
    "before and inside the traced function, mixed with get_config, compute_output_shape, gradients, jit and "
    "weight assignment. The whole history is traced to one jaxpr in which the earlier inputs are symbolic, and z3 "
    "decides that the last call equals the call of a fresh layer, and that the kernel and bias left behind are the "
    "original ones, for all inputs (also the earlier ones) and all weights. Settings are compared before and after."
)
BOUNDS = "every history of one operation and pairs of operations (16 operations), longer random ones up to length 5; 2D/3D convolutions, transposed, pooling, global pooling; spatial sizes 2..5"
FAILS = ("channels", "group", "rank", "act")
CALLS = ("call", "batch", "size", "direct") + FAILS
OUTSIDE = ("config", "shape", "grad", "jit", "assign", "spec", "count")
OPS = ["t:" + o for o in CALLS] + ["e:" + o for o in CALLS] + ["e:" + o for o in OUTSIDE]


class Boom(Exception):
    pass


class Act:
    """The identity, or an exception."""

    def __init__(self):
        self.on = False

    def __call__(self, x):
        if self.on:
            raise Boom()
        return keras.ops.relu(x)


def layers(tier):
    out = []
    for df in BOTH:
        for lift in (0, 1):
            L = {"lift": 1} if lift else {}
            out.append(dict(L, cls="GroupConv2D", group="P4M", sub="P4", n=3, k=2, C=2, F=2, df=df))
            out.append(dict(L, cls="GroupConv2D", group="P2MM", n=4, k=3, s=3, pad="same_equiv", C=2, F=1, df=df))
            out.append(dict(L, cls="GroupConv2D", group="P4", n=4, k=2, C=1, F=2, bias=False, df=df))
            out.append(dict(L, cls="GroupConv2DTranspose", group="P4", sub="P2", n=3, k=2, C=2, F=2, df=df))
            out.append(dict(L, cls="GroupConv2DTranspose", group="P2MM", n=3, k=3, pad="same_equiv", F=2, bias=False, df=df))
            out.append(dict(L, cls="GroupConv3D", group="D4", n=2, k=2, C=1, F=2, df=df, cost=3))
            out.append(dict(L, cls="GroupConv3DTranspose", group="D4", n=2, k=2, C=1, F=2, df=df, cost=3))
        for kind in ("Max", "Average"):
            out.append(dict(cls="Group%sPooling2D" % kind, group="P4M", sub="P4", n=4, k=2, C=2, df=df))
            out.append(dict(cls="Group%sPooling2D" % kind, group="P4", n=4, k=3, s=1, pad="same_equiv", C=2, df=df))
            out.append(dict(cls="Group%sPooling3D" % kind, group="D4", n=2, k=2, df=df, cost=2))
            out.append(dict(cls="Group%sPooling1D" % kind, group="P2", n=4, k=2, df=df))
    for c in out:
        if "Conv" in c["cls"] and c.get("bias", True):
            c["actraise"] = 1
    return out


def cases(tier, seed):
    rng = random.Random(seed)
    out = []
    for i, c in enumerate(layers(tier)):
        ops = [o for o in OPS if c.get("actraise") or not o.endswith(":act")]
        for o in ops:
            out.append(dict(c, ops=[o]))
        for _ in range(25 if tier == "thorough" else 3):
            out.append(dict(c, ops=[rng.choice(ops) for _ in range(rng.choice([3, 4, 5]))]))
        pairs = list(itertools.product(ops, ops))
        out += [dict(c, ops=list(p)) for p in (pairs if tier == "thorough" and "2D" in c["cls"] else rng.sample(pairs, 12))]
    for kind in ("Max", "Average"):
        for df in BOTH:
            for o in ("t:call", "e:call", "t:batch", "e:config", "t:rank", "e:rank", "e:grad", "e:jit"):
                out.append(dict(cls="GlobalGroup%sPooling2D" % kind, group="P4", n=3, C=2, df=df, ops=[o, "t:call"]))
    return uniq(out)


class Global:
    """As Conf for global pooling."""

    def __init__(self, c):
        from groco import layers

        self.cls, self.df, self.first = getattr(layers, c["cls"]), c["df"], c["df"] == "channels_first"
        self.n, self.C, self.b, self.o = (c["n"],) * 2, c["C"], 1, ORDER[c["group"]]
        self.group_axis, self.lift, self.pool, self.axes = (4 if self.first else 3), False, True, (2, 3) if self.first else (1, 2)

    def in_shape(self):
        return (self.b, self.C, *self.n, self.o) if self.first else (self.b, *self.n, self.o, self.C)

    def build_or_skip(self, ctx):
        with ctx.building():
            layer = self.cls(data_format=self.df)
            layer.build(self.in_shape())
        return layer

    def weights(self, ctx, layer):
        return []


SETTINGS = ("filters", "kernel_size", "strides", "padding", "data_format", "dilation_rate", "use_bias", "rank", "groups", "built", "trainable")


def snapshot(layer, config):
    s = {a: getattr(layer, a) for a in SETTINGS if hasattr(layer, a)}
    for name in ("trainable_variables", "non_trainable_variables", "variables"):
        s[name] = [(id(v), tuple(v.shape), str(v.dtype)) for v in getattr(layer, name)]
    for a in ("kernel", "bias"):
        if getattr(layer, a, None) is not None:
            s[a] = tuple(getattr(layer, a).shape)
    if config:
        s["config"] = {k: v for k, v in layer.get_config().items()}
    return s


def input_for(conf, op, shape):
    """Shape of the input of an operation."""
    shape = list(shape)
    if op == "batch":
        shape[0] += 2
    elif op == "channels":
        shape[1 if conf.first else -1] += 1
    elif op == "group":
        shape[-1 if conf.lift else conf.group_axis] += 1
    elif op == "rank":
        shape = shape[:-1]
    elif op == "size":
        for a in conf.axes:
            shape[a] += 2
    return tuple(shape)


def perform(layer, op, x, act):
    """One call, that may fail."""
    if op == "act":
        act.on = True
    try:
        return layer.call(x) if op == "direct" else layer(x)
    except Exception:
        return None
    finally:
        if act:
            act.on = False


def outside(conf, layer, op, shape, wvals, act):
    x = jnp.asarray(np.random.default_rng(5).integers(-3, 4, shape).astype("float32"))
    nt = [v.value for v in layer.non_trainable_variables]
    loss = lambda w, t: jnp.sum(layer.stateless_call(w, nt, t)[0] ** 2)  # noqa: E731
    try:
        if op == "config":
            layer.get_config()
        elif op == "shape":
            layer.compute_output_shape((7,) + input_for(conf, "size", shape)[1:])
        elif op == "grad":
            jax.make_jaxpr(jax.grad(loss, argnums=(0, 1) if wvals else 1))(wvals, x)
        elif op == "jit":
            jax.make_jaxpr(jax.jit(loss))(wvals, x)
        elif op == "assign":
            layer.set_weights([np.asarray(w) + 1 for w in layer.get_weights()])
            perform(layer, "call", x, act)
        elif op == "spec":
            layer(keras.Input(shape[1:]))
        elif op == "count":
            layer.count_params()
        else:
            perform(layer, op, jnp.zeros(input_for(conf, op, shape), "float32") + 2, act)
    except Exception:
        if op not in ("shape", "config", "spec"):
            raise
        # settled by other properties (C18, C19); here only the state counts


def sides(case, ctx):
    act = Act() if case.get("actraise") else None
    if case["cls"].startswith("Global"):
        conf = Global(case)
        over = {}
    else:
        conf = Conf(case)
        over = {"activation": act} if act else {}
    shape = conf.in_shape()
    x = ctx.var("x", shape)
    fresh = conf.build_or_skip(ctx, **over) if over else conf.build_or_skip(ctx)
    w = conf.weights(ctx, fresh)
    want = ctx.layer(fresh, w, x)

    layer = conf.build_or_skip(ctx, **over) if over else conf.build_or_skip(ctx)
    before = snapshot(layer, not act)
    wvals = [jnp.ones(v.shape, "float32") * 0.5 for v in layer.trainable_variables]
    inner = []
    with ctx.building():
        for op in case["ops"]:
            where, name = op.split(":")
            if where == "e":
                outside(conf, layer, name, shape, wvals, act)
            else:
                inner.append(name)
    xs = [ctx.var("x%d" % i, input_for(conf, name, shape)) for i, name in enumerate(inner)]
    nw = len(w)

    def history(t, *rest):
        ws, others = rest[:nw], rest[nw:]
        with StatelessScope(state_mapping=list(zip(layer.trainable_variables, ws))):
            for name, o in zip(inner, others):
                perform(layer, name, o, act)
            y = layer(t)
            left = []
            for a in ("kernel", "bias"):
                v = getattr(layer, a, None)
                if v is not None:
                    left.append(keras.ops.convert_to_tensor(v))
        return [y] + left

    got = ctx.call(history, x, *w, *xs, what=type(layer).__name__ + ".call")
    after = snapshot(layer, not act)
    for k in before:
        if before[k] != after.get(k):
            raise oracle.Violation("%s is %s after the calls, was %s" % (k, after.get(k), before[k]))
    yield "next call", got[0], want
    for name, v, ref in zip(("kernel", "bias"), got[1:], w):
        yield name + " left behind", v, ref
    # and calling it again, on its own
    yield "call after that", ctx.layer(layer, w, x), want
    if inner and inner[0] == "call" and ctx.symbolic:
        yield "output of the earlier input", got[0], ctx.layer(fresh, w, xs[0]), False
