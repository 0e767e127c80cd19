"""The options of any Keras layer apply to group layers, once, to the shared parameters."""
import jax
import jax.numpy as jnp
import keras
import numpy as np

from checks.C12 import reference as pool_reference
from lib import jaxsym, values
from lib.cfg import Conf, ORDER, SUBS
from lib.grids import BOTH, uniq
from lib.oracle import Violation

EXPLAIN = (
    "Regularisation losses, an SGD training step with constraints, and calls under other dtype policies are "
    "traced from the real layers and executed symbolically. z3 decides for all inputs, weights and cotangents "
    "that the losses are the regulariser of the one shared kernel and bias (activity: of the output), that a "
    "step subtracts the learning rate times the gradient of the one kernel and then applies the constraint, "
    "and that a dtype policy changes no (real) value. Declared dtypes, names, trainability "
    "and initial values are compared with those of the plain Keras layers."
)
BOUNDS = (
    "2D and 3D convolutions (lifting, group, transposed), pooling and global pooling; L1, L2, L1L2 and activity regularisers; NonNeg "
    "and no constraint; float16, bfloat16, mixed_float16, mixed_bfloat16, float32, per layer and as global policy; sizes 2..4"
)
jaxsym.EXACT_CASTS = True  # here lower precision is what was asked for
POLICIES = ("float16", "bfloat16", "mixed_float16", "mixed_bfloat16", "float32")


def confs(tier):
    out = []
    for df in BOTH:
        for g, sub in [("P4M", "P4"), ("P4", "P4"), ("P2MM", "PMh"), ("P1", "P1"), ("P4", "P2")]:
            for cls in ("GroupConv2D", "GroupConv2DTranspose"):
                for lift in (0, 1):
                    c = dict(cls=cls, group=g, sub=sub, n=3, k=2, C=2 if lift else 1, F=2, df=df)
                    out.append(dict(c, lift=1) if lift else c)
        for cls in ("GroupConv3D", "GroupConv3DTranspose"):
            out.append(dict(cls=cls, group="D4", n=2, k=2, df=df, lift=1))
        out.append(dict(cls="GroupConv2D", group="P4", n=4, k=2, s=3, pad="same_equiv", df=df, act="relu", F=2))
        out.append(dict(cls="GroupConv2D", group="P4", n=3, k=2, s=1, pad="same_equiv", df=df, bias=False, F=2))
    return out


def pools(tier):
    out = []
    for df in BOTH:
        for g, sub in [("P4M", "P4"), ("P4", "P4"), ("P2MM", "P1"), ("P4M", "P2")]:
            for kind in ("Max", "Average"):
                for d in (1, 2):
                    for pad in ("valid_equiv", "same_equiv"):
                        out.append(dict(cls="Group%sPooling%dD" % (kind, d), group=g, sub=sub, n=5, k=2, s=3, pad=pad, df=df))
        for kind in ("Max", "Average"):
            out.append(dict(cls="Group%sPooling3D" % kind, group="D4", n=2, k=2, df=df))
            out += [{"cls": "GlobalGroup%sPooling%dD" % (kind, d), "df": df, "keep": keep} for d in (1, 2, 3) for keep in (0, 1)]
    return out


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for i, c in enumerate(confs(tier)):
        for reg in ("l2", "l1", "l1l2", "kernel", "bias"):
            if c.get("bias") is not False or reg in ("l2", "kernel"):
                out.append(dict(c, kind="regularizer", reg=reg))
        out.append(dict(c, kind="activity"))
        out.append(dict(c, kind="frozen"))
        out.append(dict(c, kind="initial"))
        if "act" not in c:
            out.append(dict(c, kind="step", cost=3))
            out.append(dict(c, kind="step", nonneg=1, cost=3))
        for j, p in enumerate(POLICIES):
            for glob in (0, 1):
                if big or (i + j + glob) % 3 == 0:
                    out.append(dict(c, kind="dtype", policy=p, **({"glob": 1} if glob else {})))
    for df in BOTH:
        # these are not their own repetition: once is enough
        for act in ("tanh", "softplus") if not big else ("tanh", "softplus", "sigmoid", "elu", "squareplus"):
            for cls in ("GroupConv2D", "GroupConv2DTranspose", "GroupConv3D", "GroupConv3DTranspose"):
                for lift in (1, 0):
                    if "3D" in cls and not lift:
                        continue
                    c = dict(cls=cls, group="D4" if "3D" in cls else "P4", n=2, k=2, df=df, act=act, kind="activation")
                    out.append(dict(c, lift=1) if lift else c)
    for i, c in enumerate(pools(tier)):
        out.append(dict(c, kind="name"))
        for j, p in enumerate(POLICIES):
            for glob in (0, 1):
                if big or (i + j + glob) % 3 == 0:
                    out.append(dict(c, kind="dtype", policy=p, **({"glob": 1} if glob else {})))
    for cls in ("GroupConv2D", "GroupConv2DTranspose", "GroupConv3D"):
        out.append(dict(cls=cls, group="D4" if "3D" in cls else "P4", n=3, k=2, kind="name"))
    return uniq(out)


class Global:
    """A global pooling layer with the interface of Conf that is needed here."""

    lift = transpose = bias = False
    pool = True

    def __init__(self, c):
        self.c, self.d = c, int(next(ch for ch in c["cls"] if ch in "123"))
        self.first = c["df"] == BOTH[1]
        self.group_axis = self.d + 2 if self.first else self.d + 1

    def in_shape(self):
        return (1, 2) + (2,) * self.d + (4,) if self.first else (1,) + (2,) * self.d + (4, 2)

    def make(self, **over):
        from groco import layers

        return getattr(layers, self.c["cls"])(data_format=self.c["df"], keepdims=bool(self.c["keep"]), **over)

    def build(self, ctx, **over):
        with ctx.building():
            layer = self.make(**over)
            layer.build(self.in_shape())
        return layer

    def reference(self, ctx, x):
        axes = tuple(range(2, 2 + self.d)) if self.first else tuple(range(1, 1 + self.d))
        f = keras.ops.max if "Max" in self.c["cls"] else keras.ops.mean
        return ctx.call(lambda t: f(t, axis=axes + (self.group_axis,), keepdims=bool(self.c["keep"])), x)


def conf_of(case):
    c = {k: v for k, v in case.items() if k not in ("kind", "reg", "policy", "glob", "nonneg")}
    return Global(c) if c["cls"].startswith("Global") else Conf(c)


def scope(layer, ws):
    return keras.StatelessScope(list(zip(layer.variables, ws)), collect_losses=True)


def full_call(layer, ws, x):
    """As a user calls it: with input conversion, autocasting and losses."""
    with scope(layer, [keras.ops.cast(w, v.dtype) for w, v in zip(ws, layer.variables)]):
        y = layer(x)
        return y, list(layer.losses)


class policy:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = keras.mixed_precision.global_policy()
        if self.name:
            keras.mixed_precision.set_global_policy(self.name)

    def __exit__(self, *a):
        keras.mixed_precision.set_global_policy(self.old)


def want_of(conf, ctx, x, w):
    if isinstance(conf, Global):
        return conf.reference(ctx, x)
    return pool_reference(conf, ctx, x) if conf.pool else values.conv(conf, ctx, x, w)


def plain_of(conf, **kw):
    """The plain Keras layer the group layer is made of."""
    name = conf.c["cls"].replace("Group", "")
    cls = getattr(keras.layers, name)
    if name.startswith("Global"):
        return cls(**kw)
    return cls(pool_size=2, **kw) if conf.pool else cls(filters=1, kernel_size=1, **kw)


def sides(case, ctx):
    conf = conf_of(case)
    kind = case["kind"]
    x = ctx.var("x", conf.in_shape())
    if kind == "dtype":
        yield from dtype_sides(case, conf, ctx, x)
        return
    if kind == "name":
        yield from name_sides(case, conf, ctx, x)
        return
    if kind == "initial":
        def init(shape, dtype=None):
            return jnp.arange(int(np.prod(shape)), dtype="float32").reshape(shape) + 1

        layer = conf.build(ctx, kernel_initializer=init, **({"bias_initializer": init} if conf.bias else {}))
        for v in layer.variables:
            if (np.asarray(v.value) != np.asarray(init(v.shape))).any():
                raise Violation("initial value of %s" % v.name)
        w = [np.asarray(v.value, dtype="float64") for v in layer.variables]
        y = ctx.call(lambda t: full_call(layer, [v.value for v in layer.variables], t)[0], x)
        z = values.conv(conf, ctx, x, [a.astype(int).astype(object) if ctx.symbolic else a for a in w])
        yield "output with the initial values", y, z
        return
    if kind == "activation":
        layer = conf.build(ctx)
        w = conf.weights(ctx, layer)
        y = ctx.call(lambda t, *ws: full_call(layer, ws, t)[0], x, *w, what=type(layer).__name__ + ".__call__")
        yield "output with activation %s" % case["act"], y, values.conv(conf, ctx, x, w)
        return
    if kind == "frozen":
        layer = conf.build(ctx, trainable=False)
        if layer.trainable_variables or len(layer.non_trainable_variables) != (2 if conf.bias else 1):
            raise Violation("a frozen layer has trainable variables")
        w = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(layer.variables)]
        y = ctx.call(lambda t, *ws: full_call(layer, ws, t)[0], x, *w)
        yield "output of a frozen layer", y, values.conv(conf, ctx, x, w)
        return
    if kind == "regularizer":
        reg = case["reg"]
        R = dict(l2=keras.regularizers.L2(0.5), l1=keras.regularizers.L1(0.25), l1l2=keras.regularizers.L1L2(0.5, 0.25))
        rk, rb = R.get(reg, R["l2"]), R.get(reg, R["l1"])
        over = {}
        if reg != "bias":
            over["kernel_regularizer"] = rk
        if reg != "kernel" and conf.bias:
            over["bias_regularizer"] = rb
        layer = conf.build(ctx, **over)
        w = conf.weights(ctx, layer)

        def losses(t, *ws):
            with scope(layer, ws):
                before = layer.losses
                layer(t)
                layer(t)
                return [sum(before), sum(layer.losses)]

        before, after = ctx.call(losses, x, *w, what="Layer.losses")

        def plain(*ws):
            total = 0.0
            if "kernel_regularizer" in over:
                total += rk(ws[0])
            if "bias_regularizer" in over:
                total += rb(ws[1])
            return total

        want = ctx.call(plain, *w)
        yield "loss before a call", before, want
        yield "loss after two calls", after, want
        if ORDER[conf.acting] > 1:
            yield "one loss per copy", after, ORDER[conf.acting] * np.asarray(want, dtype=object), False
        return
    if kind == "activity":
        R = keras.regularizers.L2(0.5)
        layer = conf.build(ctx, activity_regularizer=R)
        w = conf.weights(ctx, layer)

        def losses(t, *ws):
            y, l = full_call(layer, ws, t)
            return [y, sum(l)]

        y, loss = ctx.call(losses, x, *w, what="Layer.losses")
        want = values.conv(conf, ctx, x, w)
        yield "output with an activity regulariser", y, want
        total = sum((v * v for v in np.asarray(y).ravel()[1:]), np.asarray(y).ravel()[0] ** 2) if not ctx.symbolic else None
        if ctx.symbolic:
            total = ctx.call(lambda t: R(t), y)
        else:
            total = 0.5 * total
        yield "activity loss", loss, np.asarray(total)
        return
    assert kind == "step"
    over = {}
    nonneg = case.get("nonneg")
    if nonneg:
        over["kernel_constraint"] = keras.constraints.NonNeg()
        if conf.bias:
            over["bias_constraint"] = keras.constraints.NonNeg()
    layer = conf.build(ctx, **over)
    w = conf.weights(ctx, layer)
    with ctx.building():
        opt = keras.optimizers.SGD(learning_rate=0.5)
        opt.build(layer.trainable_variables)
    c = ctx.var("c", values_shape(conf, ctx, layer))
    nt = [v.value for v in layer.non_trainable_variables]
    ov = [v.value for v in opt.variables]

    def grads(t, ct, *ws):
        def loss(p):
            return jnp.sum(layer.stateless_call(list(p), nt, t)[0] * ct)

        return list(jax.grad(loss)(tuple(ws)))

    def step(t, ct, *ws):
        g = grads(t, ct, *ws)
        return list(opt.stateless_apply(ov, g, list(ws))[0])

    new = ctx.call(step, x, c, *w, what="SGD step")
    g = ctx.call(grads, x, c, *w)
    if len(new) != len(w):
        raise Violation("%d trainable variables" % len(new))
    for name, a, b, d in zip(("kernel", "bias"), new, w, g):
        # NonNeg keeps 0.5 * learning rate steps that stay positive and puts 0 elsewhere
        want = ctx.call(lambda p, q: (lambda r: r * keras.ops.cast(r >= 0, "float32"))(p - 0.5 * q) if nonneg else p - 0.5 * q, b, d)
        yield "%s after a step" % name, a, want


def values_shape(conf, ctx, layer):
    x = jax.ShapeDtypeStruct(conf.in_shape(), jnp.float32)
    return jax.eval_shape(lambda t: layer(t), x).shape


def dtype_sides(case, conf, ctx, x):
    p = case["policy"]
    with policy(p if case.get("glob") else None):
        layer = conf.build(ctx, **({} if case.get("glob") else {"dtype": p}))
        plain = plain_of(conf, **({} if case.get("glob") else {"dtype": p}))
        w = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(layer.variables)]
        for v in layer.variables:
            if v.dtype != plain.variable_dtype:
                raise Violation("%s has dtype %s, expected %s" % (v.name, v.dtype, plain.variable_dtype))
        if layer.compute_dtype != plain.compute_dtype or layer.variable_dtype != plain.variable_dtype:
            raise Violation("dtypes %s and %s" % (layer.compute_dtype, layer.variable_dtype))
        for given in ("float32", plain.compute_dtype):
            real = jax.eval_shape(
                lambda t: layer(t), jax.ShapeDtypeStruct(x.shape, jnp.dtype(given))
            ).dtype
            if keras.backend.standardize_dtype(real) != plain.compute_dtype:
                raise Violation("output of dtype %s, expected %s" % (real, plain.compute_dtype))
        f = lambda t, *ws: keras.ops.cast(full_call(layer, ws, t)[0], "float32")  # noqa: E731
        if ctx.symbolic:
            y = ctx.call(f, x, *w, what=type(layer).__name__ + ".__call__")
        else:  # whether it runs at all; the values are rounded
            y = ctx.call(f, x, *w)
    want = want_of(conf, ctx, x, w)
    if ctx.symbolic:
        yield "output with dtype %s" % p, y, want
    else:
        y, want = np.asarray(y, dtype="float64"), np.asarray(want, dtype="float64")
        if y.shape == want.shape and np.allclose(y, want, rtol=0.05, atol=0.05 * (1 + np.abs(want).max())):
            y = want
        yield "output with dtype %s" % p, y, want


def name_sides(case, conf, ctx, x):
    layer = conf.build(ctx, name="my_layer")
    if layer.name != "my_layer":
        raise Violation("layer is called %s" % layer.name)
    again = type(layer).from_config(layer.get_config())
    if again.name != "my_layer":
        raise Violation("layer rebuilt from its configuration is called %s" % again.name)
    frozen = conf.make(trainable=False)
    if frozen.trainable is not False or type(layer).from_config(frozen.get_config()).trainable is not False:
        raise Violation("trainable is ignored")
    w = conf.weights(ctx, layer) if not isinstance(conf, Global) else []
    with ctx.building():
        seq = keras.Sequential([keras.layers.Input(conf.in_shape()[1:]), layer])
    if seq.get_layer("my_layer") is not layer:
        raise Violation("layer not found by name")
    y = ctx.layer(layer, w, x)
    yield "output of a named layer", y, want_of(conf, ctx, x, w)
