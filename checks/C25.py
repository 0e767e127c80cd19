"""Gradients flow to the shared kernel and bias through every copy."""
import jax
import jax.numpy as jnp
import numpy as np

from lib import jaxsym, grids, sym
from lib.cfg import ORDER, SUBS, WALL, Conf

EXPLAIN = (
    "The jaxpr of jax.grad of a linear functional (symbolic coefficients) of the real layer's output with respect to "
    "kernel, bias and input is executed symbolically. The reference is the formal derivative of the symbolic output "
    "polynomial; z3 decides that they are equal entry by entry, for all inputs, weights and coefficients."
)
jaxsym.EXACT_CASTS = True  # derivatives of exact functions
BOUNDS = (
    "linear activation; 2D all groups x subgroups, sizes 1..5, kernels 1..3, strides 1..3; 3D sizes 1..3, groups D4, "
    "D4h, O; transposed layers in their scope; average pooling 1D, 2D, 3D; channels, filters, batch <= 2"
)


def cases(tier, seed):
    raw = []
    for lift in (True, False):
        raw += grids.conv2d(lift, "quick") + [c for c in grids.conv3d(lift, "quick") if c["group"] != "Oh"]
    raw += grids.transposed("quick") + [c for c in grids.pooling("quick") if "Average" in c["cls"]]
    raw = [c for c in raw if "act" not in c and c["group"] != "Oh"]
    if tier != "thorough":
        raw = [c for i, c in enumerate(raw) if i % 5 == seed % 5 or (c.get("sub") and i % 2 == 0 and "3D" not in c["cls"])]
    out = list(raw)
    for df in grids.BOTH:
        for lift in (0, 1):
            L = {"lift": 1, "df": df} if lift else {"df": df}
            for cls in ("GroupConv2D", "GroupConv2DTranspose"):
                for g, sub in [("P4M", "P4"), ("P4", "P2"), ("P2MM", "PMh"), ("P4", "P4"), ("P4M", "P4M")]:
                    out.append(dict(L, cls=cls, group=g, sub=sub, n=3, k=2, C=2, F=2, b=2))
            out.append(dict(L, cls="GroupConv2D", group="P4", n=5, k=2, dil=2, pad="same_equiv"))
            out.append(dict(L, cls="GroupConv2D", group="P4", n=4, k=2, s=2, pad="same", allow=1, F=2))
            out.append(dict(L, cls="GroupConv2D", group="P4", n=3, k=2, bias=False, F=2))
        for g in WALL:
            for sub in SUBS[g]:
                out.append(dict(cls="GroupAveragePooling1D", group=g, sub=sub, n=4, k=2, df=df, C=2))
    return grids.uniq(out)


def derivative(poly, ids):
    """Formal derivatives of a polynomial, multilinear in the variables ids."""
    out = {i: {} for i in ids}
    for mono, c in poly.d.items():
        for i in set(mono):
            if i not in out:
                continue
            e = mono.count(i)
            rest = list(mono)
            rest.remove(i)
            rest = tuple(rest)
            out[i][rest] = out[i].get(rest, 0) + c * e
    return {i: sym.Poly(d) for i, d in out.items()}


def sides(case, ctx):
    conf = Conf(case)
    x = ctx.var("x", conf.in_shape())
    layer = conf.build_or_skip(ctx)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    c = ctx.var("c", y.shape)
    nt = [v.value for v in layer.non_trainable_variables]

    def grads(x_, c_, *w_):
        def loss(t, ws):
            return jnp.sum(layer.stateless_call(list(ws), nt, t)[0] * c_)

        gx, gw = jax.grad(loss, argnums=(0, 1))(x_, tuple(w_))
        return [gx, *gw]

    got = ctx.call(grads, x, c, *w, what="gradient of " + type(layer).__name__)
    names = ["input", "kernel", "bias"]
    args = [x] + w
    if ctx.symbolic:
        total = sum((a * b for a, b in zip(y.ravel()[1:], c.ravel()[1:])), y.ravel()[0] * c.ravel()[0])
        ids = {next(iter(p.d))[0] for a in args for p in a.ravel()}
        if total.ids() & set(sym.ATOMS):
            raise sym.Unsupported("output is not a polynomial")
        der = derivative(total, ids)
        for name, a, g in zip(names, args, got):
            want = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                want[i] = der[next(iter(a[i].d))[0]]
            yield "gradient with respect to the " + name, np.asarray(g, dtype=object), want
            if name == "kernel" and ORDER[conf.acting] > 1:
                yield "half the gradient", np.asarray(g, dtype=object), want * 2, False
        return
    # real code: the layer is affine in each argument on its own, so differences are derivatives
    def value(t, *ws):
        return np.sum(np.asarray(ctx.layer(layer, list(ws), t)) * c)

    base = value(*args)
    for j, (name, a, g) in enumerate(zip(names, args, got)):
        want = np.zeros(a.shape)
        for i in np.ndindex(*a.shape):
            up = [np.array(v) for v in args]
            up[j][i] += 1
            want[i] = value(*up) - base
        yield "gradient with respect to the " + name, g, want
