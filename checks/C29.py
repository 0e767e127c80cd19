"""A subgroup subsamples, fills in or aggregates the layer of the whole group."""
import numpy as np

from lib import grids
from lib.cfg import Conf, ORDER, SPACE, SUBS, WALL
from lib.grids import BOTH, uniq

EXPLAIN = (
    "Two real layers, one with a subgroup and one without (or of the subgroup itself), get the same "
    "symbolic weights and signal; their jaxprs are executed and z3 decides for all values: a convolution "
    "with a subgroup gives the entries of the subgroup of the whole one; a lifting convolution with a "
    "subgroup is the lifting convolution of that group; a transposed one is that of the whole group on "
    "signal and kernel continued by zero, and restricted to the subgroup it is the subgroup's own layer; "
    "pooling with a subgroup reduces the entries of the whole pooling over the coset representatives."
)
BOUNDS = (
    "all groups x subgroups (3D: quick without Oh group convolutions beyond size 2), both formats, sizes 2..6, kernels 1..3, "
    "strides 1..3, both equivariant paddings"
)


def cases(tier, seed):
    big = tier == "thorough"
    out = []

    def add(kind, **c):
        if c["group"] in SPACE:
            c["cost"] = {"Oh": 40, "O": 12, "D4h": 8, "D4": 4}[c["group"]]
        c["cls"] = c["cls"] % (3 if c["group"] in SPACE else 2)
        out.append(dict(c, kind=kind))

    for g in WALL + SPACE:
        for sub in SUBS[g]:
            if sub == g and g != "D4":
                continue
            d3 = g in SPACE
            geo = [(4, 3, 1), (5, 2, 3), (5, 3, 2)] if not d3 else [(2, 2, 1)] + ([(3, 2, 2)] if g != "Oh" or big else [])
            for df in BOTH if not d3 or g in ("D4", "D4h") or big else BOTH[:1]:
                for i, (n, k, s) in enumerate(geo):
                    pad = ("valid_equiv", "same_equiv")[(i + (df == BOTH[1])) % 2]
                    if d3 and s == 2:
                        pad = "same_equiv"
                    base = dict(group=g, sub=sub, n=n, k=k, s=s, pad=pad, df=df)
                    more = dict(C=2, F=2, act="relu") if i == 0 and not d3 else {}
                    add("rows", cls="GroupConv%dD", lift=1, **base, **more)
                    add("own", cls="GroupConv%dD", lift=1, **base, **more)
                    if not (g == "Oh" and (n > 2 or sub in ("O",)) and not big):
                        add("rows", cls="GroupConv%dD", **base, **more)
                    for kind in ("Max", "Average"):
                        add("cosets", cls="Group" + kind + "Pooling%dD", group=g, sub=sub, n=n, k=k, s=s, pad=pad, df=df)
                for n, k, s, pad in [(3, 2, 1, "valid_equiv"), (2, 3, 3, "valid_equiv"), (3, 3, 1, "same_equiv")] if not d3 else [(2, 2, 1, "valid_equiv")]:
                    base = dict(group=g, sub=sub, n=n, k=k, s=s, pad=pad, df=df)
                    more = dict(C=2, F=2) if k == 2 and not d3 else {}
                    add("own", cls="GroupConv%dDTranspose", **base, **more)
                    if g != "Oh" or big:
                        add("zeros", cls="GroupConv%dDTranspose", **base, **more)
                    add("same", cls="GroupConv%dDTranspose", lift=1, **base, **more)
    return uniq(out)


def sides(case, ctx):
    c = {k: v for k, v in case.items() if k != "kind"}
    kind = case["kind"]
    conf = Conf(c)
    x = ctx.var("x", conf.in_shape())
    layer = conf.build_or_skip(ctx)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    H = [int(i) for i in conf.group.subgroup[conf.sub]]
    whole = {k: v for k, v in c.items() if k != "sub"}
    other = Conf(dict(whole, group=conf.sub) if kind == "own" else whole)
    big = other.build(ctx)
    ax, order = conf.group_axis, ORDER[c["group"]]
    if kind == "rows":
        z = ctx.layer(big, w, x)
        yield "entries of the subgroup", y, np.take(z, H, axis=ax)
        if len(H) < order:
            rest = [i for i in range(order) if i not in H]
            if max(conf.k) > 1:
                # the last entries are those of the subgroup only if it is the whole group
                yield "other entries", np.take(y, [len(H) - 1], axis=ax), np.take(z, rest[-1:], axis=ax), False
    elif kind == "own":
        z = ctx.layer(big, w, x)
        yield "the subgroup's own layer", np.take(y, H, axis=ax) if conf.transpose else y, z
    elif kind == "same":
        yield "lifting does not depend on the subgroup", y, ctx.layer(big, w, x)
    elif kind == "zeros":
        def filled(a, axis):
            parts = [np.take(a, [H.index(i)] if i in H else [0], axis=axis) for i in range(order)]
            return np.concatenate([p if i in H else 0 * p for i, p in enumerate(parts)], axis=axis)

        k = w[0].reshape(w[0].shape[:-1] + (len(H), conf.C))
        k = filled(k, k.ndim - 2)
        k = k.reshape(k.shape[:-2] + (order * conf.C,))
        z = ctx.layer(big, [k, *w[1:]], filled(x, ax))
        yield "signal and kernel continued by zero", y, z
    else:
        z = ctx.layer(big, [], x)
        R = [int(i) for i in conf.group.cosets[conf.sub]]
        from lib import oracle
        import keras

        m = oracle.matrices(conf.group)
        red = keras.ops.max if "Max" in c["cls"] else keras.ops.mean
        rows = []
        for h in H:
            e = [np.take(z, oracle.index_of(m[h] @ m[r], m), axis=ax) for r in R]
            rows.append(ctx.call(lambda *t: red(keras.ops.stack(t), axis=0), *e))
        yield "reduced over the cosets", y, np.stack(rows, axis=ax)
        if len(R) > 1:
            yield "entries of the subgroup only", y, np.take(z, H, axis=ax), False
