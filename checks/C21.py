"""The equivariance checker reports the exact maximal deviation."""
import itertools

import keras
import numpy as np

from lib import oracle, sym
from lib.cfg import ORDER, SPACE, SUBS, WALL, groups
from lib.grids import uniq
from lib.oracle import Violation

EXPLAIN = (
    "check_equivariance is traced with the signal and the layer's own parameters as inputs: the layers are arbitrary "
    "pointwise scalings, arbitrary linear maps of a batch entry (a symbolic matrix), arbitrary affine maps followed by "
    "ReLU, and the real group layers. The jaxpr is executed symbolically and z3 decides that the result is the maximum "
    "over the acting group and all entries of |L(g.x) - g.L(x)|, built independently from signed permutation matrices, "
    "for all signals and all parameters. Signals off the stated groups must be rejected."
)
BOUNDS = (
    "all groups, acting / domain / target subgroups (also left out and None); 2D sides 1..3, 3D sides 1..2; batch and "
    "channels <= 2; both axis orders; arbitrary linear maps up to 16 x 16"
)


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for g in WALL:
        trip = list(itertools.product([""] + SUBS[g], [""] + SUBS[g], [""] + SUBS[g]))
        if not big and len(trip) > 30:
            trip = [t for i, t in enumerate(trip) if "" in t and i % 2 == seed % 2 or len(set(t)) == 1]
        for act, dom, tgt in trip:
            o1, o2 = ORDER[dom or g], ORDER[tgt or g]
            n = [2, 3] if (len(act) + len(dom) + o1) % 2 and g not in ("P4", "P4M") else [2, 2]
            for first in (0, 1):
                c = {"group": g, "act": act, "dom": dom, "tgt": tgt, "n": n, "first": first, "b": 2 if o1 * o2 < 9 else 1, "C": 1}
                if o1 == o2:
                    out.append(dict(c, layer="scale"))
                    if o1 < 4:
                        out.append(dict(c, layer="relu", n=[2, 2], b=1, C=2))
                if o1 * 4 <= 16 and o2 * 4 <= 16 and not first:
                    out.append(dict(c, layer="linear", n=[2, 2], b=1))
                elif not first and o1 <= 8 and o2 <= 8:
                    out.append(dict(c, layer="linear", n=[1, 1], b=2))
        for act in [""] + SUBS[g]:
            for first in (0, 1):
                c = {"group": g, "act": act, "dom": None, "tgt": None, "n": [3, 3], "first": first, "b": 2, "C": 2}
                out.append(dict(c, layer="scale"))
                out.append(dict(c, layer="relu", b=1))
                out.append(dict(c, layer="linear", b=1, C=1, n=[2, 2]))
                for tgt in SUBS[g]:
                    if ORDER[tgt] <= 4:
                        out.append(dict(c, layer="linear", b=1, C=1, n=[2, 2], tgt=tgt))
                        out.append(dict(c, layer="linear", b=1, C=1, n=[2, 2], dom=tgt))
    for g in SPACE:
        if g == "Oh" and not big:
            # the whole group acts on one position only
            out.append({"group": g, "act": "D4", "dom": "D4", "tgt": "D4", "n": [1, 1, 1], "first": 0, "b": 1, "C": 1, "layer": "scale", "cost": 20})
            out.append({"group": g, "act": "O", "dom": None, "tgt": None, "n": [2, 2, 2], "first": 0, "b": 1, "C": 1, "layer": "scale", "cost": 20})
            continue
        for act in [""] + SUBS[g]:
            for dom in SUBS[g]:
                for first in (0, 1):
                    n = [1, 1, 1] if ORDER[dom] * ORDER[act or g] > 130 else [2, 2, 2]
                    out.append({"group": g, "act": act, "dom": dom, "tgt": dom, "n": n, "first": first, "b": 1, "C": 1, "layer": "scale", "cost": 10})
            out.append({"group": g, "act": act, "dom": None, "tgt": None, "n": [2, 2, 2], "first": 1, "b": 1, "C": 1, "layer": "scale", "cost": 10})
    for g, sub in [("P4", "P4"), ("P4M", "P4"), ("P2MM", "PMh"), ("P4", "P2")]:
        for cls in ("GroupConv2D", "GroupConv2DTranspose", "GroupMaxPooling2D", "GroupAveragePooling2D"):
            for allow in (0, 1):
                c = {"layer": cls, "group": g, "sub": sub, "n": [3, 3], "allow": allow, "act": sub, "b": 1, "C": 1, "first": 0, "cost": 5}
                c["dom"], c["tgt"] = (sub, g) if "Transpose" in cls else (g, sub)
                out.append(c)
                if "GroupConv2D" == cls:
                    out.append(dict(c, dom=None))
    for g in WALL:
        for bad in ("domain", "target"):
            for first in (0, 1):
                for size in (ORDER[g] + 1, 2 * ORDER[g], ORDER[g] - 1):
                    if size:
                        out.append({"group": g, "reject": bad, "size": size, "first": first, "n": [2, 2], "act": "", "dom": "", "tgt": "", "b": 1, "C": 2, "layer": "scale"})
        for sub in SUBS[g]:
            if sub != g:
                out.append({"group": g, "reject": "sub", "size": ORDER[g], "first": 0, "n": [2, 2], "act": "", "dom": sub, "tgt": sub, "b": 1, "C": 2, "layer": "scale"})
                out.append({"group": g, "reject": "sub", "size": ORDER[g], "first": 0, "n": [2, 2], "act": sub, "dom": "", "tgt": sub, "b": 1, "C": 2, "layer": "scale"})
    return uniq(out)


def maximum(ctx, vals):
    if ctx.symbolic:
        return sym.smax([sym.smax([v, -v]) for v in vals])
    return max(abs(v) for v in vals)


def sides(case, ctx):
    from groco import layers
    from groco.utils import check_equivariance

    g = groups()[case["group"]]
    allm = oracle.matrices(g)
    mats = lambda nm: [allm[int(i)] for i in g.subgroup[nm or g.name]]  # noqa: E731
    dom, tgt, act, n, first = case["dom"], case["tgt"], case["act"], case["n"], case["first"]
    d = len(n)
    axes = tuple(range(2, 2 + d)) if first else tuple(range(1, 1 + d))
    ga = d + 2 if first else d + 1

    def shape(name, size=None):
        mid = list(n) + ([size or len(mats(name))] if name is not None else [])
        return tuple([case["b"], case["C"]] + mid if first else [case["b"]] + mid + [case["C"]])

    kw = dict(spatial_axes=axes, acting_group=act, domain_group=dom, target_group=tgt)
    if not (dom is None and tgt is None):
        kw["group_axis"] = ga
    if case["layer"].startswith("Group"):
        lk = dict(group=g, subgroup=case["sub"], padding="same" if case["allow"] else "valid_equiv", allow_non_equivariance=bool(case["allow"]))
        if "Conv" in case["layer"]:
            lk.update(filters=1, kernel_size=2, kernel_initializer="zeros", activation="relu" if dom is None else None)
        else:
            lk.update(pool_size=2, strides=1)
        with ctx.building():
            layer = getattr(layers, case["layer"])(**lk)
            layer.build(shape(dom))
        params = [ctx.var("w%d" % i, v.shape) for i, v in enumerate(layer.trainable_variables)]

        def apply(t, *w):
            return layer.stateless_call(list(w), [v.value for v in layer.non_trainable_variables], t)[0]

        gkw = {}
    else:
        gkw = {"group": g}
        so = shape(tgt)[1:]
        if case["layer"] == "scale":
            params = [ctx.var("p", so)]
            apply = lambda t, p: t * p  # noqa: E731
        elif case["layer"] == "relu":
            params = [ctx.var("p", so), ctx.var("q", so)]
            apply = lambda t, p, q: keras.ops.relu(t * p + q)  # noqa: E731
        else:
            m = int(np.prod(shape(dom)[1:]))
            params = [ctx.var("p", (m, int(np.prod(so))))]
            apply = lambda t, p: keras.ops.reshape(keras.ops.matmul(keras.ops.reshape(t, (-1, m)), p), (-1,) + so)  # noqa: E731
    if "reject" in case:
        yield from rejected(case, ctx, shape, apply, kw, gkw)
        return
    x = ctx.var("x", shape(dom))

    def check(t, *w):
        layer_ = lambda s: apply(s, *w)  # noqa: E731
        if not gkw:  # the group is read off from the layer
            layer_ = Shell(layer_, layer.group_transforms)
        return check_equivariance(layer_, t, **gkw, **kw)

    got = ctx.call(check, x, *params, what="check_equivariance")
    if np.shape(got) != ():
        raise Violation("not a number, but of shape %s" % (np.shape(got),))
    move = lambda t, m, nm: oracle.transform_kernel(t, m, None if nm is None else mats(nm), axes, None if nm is None else ga)  # noqa: E731
    y = ctx.call(apply, x, *params)
    dev, plain = [], []
    for m in mats(act):
        left = ctx.call(apply, move(x, m, dom), *params)
        right = move(y, m, tgt)
        if left.shape != right.shape:
            raise Violation("shape %s of L(g.x), %s of g.L(x)" % (left.shape, right.shape))
        dev += [a - b for a, b in zip(left.ravel(), right.ravel())]
        plain += [a - b for a, b in zip(left.ravel(), y.ravel())]
    want = np.empty((), dtype=object)
    want[()] = maximum(ctx, dev)
    yield "maximal deviation", np.asarray(got), want
    if case["layer"] == "scale" and ORDER[act or g.name] > 1 and max(n) > 1:
        other = np.empty((), dtype=object)
        other[()] = maximum(ctx, plain)
        yield "deviation without transforming the output", np.asarray(got), other, False


class Shell:
    def __init__(self, fn, transforms):
        self.fn, self.group_transforms = fn, transforms

    def __call__(self, x):
        return self.fn(x)


def rejected(case, ctx, shape, apply, kw, gkw):
    from groco.utils import check_equivariance

    if case["reject"] == "target":
        xs = shape("")
        ga = kw["group_axis"]

        def apply_(t):  # a layer that loses, or makes up, group entries
            return keras.ops.take(t, [i % t.shape[ga] for i in range(case["size"])], axis=ga)
    else:
        xs = shape("", case["size"])
        apply_ = lambda t: t * 2.0  # noqa: E731
    x = ctx.var("x", xs)
    try:
        ctx.call(lambda t: check_equivariance(apply_, t, **gkw, **kw), x, what="check_equivariance")
    except (AssertionError, ValueError):
        yield "rejected", x, x
        return
    except Exception as e:
        raise Violation("a signal off the stated group is not rejected but fails: %s" % e)
    raise Violation("a signal off the stated group is accepted")
