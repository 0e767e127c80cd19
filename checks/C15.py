"""Padding that spoils equivariance is refused unless asked for."""
import contextlib
import itertools
import sys

import numpy as np

from lib import grids, harness, oracle, symint, values
from lib.cfg import Conf
from lib.grids import BOTH, uniq

EXPLAIN = (
    "EquivariantPadding and the convolution and pooling layers are built, unmodified, with symbolic "
    "integer sizes (all branches explored); on every path z3 decides that ValueError is raised exactly "
    "if the built-in padding is odd or leaves the windows unaligned, and never with "
    "allow_non_equivariance=True, and that no padding is added. Layers that build are also executed on "
    "symbolic tensors and compared with plain Keras padding."
)
BOUNDS = (
    "input size 1..5000 symbolic (kernel size 1..100 symbolic for the padding layer, 1..5 case split for "
    "whole layers), strides 1..8, dilation 1..3, 1 to 3 axes; tensors up to 7 pixels per side; "
    "names: a fixed list of unknown names. Keras's own shape arithmetic is modelled while a layer is "
    "built on symbolic sizes"
)
ENCODES = ["EquivariantPadding.build", "GroupConv2D.build", "GroupConv3D.build", "GroupPooling.build"]


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for pad in ("valid", "same", "VALID", "Same"):
        for s in range(1, 13 if big else 9):
            for allow in (0, 1):
                if pad.islower() or s < 3:
                    out.append({"kind": "int", "s": [s], "pad": pad, "df": "channels_last", "allow": allow})
        for s in [[1, 2], [2, 2], [3, 1], [1, 1, 2], [2, 1, 3]]:
            for df in BOTH:
                out.append({"kind": "int", "s": s, "pad": pad, "df": df, "allow": 0, "cost": 10})
        out.append({"kind": "int", "s": [1], "dil": [3], "pad": pad, "df": "channels_last", "allow": 0})
        for cls in ["GroupConv2D", "GroupMaxPooling2D", "GroupAveragePooling2D", "GroupMaxPooling1D", "GroupConv3D", "GroupMaxPooling3D", "GroupAveragePooling3D"]:
            if not pad.islower():
                continue
            d = int(next(c for c in cls if c.isdigit()))
            for allow in (0, 1):
                for k, s in [(2, 1), (3, 2), (2, None), (3, 1), (4, 3)] + ([(5, 2), (3, 3), (1, 2), (5, 4)] if big else []):
                    for df in BOTH:
                        c = {"kind": "layer", "cls": cls, "k": k, "s": s, "pad": pad, "df": df, "allow": allow, "d": d, "cost": 8}
                        if "Conv" in cls:
                            c["lift"] = int(k % 2)
                        out.append(c)
    for pad in ("valid", "same"):
        for allow in (0, 1):
            for n, k, s in itertools.product((3, 4, 5, 6, 7), (1, 2, 3), (1, 2, 3)):
                if n >= k and (n + k + s + allow) % (1 if big else 2) == 0:
                    c = {"kind": "tensor", "n": n, "k": k, "s": s, "pad": pad, "df": BOTH[(n + s) % 2], "allow": allow}
                    out.append(dict(c, cls="GroupConv2D", group="P4", lift=n % 2))
                    out.append(dict(c, cls="GroupMaxPooling2D", group="P4M"))
                    out.append(dict(c, cls="GroupAveragePooling2D", group="P2MM", sub="PMh"))
    for cls in ["EquivariantPadding", "GroupConv2D", "GroupConv3D", "GroupMaxPooling2D", "GroupConv2DTranspose", "GroupAveragePooling3D"]:
        out.append({"kind": "names", "cls": cls})
    return uniq(out)


def spec(e, n, ke, S, same):
    """Built-in padding keeps equivariance on this axis."""
    t = 0
    if same:
        t = symint.fdiv(n + S - 1, S) * S - S + ke - n
        t = e.ite(t > 0, t, 0)
    return e.both(t % 2 == 0, (n + t - ke) % S == 0)


def ints(case, e, bound):
    from groco.layers.padding import EquivariantPadding

    S, d = case["s"], len(case["s"])
    dil = case.get("dil", [1] * d)
    same = case["pad"].lower() == "same"
    N, K = symint.sizes(bound, d, (5000, 100), (12, 4))
    n = [e.var("n%d" % i, 1, N) for i in range(d)]
    k = [e.var("k%d" % i, 1, K) for i in range(d)]
    rn = [e.raw(v) for v in n]
    ke = [(e.raw(a) - 1) * b + 1 for a, b in zip(k, dil)]
    for a, b in zip(rn, ke):
        if not same:
            e.assume(a >= b)
    layer = EquivariantPadding(
        kernel_size=tuple(k), dimensions=d, strides=tuple(S), dilation_rate=tuple(dil), padding=case["pad"],
        data_format=case["df"], allow_non_equivariance=bool(case["allow"]),
    )
    first = case["df"] == "channels_first"
    shape = (2, 3, *n) if first else (2, *n, 3)
    good = e.both(*[spec(e, rn[i], ke[i], S[i], same) for i in range(d)])
    try:
        layer.build(shape)
    except ValueError:
        yield "refused although allowed", not case["allow"]
        yield "refused although equivariant", e.no(good)
        return
    if not case["allow"]:
        yield "built although equivariance is spoiled", good
    out = layer.compute_output_shape(shape)
    yield "padding added", e.both(*[e.raw(a) == e.raw(b) for a, b in zip(out, shape)])
    one = np.arange(2 * 3 * 2**d, dtype="float32").reshape((2, 3) + (2,) * d if first else (2,) + (2,) * d + (3,))
    got = np.asarray(layer(one))
    yield "call changes the input", got.shape == one.shape and bool((got == one).all())


def keras_shape_model(engine):
    """keras compute_conv_output_shape on symbolic sizes (same arithmetic, no numpy)."""

    def model(input_shape, filters, kernel_size, strides=1, padding="valid", data_format="channels_last", dilation_rate=1):
        first = data_format == "channels_first"
        sp = input_shape[2:] if first else input_shape[1:-1]
        d = len(sp)
        tup = lambda v: (v,) * d if isinstance(v, int) else tuple(v)  # noqa: E731
        out = []
        for n, k, s, dil in zip(sp, kernel_size, tup(strides), tup(dilation_rate)):
            if n is None:
                out.append(None)
            elif padding == "valid":
                m = (n - dil * (k - 1) - 1) // s + 1
                if m < 0:
                    raise ValueError("Computed output size would be negative.")
                out.append(m)
            else:
                out.append((n - 1) // s + 1)
        return (input_shape[0], filters, *out) if first else (input_shape[0], *out, filters)

    return model


@contextlib.contextmanager
def modelled(e):
    from keras.src.layers.convolutional import base_conv

    if not e.symbolic:
        yield
        return
    old = base_conv.compute_conv_output_shape
    base_conv.compute_conv_output_shape = keras_shape_model(e)
    try:
        yield
    finally:
        base_conv.compute_conv_output_shape = old


def layers(case, e, bound):
    from groco import layers as L

    d, k, s = case["d"], case["k"], case["s"]
    pool = "Pooling" in case["cls"]
    same = case["pad"] == "same"
    group, order = ("D4", 8) if d == 3 else ("P4", 4)
    (N,) = symint.sizes(bound, d, (5000,), (12,))
    n = [e.var("n%d" % i, 1, N) for i in range(d)]
    rn = [e.raw(v) for v in n]
    S = s or (k if pool else 1)
    if not same:
        for a in rn:
            e.assume(a >= k)
    kw = dict(group=group, padding=case["pad"], data_format=case["df"])
    if case["allow"]:
        kw["allow_non_equivariance"] = True
    if s:
        kw["strides"] = s
    if pool:
        kw["pool_size"] = k
    else:
        kw.update(filters=1, kernel_size=k, kernel_initializer="zeros")
    lift = case.get("lift")
    g = () if lift else (order,)
    shape = (2, 3, *n) + g if case["df"] == "channels_first" else (2, *n) + g + (3,)
    good = e.both(*[spec(e, v, k, S, same) for v in rn])
    with modelled(e):
        layer = getattr(L, case["cls"])(**kw)
        try:
            layer.build(shape)
        except ValueError:
            yield "refused although allowed", not case["allow"]
            yield "refused although equivariant", e.no(good)
            return
    yield "layer built although equivariance is spoiled", e.either(bool(case["allow"]), good)


def names(case):
    from groco import layers as L

    cls = getattr(L, case["cls"])
    kw = dict(kernel_size=3, dimensions=2)
    if case["cls"].startswith("GroupConv"):
        kw = dict(group="D4" if "3D" in case["cls"] else "P4", filters=1, kernel_size=3)
    elif "Pooling" in case["cls"]:
        kw = dict(group="D4" if "3D" in case["cls"] else "P4", pool_size=2)
    for name in ["causal", "", "valid_equi", "equiv", "same-equiv", "full", "validequiv", "same_equiv ", None, 0, 3]:
        try:
            cls(padding=name, **kw)
        except Exception:
            continue
        return "%s accepts padding=%r" % (case["cls"], name)
    return None


def sides(case, ctx):
    conf = Conf(case)
    x = ctx.var("x", conf.in_shape())
    ok = all(
        (t % 2 == 0 and (n + t - k) % s == 0)
        for n, k, s in zip(conf.n, conf.ke, conf.s)
        for t in [oracle.same_padding(n, k, s) if conf.pad == "same" else 0]
    )
    try:
        layer = conf.build(ctx)
    except ValueError:
        if case["allow"] or ok:
            raise
        raise harness.Skip("refused")
    if not ok and not case["allow"]:
        raise oracle.Violation("built although equivariance is spoiled")
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    if conf.pool:
        from checks import C12

        want = C12.reference(conf, ctx, x)
    else:
        want = values.conv(conf, ctx, x, w)
    yield "plain padding", y, want
    if not ok and max(y.shape[a] for a in conf.axes) > 1:
        yield "flipped output", y, np.flip(y, conf.axes), False


KIND = {"int": ints, "layer": layers}


def decide(case):
    if case["kind"] in KIND:
        return symint.decide(KIND[case["kind"]], case)
    if case["kind"] == "names":
        msg = names(case)
        info = {"claims": 1, "twins": 0, "degenerate": 0, "elements": 0}
        return ([{"msg": msg, "values": {}}] if msg else []), info
    return harness.decide_sides(sys.modules[__name__], case, False)


def replay(case, values):
    if case["kind"] in KIND:
        return symint.replay(KIND[case["kind"]], case, values)
    if case["kind"] == "names":
        return names(case)
    return harness.replay_sides(sys.modules[__name__], case, values)
