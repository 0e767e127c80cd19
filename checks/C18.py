"""The declared output shape is the actual output shape."""
import itertools
import sys

import numpy as np

from lib import grids, harness, oracle, symint
from lib.cfg import ORDER, SPACE, SUBS, WALL, Conf
from lib.grids import BOTH, uniq

EXPLAIN = (
    "Whole convolution layers are built, unmodified, with symbolic integer spatial and batch sizes (a JAX "
    "trace over z3 integers, all branches explored); z3 decides on every path that compute_output_shape "
    "gives the size of a convolution over the smallest equivariantly padded input, the symbolic batch, "
    "the group order and the filters, in the documented axis order. Second set: for a grid of "
    "configurations the declared shape is compared with the shape JAX derives for the real call, whose "
    "output is executed symbolically."
)
BOUNDS = (
    "spatial sizes 1..5000 and batch 1..1000 symbolic; kernels 1..5, strides 1..4, dilation 1..3 case "
    "split; all groups x subgroups on the concrete grid with sizes 1..7 and output padding 0..2. Pooling layers declare no shape of "
    "their own. Keras's shape arithmetic is modelled on symbolic sizes"
)
ENCODES = ["GroupConv2D.compute_output_shape", "GroupConv3D.compute_output_shape", "GroupConv2DTranspose.compute_output_shape",
           "GroupConv3DTranspose.compute_output_shape", "GroupTransforms.correct_output_shape", "merge_shapes"]


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for pad in ("valid_equiv", "same_equiv"):
        for k, s, dil in [(3, 1, 1), (2, 1, 1), (3, 2, 1), (2, 3, 1), (4, 4, 1), (3, 1, 2), (2, 1, 3), (5, 2, 1), (1, 3, 1)]:
            for lift in (0, 1):
                for df in BOTH:
                    out.append({"kind": "int", "cls": "GroupConv2D", "group": "P4M", "sub": "P4", "k": k, "s": s, "dil": dil, "pad": pad, "df": df, "lift": lift, "cost": 10})
                    if (s < 3 and k < 4) or big:
                        out.append({"kind": "int", "cls": "GroupConv3D", "group": "D4h", "sub": "D4", "k": k, "s": s, "dil": dil, "pad": pad, "df": df, "lift": lift, "cost": 20})
    for d, g, sub in [(2, "P4M", "P4"), (3, "D4h", "D4")]:
        for k, s, pad in [(3, 1, "same_equiv"), (2, 1, "valid_equiv"), (2, 2, "valid_equiv"), (3, 3, "valid_equiv")]:
            for lift in (0, 1):
                for df in BOTH:
                    out.append({"kind": "int", "cls": "GroupConv%dDTranspose" % d, "group": g, "sub": sub, "k": k, "s": s, "pad": pad, "df": df, "lift": lift, "cost": 10})
    trace = []
    for lift in (True, False):
        trace += grids.conv2d(lift, tier) + grids.conv3d(lift, tier) + grids.transposed(tier, int(lift))
        L = {"lift": 1} if lift else {}
        for n, k, s, pad in itertools.product((3, 5), (2, 3), (1, 2, 3), ("valid_equiv", "same_equiv", "valid", "same")):
            c = dict(L, cls="GroupConv2DTranspose", group="P4", sub="P2", n=n, k=k, s=s, pad=pad, C=2, F=3)
            if not pad.endswith("equiv"):
                c["allow"] = 1
            trace.append(c)
            trace.append(dict(c, df="channels_first"))
            c = dict(c, cls="GroupConv2D")
            trace.append(c)
            trace.append(dict(c, df="channels_first"))
    skip = ("bias", "act")
    trace = [{a: b for a, b in c.items() if a not in skip} for c in trace]
    trace = uniq(trace)
    if not big:
        trace = [c for i, c in enumerate(trace) if i % 2 == seed % 2 or c.get("sub") or c.get("dil")]
    return uniq(out) + trace + grids.output_padding() + grids.output_padding(1)


def ints(case, e, bound):
    from checks.C15 import modelled
    from groco import layers as L

    cls = case["cls"]
    d = 3 if "3D" in cls else 2
    tr = "Transpose" in cls
    k, s, dil = case["k"], case["s"], case.get("dil", 1)
    ke = (k - 1) * dil + 1
    same = case["pad"] == "same_equiv"
    (N,) = symint.sizes(bound, d, (5000,), (10,))
    n = [e.var("n%d" % i, 1, N) for i in range(d)]
    b = e.var("b", 1, 1000 if bound == "wide" else 3)
    rn = [e.raw(v) for v in n]
    if not same:
        for v in rn:
            e.assume(v >= ke)
    kw = dict(filters=5, kernel_size=k, strides=s, padding=case["pad"], data_format=case["df"], kernel_initializer="zeros")
    if dil > 1:
        kw["dilation_rate"] = dil
    first = case["df"] == "channels_first"
    dom = case["sub"] if tr else case["group"]
    tgt = ORDER[case["group"] if tr else case["sub"]]
    g = () if case["lift"] else (ORDER[dom],)
    shape = lambda bb: (bb, 3, *n) + g if first else (bb, *n) + g + (3,)  # noqa: E731
    with modelled(e):
        layer = getattr(L, cls)(group=case["group"], subgroup=case["sub"], **kw)
        try:
            layer.build(shape(b))
        except ValueError:
            # settled by C14
            yield "refused with stride 1", s > 1
            return
        out = layer.compute_output_shape(shape(b))
        unknown = layer.compute_output_shape(shape(None))
    size = []
    for v in rn:
        t0 = symint.fdiv(v + s - 1, s) * s - s + ke - v
        t0 = e.ite(t0 > 0, t0, 0) if same else 0
        total = None
        for t in reversed(range(2 * s)):
            ok = e.both((t0 + t) % 2 == 0, (v + t0 + t - ke) % s == 0)
            total = t if total is None else e.ite(ok, t, total)
        # total: the smallest extra amount
        m = v + total
        if tr:
            size.append(m * s + (0 if same else max(ke - s, 0)))
        else:
            size.append(symint.fdiv(m + t0 - ke, s) + 1)
    want = [b, 5, *size, tgt] if first else [b, *size, tgt, 5]
    yield "rank of the declared shape", len(out) == len(want) and len(unknown) == len(want)
    if len(out) == len(want):
        for i, (a, w) in enumerate(zip(out, want)):
            yield "declared size of axis %d" % i, a is not None and e.both(e.raw(a) == e.raw(w))
        yield "unknown batch stays unknown", unknown[0] is None
        for i, (a, w) in enumerate(zip(unknown, want)):
            if i:
                yield "declared size of axis %d, unknown batch" % i, a is not None and e.both(e.raw(a) == e.raw(w))


def sides(case, ctx):
    conf = Conf(case)
    x = ctx.var("x", conf.in_shape())
    layer = conf.build_or_skip(ctx)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    for b in (conf.b, 7, None):
        got = layer.compute_output_shape((b,) + tuple(conf.in_shape())[1:])
        want = (b,) + y.shape[1:]
        if tuple(got) != tuple(want) or any(v is not None and not isinstance(v, (int, np.integer)) for v in got):
            raise oracle.Violation("declared output shape %s, actual %s" % (tuple(got), tuple(want)))
    if y.shape[conf.group_axis] != ORDER[conf.acting] or y.shape[1 if conf.first else -1] != conf.F or y.ndim != conf.d + 3:
        raise oracle.Violation("actual output shape %s" % (y.shape,))
    # every declared entry exists and is determined by the input (no entry is left undefined)
    yield "output", y, y


def decide(case):
    if case.get("kind") == "int":
        return symint.decide(ints, case)
    return harness.decide_sides(sys.modules[__name__], case, False)


def replay(case, values):
    if case.get("kind") == "int":
        return symint.replay(ints, case, values)
    return harness.replay_sides(sys.modules[__name__], case, values)
