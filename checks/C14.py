"""Equivariant padding is minimal, symmetric and aligns the grid."""
import itertools
import sys

import numpy as np

from lib import harness, oracle, symint
from lib.grids import BOTH, uniq

EXPLAIN = (
    "EquivariantPadding.build, compute_output_shape and call run unmodified on symbolic integer input "
    "and kernel sizes (a JAX trace over z3 integers, all branches explored); on every path z3 decides "
    "that the padding is symmetric, even, aligned and the smallest, that ValueError is raised exactly "
    "if there is none, and that nothing is added where nothing is needed. A second set of cases pads "
    "symbolic tensors and decides that the output is the input with that many zeros on each side."
)
BOUNDS = (
    "input size n 1..5000 and kernel size k 1..100 symbolic (narrow bound if the code forces too many "
    "paths: n <= 12, k <= 4), n >= k for valid_equiv; strides 1..8 (thorough 12) and dilation 1..3 case split; "
    "1 to 3 axes. Transposed layers count as built-in padding what fills up a stride beyond the kernel; one and two axes, strides 1..6"
)
ENCODES = ["EquivariantPadding.__init__", "EquivariantPadding.build", "EquivariantPadding.compute_output_shape", "EquivariantPadding.call"]
FAST = True


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for pad in ("valid_equiv", "same_equiv"):
        for s in range(1, 13 if big else 9):
            out.append({"kind": "int", "s": [s], "pad": pad, "df": "channels_last", "cost": 3 * s})
        for dil in (2, 3):
            out.append({"kind": "int", "s": [1], "dil": [dil], "pad": pad, "df": "channels_last", "cost": 5})
        for s in [[1, 1], [2, 2], [2, 1], [1, 3], [3, 2], [2, 4]] if big else [[1, 1], [2, 2], [1, 2], [3, 2]]:
            for df in BOTH:
                out.append({"kind": "int", "s": s, "pad": pad, "df": df, "cost": 40})
        out.append({"kind": "int", "s": [1, 2, 1], "pad": pad, "df": "channels_first", "cost": 60})
        out.append({"kind": "int", "s": [2, 1, 2], "pad": pad, "df": "channels_last", "cost": 60})
        out.append({"kind": "int", "s": [1, 1], "dil": [2, 3], "pad": pad, "df": "channels_last", "cost": 20})
        for s in (2, 3, 4):
            out.append({"kind": "int", "s": [s], "pad": pad, "df": "channels_first", "cost": 3 * s})
    for s in (1, 2, 3, 4, 5, 6):
        for pad in ("valid_equiv", "same_equiv"):
            out.append({"kind": "int", "s": [s], "pad": pad, "df": "channels_last", "transpose": 1, "cost": 5})
    out.append({"kind": "int", "s": [3], "dil": [2], "pad": "valid_equiv", "df": "channels_last", "transpose": 1, "cost": 5})
    out.append({"kind": "int", "s": [2, 3], "pad": "valid_equiv", "df": "channels_first", "transpose": 1, "cost": 30})
    # the permission not to be equivariant does not switch off the padding asked for
    for s in ([1], [3], [4], [2, 3]):
        for pad in ("valid_equiv", "same_equiv"):
            out.append({"kind": "int", "s": s, "pad": pad, "df": BOTH[len(s) - 1], "allow": 1, "cost": 10 * len(s) ** 2})
    # symbolic contents
    for pad in ("valid_equiv", "same_equiv"):
        for n, k, s in itertools.product(range(1, 9), range(1, 6), range(1, 5)):
            if (pad == "same_equiv" or n >= k) and (big or (n + k + s) % 2):
                out.append({"kind": "tensor", "n": [n], "k": [k], "s": [s], "pad": pad, "df": BOTH[(n + k) % 2]})
        for n, k, s in [([4, 7], [3, 2], [2, 3]), ([5, 5], [2, 2], [2, 2]), ([3, 6], [3, 1], [1, 2]), ([6, 3], [2, 3], [3, 1]),
                        ([3, 4, 5], [2, 3, 1], [3, 1, 2]), ([5, 2, 4], [2, 1, 3], [2, 1, 2]), ([4, 4, 4], [3, 3, 3], [1, 1, 1])]:
            for df in BOTH:
                out.append({"kind": "tensor", "n": n, "k": k, "s": s, "pad": pad, "df": df})
                out.append({"kind": "tensor", "n": n, "k": k, "s": [1] * len(n), "dil": [2] + [1] * (len(n) - 1), "pad": pad, "df": df})
    return uniq(out)


def ints(case, e, bound):
    """Goals of one path, on symbolic or concrete sizes."""
    from groco.layers.padding import EquivariantPadding

    S, d = case["s"], len(case["s"])
    dil = case.get("dil", [1] * d)
    same, tr = case["pad"] == "same_equiv", bool(case.get("transpose"))
    N, K = symint.sizes(bound, d, (5000, 100), (12, 4))
    n = [e.var("n%d" % i, 1, N) for i in range(d)]
    k = [e.var("k%d" % i, 1, K) for i in range(d)]
    rn, rk = [e.raw(v) for v in n], [e.raw(v) for v in k]
    ke = [(a - 1) * b + 1 for a, b in zip(rk, dil)]
    if not same:
        for a, b in zip(rn, ke):
            e.assume(a >= b)
    layer = EquivariantPadding(
        kernel_size=tuple(k), dimensions=d, strides=tuple(S), dilation_rate=tuple(dil), padding=case["pad"],
        data_format=case["df"], transpose=tr, allow_non_equivariance=bool(case.get("allow")),
    )
    first = case["df"] == "channels_first"
    shape = (2, 3, *n) if first else (2, *n, 3)
    axes = range(2, 2 + d) if first else range(1, 1 + d)

    def built(m, i):  # zeros Keras adds itself to an input of size m
        if not same:
            # a transposed layer fills up windows that are smaller than the stride
            return e.ite(ke[i] < S[i], S[i] - ke[i], 0) if tr else 0
        t = symint.fdiv(m + S[i] - 1, S[i]) * S[i] - S[i] + ke[i] - m
        return e.ite(t > 0, t, 0)

    def fine(i, total):
        return e.both(total % 2 == 0, (rn[i] + total - ke[i]) % S[i] == 0)

    # 2s consecutive amounts suffice: both conditions are periodic
    possible = [e.either(*[fine(i, built(rn[i], i) + t) for t in range(2 * S[i])]) for i in range(d)]
    try:
        layer.build(shape)
    except ValueError:
        yield "ValueError although equivariant padding exists", e.no(e.both(*possible))
        return
    yield "built although no equivariant padding exists", e.both(*possible)
    out = layer.compute_output_shape(shape)
    extra = [e.raw(out[a]) - rn[j] for j, a in enumerate(axes)]
    others = [i for i in range(d + 2) if i not in axes]
    yield "batch and channel axes padded", e.both(len(out) == d + 2, *[e.raw(out[i]) == shape[i] for i in others])
    for i in range(d):
        b0 = built(rn[i], i)
        total = extra[i] + built(rn[i] + extra[i], i)
        yield "negative padding on axis %d" % i, extra[i] >= 0
        yield "padding not even or not aligned on axis %d" % i, fine(i, total)
        yield "padding not minimal on axis %d" % i, e.both(*[e.either(b0 + t >= total, e.no(fine(i, b0 + t))) for t in range(2 * S[i] + 1)])
        yield "padding added on axis %d where the built-in one suffices" % i, e.either(e.no(fine(i, b0)), extra[i] == 0)
    # how the zeros are divided over both sides, on a small stand-in tensor
    one = np.ones((2, 3) + (1,) * d if first else (2,) + (1,) * d + (3,), dtype="float32")
    got = np.asarray(layer(one))
    for i, a in enumerate(axes):
        sums = got.sum(axis=tuple(j for j in range(got.ndim) if j != a))
        at = np.nonzero(sums)[0]
        before, after = int(at[0]), got.shape[a] - 1 - int(at[0])
        t = built(rn[i] + extra[i], i)
        lo = symint.fdiv(t, 2)
        yield "call pads axis %d as declared" % i, e.both(len(at) == 1, extra[i] == before + after)
        if tr:  # where the built-in part goes is the transposed layer's own matter
            yield "sides of axis %d differ" % i, e.either(t != 0, before == after)
        else:
            yield "sides of axis %d differ" % i, before + lo == after + t - lo


def sides(case, ctx):
    from groco.layers.padding import EquivariantPadding

    n, k, s, d = case["n"], case["k"], case["s"], len(case["n"])
    dil = case.get("dil", [1] * d)
    first = case["df"] == "channels_first"
    shape = (2, 2, *n) if first else (2, *n, 2)
    axes = tuple(range(2, 2 + d)) if first else tuple(range(1, 1 + d))
    x = ctx.var("x", shape)
    ke = [(a - 1) * b + 1 for a, b in zip(k, dil)]
    want = [oracle.equiv_padding(*t, case["pad"]) for t in zip(n, ke, s)]
    with ctx.building():
        layer = EquivariantPadding(kernel_size=tuple(k), dimensions=d, strides=tuple(s), dilation_rate=tuple(dil),
                                   padding=case["pad"], data_format=case["df"])
        try:
            layer.build(shape)
        except ValueError:
            if None in want:
                raise harness.Skip("no equivariant padding exists")
            raise
    if None in want:
        raise oracle.Violation("built although no equivariant padding exists")
    y = ctx.layer(layer, [], x)
    yield "padded signal", y, oracle.zero_pad(x, [(e - e // 2, e // 2) for _, e in want], axes)
    if max(n) > 1:
        yield "flipped signal", y, np.flip(y, axes), False


def decide(case):
    if case["kind"] == "int":
        return symint.decide(ints, case)
    return harness.decide_sides(sys.modules[__name__], case, False)


def replay(case, values):
    if case["kind"] == "int":
        return symint.replay(ints, case, values)
    return harness.replay_sides(sys.modules[__name__], case, values)
