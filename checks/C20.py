"""Axis utilities merge, split and move axes exactly."""
import itertools
import sys

import keras
import numpy as np

from lib import harness, oracle, symint
from lib.grids import uniq
from lib.oracle import Violation

EXPLAIN = (
    "Shape utilities run unmodified on lists of symbolic integer sizes (all branches explored), z3 decides that "
    "sizes multiply, divide and move as documented for all sizes, with an unknown batch kept. Tensor utilities: their "
    "jaxprs are executed on tensors of symbolic entries, z3 decides that every output entry is the documented input "
    "entry, and that the shape versions give the shapes of the tensor versions."
)
BOUNDS = (
    "ranks 2..6, every ordered pair of axes, counted from the front, the end, or one each way; shape versions: sizes "
    "0..100000 symbolic; tensor versions: distinct and equal sizes 0..6, all split factors"
)
ENCODES = ["merge_shapes", "split_shapes", "merge_axes", "split_axes", "move_axis_to_left_of", "get_index_tensor", "format_batch_dim"]


def cases(tier, seed):
    out = []
    for r in range(2, 7):
        for a, b in itertools.permutations(range(r), 2):
            for neg in ((0, 0), (1, 1), (0, 1), (1, 0)):
                c = {"a": a - r * neg[0], "b": b - r * neg[1], "rank": r}
                out.append(dict(c, kind="merge_int"))
                if r < 6 or tier == "thorough":
                    for sizes in ([2, 3, 4, 2, 3, 2][:r], [3, 1, 2, 4, 1, 2][:r], [0, 3, 2, 2, 0, 2][:r], [2, 0, 3, 0, 2, 2][:r]) + (([1] * r, [2] * r, [5, 2, 1, 3, 2, 2][:r]) if tier == "thorough" or r < 4 else ()):
                        out.append(dict(c, kind="merge", sizes=sizes))
        for a in range(-r, r):
            out.append({"kind": "split_int", "a": a, "rank": r})
            for sizes in ([4, 6, 2, 6, 4, 2][:r], [6, 1, 4, 2, 6, 1][:r], [0, 4, 2, 3, 2, 0][:r], [4, 0, 2, 0, 2, 3][:r]):
                for f in range(1, max(sizes[a], 4) + 1):
                    if sizes[a] % f == 0:
                        out.append({"kind": "split", "a": a, "f": f, "sizes": sizes, "rank": r})
    for r in range(1, 7):
        for a in range(r):
            for neg in ((0, 0), (1, 1), (0, 1), (1, 0)):
                out.append({"kind": "stay", "a": a - r * neg[0], "b": a - r * neg[1], "sizes": [2, 3, 4, 2, 3, 2][:r], "rank": r})
        for sizes in ([2, 3, 4, 2, 3, 2][:r], [1] * r, [4, 1, 2, 1, 3, 1][:r]):
            out.append({"kind": "index", "sizes": sizes, "rank": r})
    return uniq(out)


# ------------------------------------------------------------------ shapes
def int_goals(case, e, bound):
    from groco import utils

    r = case["rank"]
    top = 100000 if bound == "wide" else 4
    names = [e.var("n%d" % i, 0, top) for i in range(r)]
    raw = [e.raw(v) for v in names]
    a = case["a"] % r
    if case["kind"] == "merge_int":
        b = case["b"] % r
        want = [m if i != b else m * raw[a] for i, m in enumerate(raw)]
        del want[a]
        call = lambda s: utils.merge_shapes(s, merged_axis=case["a"], target_axis=case["b"])  # noqa: E731
        batch = a != 0 and b != 0
    else:
        f = e.var("f", 1, top)
        rf = e.raw(f)
        # the factor divides the size
        q = e.var("q", 0, top)
        e.assume(raw[a] == rf * e.raw(q))
        want = list(raw)
        want[a : a + 1] = [rf, e.raw(q)]
        call = lambda s: utils.split_shapes(s, f, case["a"])  # noqa: E731
        batch = a != 0
    for kind in (list, tuple):
        shape = kind(names)
        out = list(call(shape))
        yield "number of axes", len(out) == len(want)
        if len(out) == len(want):
            for i, (x, w) in enumerate(zip(out, want)):
                yield "size of axis %d" % i, e.both(e.raw(x) == w)
        yield "the shape passed in is left alone", len(shape) == r and all(x is y for x, y in zip(shape, names))
    if batch:
        out = list(call([None] + names[1:]))
        yield "number of axes, unknown batch", len(out) == len(want)
        yield "unknown batch kept", out[0] is None
        if len(out) == len(want):
            for i, (x, w) in list(enumerate(zip(out, want)))[1:]:
                yield "size of axis %d, unknown batch" % i, x is not None and e.both(e.raw(x) == w)


# ----------------------------------------------------------------- tensors
def batched(fn, sizes):
    """Shape Keras infers with an unknown batch size."""
    return tuple(fn(keras.KerasTensor((None, *sizes[1:]), dtype="float32")).shape)


def sides(case, ctx):
    from groco import utils

    sizes, r = tuple(case["sizes"]), case["rank"]
    x = ctx.var("x", sizes)
    if case["kind"] == "index":
        def gather(t):
            return keras.ops.take(keras.ops.reshape(t, [-1]), indices=utils.get_index_tensor(t), axis=0)

        yield "gathered tensor", ctx.call(gather, x, what="get_index_tensor"), x
        idx = np.asarray(utils.get_index_tensor(np.zeros(sizes, "float32")))
        if idx.shape != sizes or (idx != np.arange(x.size).reshape(sizes)).any() or not np.issubdtype(idx.dtype, np.integer):
            raise Violation("index tensor %s" % idx.tolist())
        if x.size > 1:
            yield "gathered the other way", ctx.call(gather, x), x.ravel()[::-1].reshape(sizes), False
        return
    if case["kind"] == "split":
        a, f = case["a"], case["f"]
        i = a % r
        want = x.reshape(sizes[:i] + (f, sizes[i] // f) + sizes[i + 1 :])
        fn = lambda t: utils.split_axes(t, left_size=f, right_axis=a)  # noqa: E731
        y = ctx.call(fn, x, what="split_axes")
        yield "split", y, want
        shape = tuple(int(s) for s in utils.split_shapes(sizes, f, a))
        if shape != want.shape:
            raise Violation("split_shapes gives %s, not %s" % (shape, want.shape))
        back = ctx.call(lambda t: utils.merge_axes(t, merged_axis=i, target_axis=i + 1), y, what="merge_axes")
        yield "merging undoes splitting", back, x
        if i and batched(fn, sizes)[1:] != want.shape[1:]:
            raise Violation("shape with unknown batch: %s" % (batched(fn, sizes),))
        if x.size and f > 1 and sizes[i] > f:
            inner = np.swapaxes(x.reshape(sizes[:i] + (sizes[i] // f, f) + sizes[i + 1 :]), i, i + 1)
            yield "split the other way round", y, inner, False
        return
    a, b = case["a"], case["b"]
    i, j = a % r, b % r
    if case["kind"] == "stay":
        y = ctx.call(lambda t: utils.move_axis_to_left_of(t, moved_axis=a, target_axis=b), x, what="move_axis_to_left_of")
        yield "axis moved onto itself", y, x
        if x.size > 1:
            yield "the axis flipped", y, np.flip(x, i), False
        return
    moved = oracle.move_left_of(x, i, j)
    j2 = j - (i < j)
    want = moved.reshape(moved.shape[:j2] + (moved.shape[j2] * moved.shape[j2 + 1],) + moved.shape[j2 + 2 :])
    mv = lambda t: utils.move_axis_to_left_of(t, moved_axis=a, target_axis=b)  # noqa: E731
    mg = lambda t: utils.merge_axes(t, merged_axis=a, target_axis=b)  # noqa: E731
    yield "moved", ctx.call(mv, x, what="move_axis_to_left_of"), moved
    y = ctx.call(mg, x, what="merge_axes")
    yield "merged", y, want
    shape = tuple(int(s) for s in utils.merge_shapes(sizes, merged_axis=a, target_axis=b))
    if shape != want.shape:
        raise Violation("merge_shapes gives %s, not %s" % (shape, want.shape))
    if sizes[i]:
        back = ctx.call(lambda t: utils.split_axes(t, left_size=sizes[i], right_axis=j2), y, what="split_axes")
        yield "splitting undoes merging", back, moved
    if i and j:
        if batched(mg, sizes)[1:] != want.shape[1:] or batched(mv, sizes)[1:] != moved.shape[1:]:
            raise Violation("shape with unknown batch: %s" % (batched(mg, sizes),))
    if x.size and sizes[i] > 1 and sizes[j] > 1:
        other = np.swapaxes(moved, j2, j2 + 1).reshape(want.shape)
        yield "merged the other way round", y, other, False


def decide(case):
    if case["kind"].endswith("_int"):
        return symint.decide(int_goals, case)
    return harness.decide_sides(sys.modules[__name__], case, False)


def replay(case, values):
    if case["kind"].endswith("_int"):
        return symint.replay(int_goals, case, values)
    return harness.replay_sides(sys.modules[__name__], case, values)
