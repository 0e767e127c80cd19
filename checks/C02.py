"""Acting on a grid is the documented group of symmetries."""
import itertools

import numpy as np

from lib import oracle
from lib.cfg import ORDER, SPACE, WALL, groups
from lib.grids import uniq
from lib.oracle import Violation

EXPLAIN = (
    "The jaxpr of Group.action on a grid is executed on a symbolic signal. z3 decides, entry by "
    "entry and for all values: copy 0 is the signal; copy e is the signal transformed by the signed "
    "permutation matrix of e; acting twice equals acting with the table's product (all pairs); and "
    "that two different copies are not equal (refuted equalities). The set of matrices must be the "
    "documented set of symmetries."
)
BOUNDS = (
    "2D grids with sides 1..6 (thorough 9), 3D with sides 1..3 (thorough 5), rectangular where the "
    "group allows; spatial axes and new group axis at every position of tensors with up to 2 further axes"
)


def documented(name):
    d = 3 if name in SPACE else 2
    allm = []
    for p in itertools.permutations(range(d)):
        for s in itertools.product((1, -1), repeat=d):
            m = np.zeros((d, d), dtype=int)
            for i in range(d):
                m[i, p[i]] = s[i]
            allm.append(m)
    det = lambda m: int(round(np.linalg.det(m)))  # noqa: E731
    diag = lambda m: (np.abs(m) == np.eye(d)).all()  # noqa: E731
    keep = {
        "P1": lambda m: (m == np.eye(2)).all(),
        "P2": lambda m: diag(m) and det(m) == 1,
        "PMh": lambda m: diag(m) and m[1, 1] == 1,
        "PMw": lambda m: diag(m) and m[0, 0] == 1,
        "P2MM": diag,
        "P4": lambda m: det(m) == 1,
        "P4M": lambda m: True,
        "Oh": lambda m: True,
        "O": lambda m: det(m) == 1,
        "D4h": lambda m: abs(m[2, 2]) == 1,
        "D4": lambda m: abs(m[2, 2]) == 1 and det(m) == 1,
    }[name]
    return {m.tobytes() for m in allm if keep(m)}


def cases(tier, seed):
    big = tier == "thorough"
    out = [{"group": g, "kind": "set"} for g in WALL + SPACE]
    for g in WALL:
        for n in range(1, 10 if big else 7):
            out.append({"group": g, "n": [n, n]})
        if g not in ("P4", "P4M"):
            for n in [[2, 3], [4, 1], [3, 5]] + ([[7, 4], [1, 6]] if big else []):
                out.append({"group": g, "n": n})
        # where the axes sit: `before` axes left of the spatial axes, `after` to the right
        for before, after in [(0, 0), (1, 1), (2, 0), (0, 2), (1, 0)]:
            for new in range(0, before + 2 + after + 1):
                out.append({"group": g, "n": [3, 3], "before": before, "after": after, "new": new})
                if g not in ("P4", "P4M"):
                    out.append({"group": g, "n": [2, 3], "before": before, "after": after, "new": new})
    for g in SPACE:
        for n in [[1, 1, 1], [2, 2, 2], [3, 3, 3]] + ([[4, 4, 4], [5, 5, 5]] if big else []):
            out.append({"group": g, "n": n, "cost": 60 if g == "Oh" else 10})
        if g in ("D4", "D4h"):
            for n in [[2, 2, 3], [3, 3, 2], [1, 1, 2]] + ([[4, 4, 2], [2, 2, 5]] if big else []):
                out.append({"group": g, "n": n, "cost": 10})
        for before, after in [(0, 0), (1, 1), (2, 0), (0, 1)] if g != "Oh" or big else [(1, 1), (0, 1)]:
            for new in range(0, before + 3 + after + 1):
                out.append({"group": g, "n": [2, 2, 2], "before": before, "after": after, "new": new, "cost": 8})
    return uniq(out)


def sides(case, ctx):
    name = case["group"]
    g = groups()[name]
    if case["kind"] if "kind" in case else False:
        mats = oracle.matrices(g)
        got = {m.tobytes() for m in mats}
        if len(mats) != ORDER[name] or got != documented(name):
            raise Violation("the symmetries of %s are not the documented ones" % name)
        eye = np.eye(len(mats[0]), dtype=int)
        yield "copy 0 of %s" % name, mats[0], eye
        comp = np.asarray(g.composition)
        d = len(eye)
        x = ctx.var("x", (3,) * d)
        sig = ctx.call(
            lambda t: g.action(t, spatial_axes=tuple(range(d)), new_group_axis=0, domain_group=None), x
        )
        for a, b in itertools.combinations(range(len(mats)), 2):
            if a == 0 or len(mats) < 20:
                yield "copies %d and %d" % (a, b), sig[a], sig[b], False
        if comp.shape != (len(mats),) * 2:
            raise Violation("composition table of %s has shape %s" % (name, comp.shape))
        return
    n, before, after = tuple(case["n"]), case.get("before", 0), case.get("after", 0)
    d = len(n)
    new = case.get("new", 0)
    axes = tuple(range(before, before + d))
    shape = (2,) * before + n + (2,) * after
    x = ctx.var("x", shape)
    act = lambda t: g.action(t, spatial_axes=axes, new_group_axis=new, domain_group=None)  # noqa: E731
    y = ctx.call(act, x, what="Group.action (grid)")
    mats = oracle.matrices(g)
    want = np.stack([oracle.act_grid(x, m, axes) for m in mats], axis=new)
    yield "copies of the signal", y, want
    if y.shape != want.shape:
        return
    yield "copy 0", np.take(y, 0, axis=new), x
    if "new" in case:
        return
    comp = np.asarray(g.composition)
    step = 1 if g.order < 20 else 5
    for c in range(0, g.order, step):
        again = ctx.call(act, y[c])
        rows = [int(comp[r][c]) for r in range(g.order)]
        if not all(0 <= r < g.order for r in rows):
            raise Violation("composition of %s out of range" % name)
        yield "acting by %d and then by every r" % c, again, y[rows]
    if min(n) > 1 and g.order > 1:
        yield "acting by nothing", y, np.stack([x] * g.order), False
