"""Acting on signals on the group moves grid and group axis together."""
import numpy as np

from lib import oracle
from lib.cfg import SPACE, WALL, groups
from lib.grids import uniq

EXPLAIN = (
    "The jaxpr of Group.action on a symbolic signal on group times grid is executed; z3 decides that "
    "entry (g, h, p) is x(g^-1 h, g^-1 p) for all values, all g, h and p, with inverse and product "
    "taken from the symmetries themselves (signed permutation matrices), not from the tables."
)
BOUNDS = (
    "2D grids with sides 1..5 (thorough 8), 3D with sides 1..3 (Oh 2; thorough 4), rectangular where the "
    "group allows; every position of the spatial, group and new axes in tensors with up to 2 further axes"
)


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for g in WALL:
        for n in range(1, 9 if big else 6):
            out.append({"group": g, "n": [n, n], "axes": "bssgc"})
        if g not in ("P4", "P4M"):
            for n in [[2, 3], [4, 1], [3, 5]]:
                out.append({"group": g, "n": n, "axes": "bssgc"})
        for layout in ["ssg", "gss", "bssg", "bssgc", "bcssg", "bgss", "gbss", "sscg", "ssgc", "bgssc", "cgss", "ssbgc", "gssbc"]:
            for new in range(len(layout) + 1):
                out.append({"group": g, "n": [2, 2], "axes": layout, "new": new})
    for g in SPACE:
        for n in [1, 2] + ([3] if g != "Oh" or big else []) + ([4] if big and g != "Oh" else []):
            out.append({"group": g, "n": [n] * 3, "axes": "sssg", "cost": 50 if g == "Oh" else 10})
        if g in ("D4", "D4h"):
            for n in [[2, 2, 3], [3, 3, 1]]:
                out.append({"group": g, "n": n, "axes": "bsssgc", "cost": 10})
        for layout in ["sssg", "gsss", "bsssgc", "bcsssg"]:
            for new in range(len(layout) + 1):
                if g != "Oh" or big or new in (0, 1, 3, 4):
                    out.append({"group": g, "n": [1, 1, 1] if g == "Oh" and not big else [2, 2, 2], "axes": layout, "new": new,
                                "cost": 40 if g == "Oh" else 6})
    return uniq(out)


def sides(case, ctx):
    g = groups()[case["group"]]
    lay, n = case["axes"], list(case["n"])
    new = case.get("new", 0)
    ga = lay.index("g")
    s0 = lay.index("s")
    axes = tuple(range(s0, s0 + len(n)))
    shape = [g.order if c == "g" else 2 for c in lay]
    for a, m in zip(axes, n):
        shape[a] = m
    x = ctx.var("x", shape)
    y = ctx.call(
        lambda t: g.action(t, spatial_axes=axes, new_group_axis=new, group_axis=ga), x, what="Group.action (group)"
    )
    mats = oracle.matrices(g)
    want = np.stack([oracle.act_group(x, m, mats, axes, ga) for m in mats], axis=new)
    yield "(g.x)(h, p)", y, want
    if g.order > 1:
        yield "x itself", y, np.stack([x] * g.order, axis=new), False
