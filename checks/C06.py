"""Restricting the acting or domain group restricts the full action."""
import numpy as np

from lib import oracle
from lib.cfg import SPACE, SUBS, WALL, groups
from lib.grids import uniq

EXPLAIN = (
    "The jaxpr of Group.action with acting_group / domain_group is executed on a symbolic signal; z3 "
    "decides, entry by entry for all values, that it equals the rows of the full action at the "
    "subgroup's elements, acting on the signal extended by zero, read off at the subgroup's entries "
    "(full action: the independent one on signed permutation matrices)."
)
BOUNDS = (
    "every group with every pair of acting and domain subgroup (also left out, empty string, no domain); "
    "2D sides 1..4 (thorough 6), 3D sides 1..2 (thorough 3); several positions of the axes"
)


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for g in WALL + SPACE:
        sp = g in SPACE
        subs = SUBS[g]
        for act in subs + [""]:
            for dom in subs + ["", None]:
                if sp:
                    sizes = [[2, 2, 2]] + ([[1, 1, 1], [3, 3, 3]] if big else [])
                    if g == "Oh" and not big and act in ("Oh", ""):
                        sizes = [[1, 1, 1]] if dom is not None else sizes
                else:
                    sizes = [[2, 2], [3, 3]] + ([[4, 4], [1, 1], [6, 6]] if big else [])
                    if g not in ("P4", "P4M"):
                        sizes.append([2, 3])
                for n in sizes:
                    out.append({"group": g, "act": act, "dom": dom, "n": n, "cost": 30 if g == "Oh" else 3})
        for act, dom in [(subs[-1], subs[-1]), (subs[-1], subs[0]), (subs[0], subs[-1]), (subs[len(subs) // 2],) * 2]:
            if g == "Oh" and not big:
                continue
            S = "sss" if sp else "ss"
            for lay in [S + "g", "b" + S + "gc", "bc" + S + "g", "g" + S, "bg" + S + "c"]:
                for new in range(len(lay) + 1):
                    if big or (new + len(lay)) % 2 == 0:
                        out.append({"group": g, "act": act, "dom": dom, "n": [2] * len(S), "axes": lay, "new": new, "cost": 3})
        # left out altogether
        out.append({"group": g, "n": [2] * (3 if sp else 2) if g != "Oh" else [1, 1, 1], "act": "-", "dom": "-", "cost": 30 if g == "Oh" else 3})
    return uniq(out)


def sides(case, ctx):
    g = groups()[case["group"]]
    n = list(case["n"])
    act, dom = case["act"], case["dom"]
    S = "s" * len(n)
    lay = case.get("axes", ("b" + S + "gc") if len(n) == 2 else (S + "g"))
    kw = {}
    if act != "-":
        kw["acting_group"] = act
    if dom != "-":
        kw["domain_group"] = dom
    rows = [int(i) for i in g.subgroup[act if act not in ("", "-") else g.name]]
    if dom is None:
        lay = lay.replace("g", "")
    else:
        cols = [int(i) for i in g.subgroup[dom if dom not in ("", "-") else g.name]]
    new = case.get("new", 0)
    s0 = lay.index("s")
    axes = tuple(range(s0, s0 + len(n)))
    ga = lay.index("g") if dom is not None else None
    shape = [len(cols) if c == "g" else 2 for c in lay]
    for a, m in zip(axes, n):
        shape[a] = m
    x = ctx.var("x", shape)
    y = ctx.call(
        lambda t: g.action(t, spatial_axes=axes, new_group_axis=new, group_axis=ga, **kw), x, what="Group.action (subgroups)"
    )
    mats = oracle.matrices(g)
    if any(not 0 <= i < g.order for i in rows + (cols if dom is not None else [])):
        raise oracle.Violation("subgroup of %s out of range" % g.name)
    if dom is None:
        want = [oracle.act_grid(x, mats[r], axes) for r in rows]
        full = None
    else:
        zero = np.zeros_like(np.take(x, [0], axis=ga))
        ext = np.concatenate(
            [np.take(x, [cols.index(i)], axis=ga) if i in cols else zero for i in range(g.order)], axis=ga
        )
        want = [np.take(oracle.act_group(ext, mats[r], mats, axes, ga), cols, axis=ga) for r in rows]
        full = ext
    want = np.stack(want, axis=new)
    yield "restricted action", y, want
    if len(rows) > 1:
        yield "rows reversed", y, np.flip(want, new), False
