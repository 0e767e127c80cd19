"""Axes may lie anywhere and be counted from either end."""
import itertools
import random

import numpy as np

from lib import oracle
from lib.cfg import ORDER, SPACE, SUBS, WALL, groups
from lib.grids import uniq
from lib.oracle import Violation

EXPLAIN = (
    "The jaxpr of Group.action on a symbolic signal is executed with the spatial axes, the group axis and the new axis at "
    "arbitrary, also separated, positions and in arbitrary order, each counted from the front or from the end; z3 decides, "
    "entry by entry for all values, that the result is the independent action along exactly these axes, with the new axis "
    "at exactly that place of the output. The equivariance checker is run on symbolic signals and layers with both ways of counting."
)
BOUNDS = (
    "all groups, some acting and domain subgroups; tensors of rank 2..5 (2D) and 3..5 (3D): every arrangement of spatial, "
    "group and one or two further axes (quick: some of the ways of counting, all arrangements), spatial sides 1..3"
)
LAYOUTS_2D = sorted({"".join(p) for p in itertools.permutations("01g")} | {"".join(p) for p in itertools.permutations("01gb")}
                    | {"b01gc", "b0g1c", "g0b1c", "1b0cg", "0bc1g", "bg1c0", "cb10g"})
GRID_2D = sorted({"".join(p) for p in itertools.permutations("01")} | {"".join(p) for p in itertools.permutations("01b")}
                 | {"b01c", "0b1c", "1bc0", "bc10", "0cb1", "cb01"})
GRID_3D = ["012", "210", "120", "b012", "012b", "0b12", "01b2", "2b10", "b2c01", "0b1c2", "10b2"]
LAYOUTS_3D = ["012g", "g012", "0g12", "01g2", "2g10", "b01g2", "0b12g", "g0b12"]


def ways(rng, dims, tier):
    """Which axes are counted from the end: one bit each for spatial axes, group axis and new axis."""
    every = list(itertools.product((0, 1), repeat=dims + 2))
    if tier == "thorough":
        return every
    return [every[0], every[-1]] + rng.sample(every[1:-1], 2)


def cases(tier, seed):
    rng = random.Random(seed)
    out = []
    for g in WALL + SPACE:
        d = 3 if g in SPACE else 2
        cost = {"Oh": 30, "O": 12}.get(g, 4)
        for lay in (GRID_3D if d == 3 else GRID_2D) + (LAYOUTS_3D if d == 3 else LAYOUTS_2D):
            if g == "Oh" and tier == "quick" and (len(lay) > 4 or "g" in lay):
                continue
            news = list(range(len(lay) + 1))
            for w in ways(rng, d, tier):
                for new in rng.sample(news, 2) if tier == "quick" else news:
                    out.append({"group": g, "lay": lay, "neg": list(w), "new": new, "cost": cost})
            if "g" in lay:
                for sub in SUBS[g]:
                    if sub != g and g != "Oh":
                        for role in ("acting", "domain"):
                            out.append({"group": g, "lay": lay, "neg": list(rng.choice(ways(rng, d, "thorough"))),
                                        "new": rng.choice(news), role: sub, "cost": cost})
    for g in WALL + SPACE:  # what is left out of the call is understood as documented
        for lay in ["b012", "012", "b012g"] if g in SPACE else ["b01", "b01c", "b01g", "b01gc", "bg01"]:
            if g in SPACE and (g == "Oh" and tier == "quick" or "12" not in lay):
                continue
            d = 3 if g in SPACE else 2
            out.append({"group": g, "lay": lay, "neg": [0] * (d + 2), "new": 0, "omit": 1, "cost": 4})
            out.append({"group": g, "lay": lay, "neg": [0] * (d + 2), "new": len(lay), "omit": 1, "cost": 4})
            if g in WALL:
                out.append({"group": g, "lay": lay, "neg": [0] * (d + 1), "checker": 1, "omit": 1, "cost": 6})
    for g in WALL + ["D4"]:
        d = 3 if g in SPACE else 2
        for lay in ("b01g", "b0g1", "bg01c") if d == 2 else ("b012g", "bg012"):
            for w in itertools.product((0, 1), repeat=d + 1):
                out.append({"group": g, "lay": lay, "neg": list(w), "checker": 1, "cost": 6})
    return uniq(out)


def sizes(case, d):
    """Sides of the grid: different ones where the group leaves the axes apart."""
    g = case["group"]
    if g in ("P4", "P4M", "O", "Oh"):
        return [2] * d
    return [2, 2, 3] if g in ("D4", "D4h") else [2, 3]


DOCUMENTED = {"spatial_axes": (1, 2), "new_group_axis": 0, "group_axis": None, "acting_group": "", "domain_group": ""}


def left_out(kw):
    """The arguments other than the documented defaults."""
    return {k: v for k, v in kw.items() if k not in DOCUMENTED or v != DOCUMENTED[k]}


def layout(case):
    g = groups()[case["group"]]
    lay = case["lay"]
    d = 3 if case["group"] in SPACE else 2
    axes = tuple(lay.index(str(i)) for i in range(d))
    ga = lay.index("g") if "g" in lay else None
    shape = [2 if c == "c" else 1 for c in lay]
    for a, m in zip(axes, sizes(case, d)):
        shape[a] = m
    if ga is not None:
        shape[ga] = ORDER[case.get("domain") or case["group"]]
    return g, d, axes, ga, shape


def sides(case, ctx):
    g, d, axes, ga, shape = layout(case)
    rank, neg = len(shape), case["neg"]
    named = tuple(a - rank if n else a for a, n in zip(axes, neg))
    named_ga = ga - rank if ga is not None and neg[d] else ga
    if case.get("checker"):
        from groco.utils import check_equivariance

        x = ctx.var("x", shape)
        w = ctx.var("w", shape)
        full = dict(spatial_axes=axes, group_axis=ga, acting_group="", domain_group="", target_group="")
        other = dict(spatial_axes=named, group_axis=named_ga)
        if ga is None:
            full.update(domain_group=None, target_group=None)
            other.update(domain_group=None, target_group=None)
        if case.get("omit"):
            other = left_out(other)
        outs = [ctx.call(lambda t, u: check_equivariance(lambda s: s * u, t, group=g, **k), x, w, what="check_equivariance") for k in (other, full)]
        yield "deviation", outs[0], outs[1]
        return
    new = case["new"]
    named_new = new - rank - 1 if neg[d + 1] else new
    acting = case.get("acting", "")
    kw = dict(spatial_axes=named, new_group_axis=named_new, acting_group=acting)
    if ga is None:
        if new % 2:  # otherwise understood, as there is no group axis
            kw["domain_group"] = None
    else:
        kw.update(group_axis=named_ga, domain_group=case.get("domain", ""))
    if case.get("omit"):
        kw = left_out(kw)
    x = ctx.var("x", shape)
    y = ctx.call(lambda t: g.action(t, **kw), x, what="Group.action")
    mats = oracle.matrices(g)
    pick = lambda name: [int(i) for i in g.subgroup[name or g.name]]  # noqa: E731
    act = [mats[i] for i in pick(acting)]
    if ga is None:
        want = [oracle.act_grid(x, m, axes) for m in act]
    else:
        dom = [mats[i] for i in pick(case.get("domain"))]
        if len(dom) != shape[ga]:
            raise Violation("subgroup %s of %s has %d elements" % (case.get("domain"), g.name, len(dom)))
        want = [oracle.transform_kernel(x, m, dom, axes, ga) for m in act]
    want = np.stack(want, axis=new)
    yield "action", y, want
    if len(act) > 1 and not case.get("domain"):
        yield "no action", y, np.stack([x] * len(act), axis=new), False
