"""Subgroup tables agree with the stand-alone groups."""
import sys

import numpy as np

from lib import harness, oracle, tables
from lib.cfg import ORDER, SPACE, SUBS, WALL, groups

EXPLAIN = (
    "For each group and listed subgroup z3 decides, with symbolic element indices, that the listed "
    "elements are closed and compose as in the stand-alone group's table; and, on a symbolic grid "
    "signal, that row i of the stand-alone group's action is the row of the larger group's action "
    "at the i-th listed element."
)
BOUNDS = "all 29 group/subgroup pairs, all elements; symmetries compared on grids of 2 to 4 pixels per side (thorough 5)"
ENCODES = ["Group.subgroup", "Group._compute_subgroup", "Group.composition"]


def cases(tier, seed):
    out = [{"group": g, "kind": "names"} for g in WALL + SPACE]
    for g in WALL + SPACE:
        for s in SUBS[g]:
            out.append({"group": g, "sub": s, "kind": "table", "cost": 5})
            for n in [2, 3, 4] + ([5] if tier == "thorough" else []):
                if g in WALL or n < 4 or tier == "thorough":
                    out.append({"group": g, "sub": s, "kind": "action", "n": n})
    return out


def facts(case):
    name = case["group"]
    g = groups()[name]
    if case["kind"] == "names":
        known = set(SUBS[name])
        yield "subgroups of %s: %s, documented %s" % (name, sorted(g.subgroup), sorted(known)), set(
            g.subgroup
        ) == known
        whole = [int(i) for i in g.subgroup[name]]
        yield "%s lists itself in order" % name, whole == list(range(ORDER[name]))
        return
    sub = case["sub"]
    h = groups()[sub]
    n, m = ORDER[name], ORDER[sub]
    idx = [int(i) for i in g.subgroup[sub]]
    yield "%s in %s: %d elements" % (sub, name, m), len(idx) == m and all(0 <= i < n for i in idx)
    comp, hcomp = tables.table(g.composition), tables.table(h.composition)
    rows = np.array(idx)

    def distinct(L):
        a, b = L.var("a", m), L.var("b", m)
        return L.implies(L.eq(L.at(rows, a), L.at(rows, b)), L.eq(a, b))

    def same(L):
        a, b = L.var("a", m), L.var("b", m)
        return L.eq(L.at(comp, L.at(rows, a), L.at(rows, b)), L.at(rows, L.at(hcomp, a, b)))

    yield "%s in %s: elements distinct" % (sub, name), distinct
    yield "%s in %s: composition as in %s" % (sub, name, sub), same


def sides(case, ctx):
    g, h = groups()[case["group"]], groups()[case["sub"]]
    d = 3 if case["group"] in SPACE else 2
    x = ctx.var("x", (case["n"],) * d)
    axes = tuple(range(d))
    big = ctx.call(lambda t: g.action(t, spatial_axes=axes, new_group_axis=0, domain_group=None), x, what="Group.action")
    small = ctx.call(lambda t: h.action(t, spatial_axes=axes, new_group_axis=0, domain_group=None), x)
    idx = [int(i) for i in g.subgroup[case["sub"]]]
    if len(idx) != len(small) or not all(0 <= i < len(big) for i in idx):
        raise oracle.Violation("%s lists %d elements for %s" % (g.name, len(idx), h.name))
    yield "action of %s as part of %s" % (h.name, g.name), small, np.take(big, idx, axis=0)
    if len(idx) > 1:
        yield "shifted rows", np.roll(small, 1, axis=0), np.take(big, idx, axis=0), False


def decide(case):
    if case["kind"] == "action":
        return harness.decide_sides(sys.modules[__name__], case, False)
    return tables.decide(facts, case)


def replay(case, values):
    if case["kind"] == "action":
        return harness.replay_sides(sys.modules[__name__], case, values)
    return tables.replay(facts, case, values)
