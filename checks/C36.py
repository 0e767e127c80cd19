"""A group derived from a parent group is that subgroup."""
import sys

import numpy as np

from lib import harness, oracle, tables
from lib.cfg import ORDER, SPACE, SUBS, WALL, Conf, groups
from lib.grids import uniq
from lib.oracle import Violation

EXPLAIN = (
    "Group(name, order, parent=G) is built for every group and listed subgroup, also in chains, by the repository's own "
    "derivation. On its live tables z3 decides, with symbolic indices, the group axioms and inverses, that products and listed "
    "subgroups are those of the parent at the listed elements, and that coset representatives form a transversal. The jaxprs "
    "of its action on symbolic signals on the grid and on the group, and of layers given the derived group object, "
    "are executed and compared with the parent's action and the stand-alone group's layer, for all values."
)
BOUNDS = (
    "all 29 group/subgroup pairs and all chains of two derivations; tables: elements range over the whole group; actions on "
    "grids of 2 (thorough 3) pixels per side; 2D and 3D convolutions, transposed convolutions and pooling, sizes 2..4"
)
ENCODES = ["Group.__init__", "Group._compute_composition", "Group._compute_inverses", "Group._compute_subgroup",
           "Group._compute_cosets", "Group._compute_action", "Group._external_to_internal_indices"]


def chains():
    for g in WALL + SPACE:
        for s in SUBS[g]:
            yield [g, s]
            for t in SUBS[s]:
                yield [g, s, t]


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for c in chains():
        cost = {"Oh": 30, "O": 12}.get(c[1], 3)
        out.append({"chain": c, "kind": "table", "cost": cost})
        if c[1] != "Oh" or len(c) == 2 or big:
            out.append({"chain": c, "kind": "action", "n": 3 if big and c[0] in WALL else 2, "cost": cost})
        if len(c) == 2 or big:
            kinds = [("GroupConv", 0), ("GroupConv", 1), ("GroupMaxPooling", 0)]
            if c[1] == c[0] or big:
                kinds += [("GroupConvTranspose", 0), ("GroupAveragePooling", 0)]
            d = "2D" if c[0] in WALL else "3D"
            if c[-1] in ("O", "Oh"):
                continue
            for cls, lift in kinds:
                for sub in SUBS[c[-1]] if d == "2D" else SUBS[c[-1]][:1]:
                    name = cls.replace("Transpose", d + "Transpose") if "Transpose" in cls else cls + d
                    out.append({"chain": c, "kind": "layer", "cost": 2 if d == "2D" else 20,
                                "layer": dict(cls=name, group=c[-1], sub=sub, n=2, k=2, **({"lift": 1} if lift else {}))})
    return uniq(out)


def derive(chain):
    from groco.groups import Group

    g = groups()[chain[0]]
    maps = list(range(g.order))
    for s in chain[1:]:
        idx = [int(i) for i in g.subgroup[s]]
        maps = [maps[i] for i in idx]
        g = Group(name=s, order=ORDER[s], parent=g)
    return g, maps


def facts(case):
    chain = case["chain"]
    top, name = groups()[chain[0]], chain[-1]
    what = "%s derived from %s" % (name, " from ".join(chain[-2::-1]))
    g, emb = derive(chain)
    n = ORDER[name]
    comp, inv = np.asarray(g.composition), np.asarray(g.inverses)
    yield "%s: %d elements" % (what, n), len(emb) == n and all(0 <= i < top.order for i in emb)
    yield what + ": tables of its order", comp.shape == (n, n) and inv.shape == (n,) and g.order == n and g.name == name
    comp, inv, rows = tables.table(comp), tables.table(inv), np.array(emb)
    tcomp = tables.table(top.composition)

    def closed(L):
        a, b = L.var("a", n), L.var("b", n)
        return L.all(L.lt(L.at(comp, a, b), n), L.implies(L.eq(L.at(rows, a), L.at(rows, b)), L.eq(a, b)))

    def hom(L):
        a, b = L.var("a", n), L.var("b", n)
        return L.eq(L.at(rows, L.at(comp, a, b)), L.at(tcomp, L.at(rows, a), L.at(rows, b)))

    def unit(L):
        a = L.var("a", n)
        i = L.at(inv, a)
        return L.all(L.eq(L.at(comp, 0, a), a), L.eq(L.at(comp, a, 0), a), L.lt(i, n),
                     L.eq(L.at(comp, i, a), 0), L.eq(L.at(comp, a, i), 0))

    yield what + ": closed", closed
    yield what + ": products as in " + top.name, hom
    yield what + ": identity and inverses", unit
    yield "%s: its subgroups are %s" % (what, sorted(SUBS[name])), set(g.subgroup) >= set(SUBS[name])
    for s in SUBS[name]:
        H = [int(i) for i in g.subgroup[s]]
        T = [int(i) for i in top.subgroup[s]]
        yield "%s: its subgroup %s is that of %s" % (what, s, top.name), (
            all(0 <= i < n for i in H) and [emb[i] for i in H] == T
        )
        yield "%s: cosets of %s are listed" % (what, s), s in g.cosets
        R = [int(i) for i in g.cosets[s]]
        yield "%s: representatives of %s are elements" % (what, s), all(0 <= i < n for i in R)

        def transversal(L):
            x = L.var("g", n)
            return L.exactly_one([L.eq(L.at(comp, h, r), x) for h in H for r in R])

        yield "%s: representatives of %s form a transversal" % (what, s), transversal


def sides(case, ctx):
    chain = case["chain"]
    with ctx.building():
        g, emb = derive(chain)
    top = groups()[chain[0]]
    d = 2 if chain[0] in WALL else 3
    if case["kind"] == "layer":
        other, sub = groups()[chain[-1]], case["layer"]["sub"]
        if "Pooling" in case["layer"]["cls"] and list(g.cosets[sub]) != list(other.cosets[sub]):
            raise harness.Skip("pooling depends on the representatives listed, which may be others")
        conf = Conf(dict(case["layer"]))
        if conf.impossible():
            raise harness.Skip("no equivariant padding exists")
        built = []
        with ctx.building():
            for grp in (chain[-1], g):
                layer = conf.make(group=grp)
                layer.build(conf.in_shape())
                built.append(layer)
        x = ctx.var("x", conf.in_shape())
        shapes = [[tuple(v.shape) for v in b.trainable_variables] for b in built]
        if shapes[0] != shapes[1]:
            raise Violation("the weights with a derived group have shapes %s, not %s" % (shapes[1], shapes[0]))
        w = [ctx.var("w%d" % i, s) for i, s in enumerate(shapes[0])]
        yield "layer on the derived group", ctx.layer(built[1], w, x), ctx.layer(built[0], w, x)
        return
    n = case["n"]
    axes = tuple(range(d))
    x = ctx.var("x", (n,) * d)
    y = ctx.call(lambda t: g.action(t, spatial_axes=axes, new_group_axis=0, domain_group=None), x, what="Group.action")
    mats = oracle.matrices(top)
    if not all(0 <= i < len(mats) for i in emb) or len(y) != len(emb):
        raise Violation("%s has %d copies" % (g.name, len(y)))
    mine = [mats[i] for i in emb]
    yield "action on the grid", y, np.stack([oracle.act_grid(x, m, axes) for m in mine])
    if len(mine) > 1:
        yield "copies rotated", y, np.stack([oracle.act_grid(x, m, axes) for m in mine[1:] + mine[:1]]), False
    if g.order > 24:
        return
    z = ctx.var("z", (n,) * d + (g.order,))
    got = ctx.call(lambda t: g.action(t, spatial_axes=axes, new_group_axis=0, group_axis=d), z, what="Group.action (group)")
    yield "action on the group", got, np.stack([oracle.act_group(z, m, mine, axes, d) for m in mine])
    for s in SUBS[g.name]:
        rows = [int(i) for i in g.subgroup[s]]
        if rows != sorted(set(rows)) and len(set(rows)) != len(rows):
            raise Violation("%s lists elements twice" % s)
        if g.order <= 8:
            got = ctx.call(lambda t: g.action(t, spatial_axes=axes, new_group_axis=0, group_axis=d, acting_group=s), z)
            yield "acting with " + s, got, np.stack([oracle.act_group(z, mine[i], mine, axes, d) for i in rows])


def decide(case):
    if case["kind"] == "table":
        return tables.decide(facts, case)
    return harness.decide_sides(sys.modules[__name__], case, False)


def replay(case, values):
    if case["kind"] == "table":
        return tables.replay(facts, case, values)
    return harness.replay_sides(sys.modules[__name__], case, values)
