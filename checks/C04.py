"""Coset representatives form a transversal."""
import numpy as np

from lib import tables
from lib.cfg import ORDER, SPACE, SUBS, WALL, groups

EXPLAIN = (
    "The composition table of each group becomes a bit-vector decision term; z3 decides, for a "
    "symbolic element g, that exactly one pair (h, r) of a listed subgroup element and a listed "
    "coset representative composes to g."
)
BOUNDS = "none for the 29 group/subgroup pairs of the implemented groups: g ranges over the whole group"
ENCODES = ["Group.cosets", "Group._compute_cosets", "Group.subgroup", "Group.composition"]


def cases(tier, seed):
    return [{"group": g, "sub": s} for g in WALL + SPACE for s in SUBS[g]]


def facts(case):
    name, sub = case["group"], case["sub"]
    g = groups()[name]
    n = ORDER[name]
    comp = tables.table(g.composition)
    H = [int(i) for i in g.subgroup[sub]]
    yield "cosets of %s in %s are listed" % (sub, name), sub in g.cosets
    R = [int(i) for i in g.cosets[sub]]
    yield "%s: elements in range" % sub, all(0 <= i < n for i in H + R)
    yield "%s in %s: the identity represents %s itself" % (sub, name, sub), [r for r in R if r in H] == [0]

    def transversal(L):
        x = L.var("g", n)
        return L.exactly_one([L.eq(L.at(comp, h, r), x) for h in H for r in R])

    yield "%s in %s: every g is h*r in exactly one way" % (sub, name), transversal


def decide(case):
    return tables.decide(facts, case)


def replay(case, values):
    return tables.replay(facts, case, values)
