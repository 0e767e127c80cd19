"""The implemented groups are groups."""
import numpy as np

from lib import tables
from lib.cfg import ORDER, SPACE, WALL, groups

EXPLAIN = (
    "The published composition and inverse tables of each group (for D4, D4h and O computed by the "
    "repository's own derivation from Oh) become bit-vector decision terms; z3 decides each group "
    "axiom with the elements symbolic, so for every pair or triple of elements."
)
BOUNDS = "none for the 11 implemented groups: elements range over the whole group"
ENCODES = ["Group.composition", "Group.inverses", "Group._compute_composition", "Group._compute_inverses"]


def cases(tier, seed):
    return [{"group": g} for g in WALL + SPACE]


def facts(case):
    name = case["group"]
    g = groups().get(name)
    yield "%s is implemented" % name, g is not None
    n = ORDER[name]
    yield "order of %s is %d" % (name, n), g.order == n and g.name == name
    comp, inv = np.asarray(g.composition), np.asarray(g.inverses)
    yield "composition of %s is a %dx%d table" % (name, n, n), comp.shape == (n, n)
    yield "%s has %d inverses" % (name, n), inv.shape == (n,)
    comp, inv = tables.table(comp), tables.table(inv)

    def closed(L):
        a, b = L.var("a", n), L.var("b", n)
        return L.lt(L.at(comp, a, b), n)

    def identity(L):
        a = L.var("a", n)
        return L.all(L.eq(L.at(comp, 0, a), a), L.eq(L.at(comp, a, 0), a))

    def inverse(L):
        a = L.var("a", n)
        i = L.at(inv, a)
        return L.all(L.lt(i, n), L.eq(L.at(comp, i, a), 0), L.eq(L.at(comp, a, i), 0))

    def associative(L):
        a, b, c = L.var("a", n), L.var("b", n), L.var("c", n)
        return L.eq(L.at(comp, L.at(comp, a, b), c), L.at(comp, a, L.at(comp, b, c)))

    yield name + ": closed", closed
    yield name + ": element 0 is the identity", identity
    yield name + ": inverses", inverse
    yield name + ": associative", associative


def decide(case):
    return tables.decide(facts, case)


def replay(case, values):
    return tables.replay(facts, case, values)
