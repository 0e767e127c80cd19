"""Claims about finite tables (composition, inverses, subgroups, cosets) with symbolic indices.

A claim is a function of a logic `L` and its index variables.  Symbolically L builds z3
bit-vector formulas, and the solver decides the claim for every index; for the replay L is plain
Python on the live tables.
"""
import numpy as np

from lib import solve
from lib.boot import z3

W = 8  # bits of an index: tables have at most 48 entries per axis; 255 is "out of range"
BAD = 255


def table(values):
    """Python ints of a live table (any nesting), out-of-range entries marked."""
    a = np.asarray(values).astype(int)
    return np.where((a < 0) | (a >= BAD), BAD, a)


class Sym:
    symbolic = True

    def __init__(self):
        self.n = 0
        self.axioms = []
        self.funcs = {}

    def var(self, name, size):
        v = z3.BitVec(name, W)
        self.axioms.append(z3.ULT(v, size))
        return v

    def at(self, tab, *idx):
        """tab[idx] as a term: a binary decision tree over the index bits."""
        if all(isinstance(i, int) for i in idx):
            for i in idx:
                tab = tab[i]
            return self.num(tab)
        if len(idx) == 1:
            return self._tree([z3.BitVecVal(int(x), W) for x in tab], idx[0])
        if isinstance(idx[0], int):
            return self.at(tab[idx[0]], *idx[1:])
        if isinstance(idx[1], int):
            return self.at(tab[:, idx[1]], idx[0])
        key = (id(tab), tab.shape)
        f = self.funcs.get(key)
        if f is None:
            f = self.funcs[key] = (tab, None)
        rows = [self._tree([z3.BitVecVal(int(x), W) for x in r], idx[1]) for r in tab]
        return self._tree(rows, idx[0])

    def _tree(self, leaves, i, bit=None):
        n = 1
        while n < len(leaves):
            n *= 2
        leaves = list(leaves) + [z3.BitVecVal(BAD, W)] * (n - len(leaves))
        b = 0
        while len(leaves) > 1:
            c = z3.Extract(b, b, i) == 1
            leaves = [x if x.eq(y) else z3.If(c, y, x) for x, y in zip(leaves[::2], leaves[1::2])]
            b += 1
        r = leaves[0]
        hi = z3.LShR(i, b) if b < W else None
        return z3.If(hi == 0, r, z3.BitVecVal(BAD, W)) if hi is not None else r

    def num(self, k):
        return z3.BitVecVal(int(k), W)

    def eq(self, a, b):
        a, b = (self.num(x) if isinstance(x, (int, np.integer)) else x for x in (a, b))
        return a == b

    def lt(self, a, n):
        return z3.ULT(a if not isinstance(a, int) else self.num(a), n)

    def all(self, *c):
        return z3.And(*c)

    def any(self, *c):
        return z3.Or(*c)

    def neg(self, c):
        return z3.Not(c)

    def implies(self, a, b):
        return z3.Implies(a, b)

    def exactly_one(self, cs):
        return z3.PbEq([(c, 1) for c in cs], 1)


class Real:
    symbolic = False

    def __init__(self, values):
        self.values = values

    def var(self, name, size):
        return int(self.values.get(name, 0))

    def at(self, tab, *idx):
        for i in idx:
            if not 0 <= i < len(tab):
                return BAD
            tab = tab[i]
        return int(tab)

    def num(self, k):
        return int(k)

    def eq(self, a, b):
        return a == b

    def lt(self, a, n):
        return a < n

    def all(self, *c):
        return all(c)

    def any(self, *c):
        return any(c)

    def neg(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def exactly_one(self, cs):
        return sum(map(bool, cs)) == 1


def decide(facts, case):
    """facts(case) yields (label, claim(L)); returns harness results."""
    info = {"claims": 0, "twins": 0, "degenerate": 0, "elements": 0}
    for label, claim in facts(case):
        if claim is True or claim is False:  # settled while reading the tables
            info["claims"] += 1
            if not claim:
                return [{"msg": label, "values": {"label": label}}], info
            continue
        L = Sym()
        goal = claim(L)
        names = {}
        m = solve.prove(L.axioms, goal)
        info["claims"] += 1
        if not solve.reachable(L.axioms):
            raise solve.Inconclusive("vacuous: " + label)
        info["twins"] += 1
        if m is not None:
            names = {d.name(): m[d].as_long() for d in m.decls()}
            return [{"msg": "%s fails at %s" % (label, names), "values": dict(names, label=label)}], info
    return [], info


def replay(facts, case, values):
    for label, claim in facts(case):
        if claim is False:
            return label
        if claim is True or label != values.get("label"):
            continue
        if not claim(Real(values)):
            return "%s fails at %s" % (label, {k: v for k, v in values.items() if k != "label"})
    return None
