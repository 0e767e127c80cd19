"""SMT encoding of symbolic values and the equality queries that decide the properties."""
import random
import time
from fractions import Fraction

import numpy as np

from lib.boot import z3
from lib import sym
from lib.sym import ATOMS, Bool, Poly, Unsupported

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "terms": 0}


class Inconclusive(Exception):
    pass


def _check(solver):
    t = time.time()
    r = solver.check()
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    STATS[str(r)] += 1
    return r


class Encoder:
    """Values -> z3 real terms.  With nonlinear=False each product of variables is one fresh
    real: a sound abstraction, and exact for equality of polynomials (distinct monomials are
    linearly independent)."""

    def __init__(self, nonlinear=False):
        self.nonlinear = nonlinear
        self.vars = {}
        self.monos = {}
        self.axioms = []
        self.done = set()
        self.used_atoms = set()

    def var(self, i):
        v = self.vars.get(i)
        if v is None:
            v = self.vars[i] = z3.Real("v%d" % i)
            if i in ATOMS:
                self.used_atoms.add(i)
        return v

    def mono(self, m):
        if len(m) == 1:
            return self.var(m[0])
        t = self.monos.get(m)
        if t is None:
            for i in m:
                self.var(i)
            if self.nonlinear:
                t = self.var(m[0])
                for i in m[1:]:
                    t = t * self.var(i)
            else:
                t = z3.Real("p" + "_".join(map(str, m)))
            self.monos[m] = t
        return t

    def term(self, p):
        if not isinstance(p, Poly):
            return z3.RealVal(str(sym.num(p)))
        args = []
        STATS["terms"] += len(p.d)
        for m, c in p.d.items():
            if not m:
                args.append(z3.RealVal(str(c)))
            elif c == 1:
                args.append(self.mono(m))
            else:
                args.append(z3.RealVal(str(c)) * self.mono(m))
        if not args:
            return z3.RealVal(0)
        if len(args) == 1:
            return args[0]
        n = len(args)
        arr = (z3.Ast * n)(*[a.ast for a in args])
        ctx = args[0].ctx
        return z3.ArithRef(z3.Z3_mk_add(ctx.ref(), n, arr), ctx)

    def bool(self, b):
        if not isinstance(b, Bool):
            return z3.BoolVal(bool(b))
        if b.op == "not":
            return z3.Not(self.bool(b.args[0]))
        if b.op == "and":
            return z3.And(*[self.bool(x) for x in b.args])
        t = self.term(b.args[0])
        return {"lt": t < 0, "le": t <= 0, "eq": t == 0}[b.op]

    def atom_axioms(self):
        """Defining axioms of every atom reachable from the encoded terms."""
        out = []
        ufs = {}
        work = list(self.used_atoms)
        while work:
            i = work.pop()
            if i in self.done:
                continue
            self.done.add(i)
            a = ATOMS[i]
            v = self.var(i)
            before = set(self.used_atoms)
            if a[0] == "max":
                ts = [self.term(p) for p in a[1]]
                out += [v >= t for t in ts]
                out.append(z3.Or(*[v == t for t in ts]))
            elif a[0] == "ite":
                c = self.bool(a[1])
                out.append(z3.Implies(c, v == self.term(a[2])))
                out.append(z3.Implies(z3.Not(c), v == self.term(a[3])))
            else:
                k = (a[1], len(a[2]))
                f = ufs.get(k)
                if f is None:
                    f = ufs[k] = z3.Function(
                        "uf_%s_%d" % k, *([z3.RealSort()] * (len(a[2]) + 1))
                    )
                out.append(v == f(*[self.term(p) for p in a[2]]))
            work += list(set(self.used_atoms) - before)
        return out


def _pairs(lhs, rhs):
    lhs = np.asarray(lhs, dtype=object).ravel()
    rhs = np.asarray(rhs, dtype=object).ravel()
    return list(zip(lhs, rhs))


def _bad_number(x):
    return isinstance(x, (float, np.floating)) and not np.isfinite(x)


def prove_equal(lhs, rhs, tol=1e-4, timeout_ms=120000, seed=1):
    """Decide lhs == rhs (element-wise, all variable values).

    Returns None if it holds, else a dict {"env": {var id: Fraction}, "index": flat index}.
    """
    pairs = _pairs(lhs, rhs)
    for k, (l, r) in enumerate(pairs):
        if _bad_number(l) or _bad_number(r):
            if not (_bad_number(l) and _bad_number(r) and str(l) == str(r)):
                return {"env": {}, "index": k, "note": "non-finite %s vs %s" % (l, r)}
    pairs = [(l, r) for l, r in pairs if not _bad_number(l)]
    if not pairs:
        return None
    CH = 20000
    chunk, size, failing = [], 0, []
    chunks = []
    for k, (l, r) in enumerate(pairs):
        chunk.append(k)
        size += (len(l.d) if isinstance(l, Poly) else 1) + (len(r.d) if isinstance(r, Poly) else 1)
        if size > CH:
            chunks.append(chunk)
            chunk, size = [], 0
    if chunk:
        chunks.append(chunk)
    for ch in chunks:
        enc = Encoder()
        s = z3.SimpleSolver()
        s.set("timeout", timeout_ms)
        s.add(z3.Or(*[enc.term(pairs[k][0]) != enc.term(pairs[k][1]) for k in ch]))
        r = _check(s)
        if r == z3.unsat:
            continue
        res = _refine(pairs, ch, tol, timeout_ms, seed)
        if res is not None:
            return res
    return None


def refuted(lhs, rhs, timeout_ms=60000):
    """Vacuity guard: the solver finds lhs == rhs refutable (one query)."""
    enc = Encoder()
    s = z3.SimpleSolver()
    s.set("timeout", timeout_ms)
    ps = [(l, r) for l, r in _pairs(lhs, rhs) if not (_bad_number(l) or _bad_number(r))]
    ps = sorted(ps, key=lambda p: getattr(p[0], "d", p[0]) == getattr(p[1], "d", p[1]))[:64]
    if not ps:
        return False
    s.add(z3.Or(*[enc.term(l) != enc.term(r) for l, r in ps]))
    return _check(s) == z3.sat


def _refine(pairs, ch, tol, timeout_ms, seed):
    # narrow down: which elements are refuted by the abstraction alone
    bad = []
    for k in ch:
        l, r = pairs[k]
        enc = Encoder()
        s = z3.SimpleSolver()
        s.add(enc.term(l) != enc.term(r))
        if _check(s) != z3.unsat:
            bad.append(k)
    for n, k in enumerate(bad):
        l, r = pairs[k]
        enc = Encoder()
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.add(enc.term(l) != enc.term(r))
        ax = enc.atom_axioms()
        if ax:
            s.add(*ax)
            res = _check(s)
            if res == z3.unsat:
                continue
        # tolerance: rounding constants in the code, values bounded by 1
        enc2 = Encoder()
        s2 = z3.Solver()
        s2.set("timeout", timeout_ms)
        d = enc2.term(l) - enc2.term(r)
        s2.add(z3.Or(d > z3.RealVal(str(tol)), d < -z3.RealVal(str(tol))))
        s2.add(*enc2.atom_axioms())
        for i, v in enc2.vars.items():
            if i not in ATOMS:
                s2.add(v <= 1, v >= -1)
        for m, v in enc2.monos.items():
            if not any(i in ATOMS for i in m):
                s2.add(v <= 1, v >= -1)
        if _check(s2) == z3.unsat:
            continue
        env = _witness(l, r, timeout_ms, seed)
        if env is None:
            raise Inconclusive("no concrete witness for a refuted element")
        return {"env": env, "index": k}
    return None


def _witness(l, r, timeout_ms, seed):
    """Concrete rational values of the variables on which l and r differ."""
    d = sym.lift(l) - sym.lift(r)
    d = sym.lift(d)
    monos = sorted(d.d, key=lambda m: len(m))
    plain = [m for m in monos if all(i not in ATOMS for i in m)]
    # 1. solver on the support of one smallest differing monomial, other variables zero
    if plain and len(plain) == len(monos):
        supp = set(plain[0])
        sub = Poly({m: c for m, c in d.d.items() if set(m) <= supp})
        enc = Encoder(nonlinear=True)
        s = z3.Solver()
        s.set("timeout", min(timeout_ms, 20000))
        s.add(enc.term(sub) != 0)
        for i in supp:
            s.add(enc.var(i) >= -2, enc.var(i) <= 2)
        if _check(s) == z3.sat:
            m = s.model()
            env = {}
            for i in supp:
                v = m.eval(enc.var(i), model_completion=True)
                env[i] = _frac(v)
            if sym.evaluate(d, env) != 0:
                return env
    # 2. full query with the axioms of the atoms and real products
    allids = set()
    work = [d]
    while work:
        p = work.pop()
        for i in p.ids():
            if i in allids:
                continue
            allids.add(i)
            if i in ATOMS:
                work += _atom_polys(ATOMS[i])
    enc = Encoder(nonlinear=True)
    s = z3.Solver()
    s.set("timeout", min(timeout_ms, 20000))
    dt = enc.term(d)
    s.add(z3.Or(dt > 1, dt < -1))
    s.add(*enc.atom_axioms())
    for i in allids:
        if i not in ATOMS:
            s.add(enc.var(i) >= -8, enc.var(i) <= 8)
    if _check(s) == z3.sat:
        m = s.model()
        env = {}
        for i in allids:
            if i not in ATOMS:
                env[i] = _frac(m.eval(enc.var(i), model_completion=True))
        if sym.evaluate(d, env) != 0:
            return env
    # 3. the solver refuted the equality but gave no usable model: look for one nearby
    rng = random.Random(seed)
    ids = sorted(i for i in allids if i not in ATOMS)
    for _ in range(200):
        env = {i: Fraction(rng.randint(-4, 4)) for i in ids}
        if abs(sym.evaluate(d, env)) > Fraction(1, 100):
            return env
    # roundings only show on numbers with many digits
    for scale in (1, 50000000):
        for _ in range(200):
            env = {i: scale * Fraction(rng.randint(-4 << 20, 4 << 20), 1 << 20) for i in ids}
            if scale > 1:
                env = {i: Fraction(int(v)) for i, v in env.items()}
            if abs(sym.evaluate(d, env)) > (Fraction(1, 600) if scale == 1 else 1):
                return env
    return None


def _atom_polys(a):
    if a[0] == "max":
        return list(a[1])
    if a[0] == "ite":
        out = [a[2], a[3]]
        w = [a[1]]
        while w:
            b = w.pop()
            for x in b.args:
                if isinstance(x, Bool):
                    w.append(x)
                elif isinstance(x, Poly):
                    out.append(x)
        return out
    return [p for p in a[2] if isinstance(p, Poly)]


def _frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def prove(constraints, goal, timeout_ms=120000, names=None):
    """Validity of goal under constraints (z3 terms).  Returns None or a z3 model."""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*constraints)
    s.add(z3.Not(goal))
    r = _check(s)
    if r == z3.unsat:
        return None
    if r == z3.sat:
        return s.model()
    raise Inconclusive("solver answered %s: %s" % (r, s.reason_unknown()))


def reachable(constraints, timeout_ms=60000):
    """Vacuity guard: the constraints have a model."""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*constraints)
    r = _check(s)
    if r == z3.unknown:
        raise Inconclusive("vacuity query unknown")
    return r == z3.sat
