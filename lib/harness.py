"""Contexts (symbolic / real), case runner, replay, evidence."""
import contextlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from lib import boot  # noqa: F401
import jax
import jax.numpy as jnp
import keras

from lib import jaxsym, solve, sym
from lib.oracle import Violation

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")


class Skip(Exception):
    """The case is outside the property (e.g. the documented ValueError is raised)."""


# ------------------------------------------------------------------ contexts
class SymCtx:
    """Inputs are symbolic; calls are traced to a jaxpr and executed symbolically."""

    symbolic = True

    def __init__(self, validate=False):
        self.vars = {}
        self.encoded = set()
        self.prims = 0
        self.validate = validate
        self.validated = 0

    def var(self, name, shape):
        shape = tuple(int(s) for s in shape)
        if name not in self.vars:
            self.vars[name] = sym.var_array(name, shape)
        a = self.vars[name]
        assert a.shape == shape, (name, a.shape, shape)
        return a

    def call(self, fn, *arrays, what=None, dtype="float32", mode=None):
        arrays = [np.asarray(a) for a in arrays]
        with self.building() if mode != "jit" else contextlib.nullcontext():
            tr = jaxsym.Traced(fn, [a.shape for a in arrays], dtype, mode)
        self.prims += len(tr.closed.jaxpr.eqns)
        if what:
            self.encoded.add(what)
        out = tr(*[jaxsym.obj(a) for a in arrays])
        if self.validate and dtype == "float32":
            self.validate = False
            self._validate(fn, arrays, out)
        return out

    def _validate(self, fn, arrays, out):
        """The encoding agrees with the real code on concrete integers (exactly)."""
        rng = np.random.default_rng(7)
        env = {}
        for a in self.vars.values():
            for p in a.ravel():
                env[next(iter(p.d))[0]] = int(rng.integers(-3, 4))

        def conc(a):
            r = np.array([float(sym.evaluate(p, env)) for p in np.asarray(a).ravel()])
            return r.reshape(np.asarray(a).shape)

        ref = jax.tree_util.tree_leaves(fn(*[jnp.asarray(conc(a), "float32") for a in arrays]))
        got = jax.tree_util.tree_leaves(out)
        for r, g in zip(ref, got):
            g = np.asarray(g, dtype=object)
            if _has_uf(g):
                continue
            c = conc(g)
            if c.shape != np.shape(r) or not np.allclose(c, np.asarray(r), rtol=1e-4, atol=1e-4):
                raise solve.Inconclusive("the encoding disagrees with JAX on concrete values")
        self.validated += 1

    @contextlib.contextmanager
    def building(self):
        with jax.disable_jit():
            yield

    def layer(self, layer, weights, x):
        nt = [v.value for v in layer.non_trainable_variables]
        self.encoded.add(type(layer).__name__ + ".call")
        return self.call(
            lambda *a: layer.stateless_call(list(a[:-1]), nt, a[-1])[0], *weights, x
        )


class RealCtx:
    """Inputs are concrete; calls run the real code on real JAX."""

    symbolic = False

    def __init__(self, values):
        self.values = values
        self.rng = np.random.default_rng(3)
        self.cache = {}

    def var(self, name, shape):
        shape = tuple(int(s) for s in shape)
        if name in self.cache:
            return self.cache[name]
        if name in self.values:
            v = np.array(self.values[name], dtype="float64").reshape(shape)
        elif self.values:
            v = np.zeros(shape)
        else:  # no particular values needed: any will do
            v = self.rng.integers(-4, 5, shape).astype("float64")
        self.cache[name] = v
        return v

    def call(self, fn, *arrays, what=None, dtype="float32", mode=None):
        fn = jax.jit(fn) if mode == "jit" else fn
        out = fn(*[jnp.asarray(np.asarray(np.asarray(a, dtype="float64"), dtype=jnp.dtype(dtype))) for a in arrays])
        return jax.tree_util.tree_map(lambda o: np.asarray(o, dtype="float64"), out)

    @contextlib.contextmanager
    def building(self):
        yield

    def layer(self, layer, weights, x):
        for v, w in zip(layer.trainable_variables, weights):
            v.assign(np.asarray(w, dtype="float32"))
        return np.asarray(layer(jnp.asarray(np.asarray(x, dtype="float32"))), dtype="float64")


def _has_uf(a):
    seen, work = set(), [p for p in np.asarray(a, dtype=object).ravel() if isinstance(p, sym.Poly)]
    while work:
        p = work.pop()
        for i in p.ids():
            if i in sym.ATOMS and i not in seen:
                seen.add(i)
                if sym.ATOMS[i][0] == "uf":
                    return True
                work += solve._atom_polys(sym.ATOMS[i])
    return False


# ------------------------------------------------------------------ one case
class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def pairs_of(item):
    label, lhs, rhs = item[:3]
    expect = item[3] if len(item) > 3 else True
    return label, np.asarray(lhs, dtype=object), np.asarray(rhs, dtype=object), expect


def values_of(ctx, env):
    vals = {}
    for nm, a in ctx.vars.items():
        f = [env.get(next(iter(p.d))[0], 0) for p in a.ravel()]
        if any(f):
            vals[nm] = [float(x) for x in f]
    return vals or {"_": [0.0]}


def decide_sides(mod, case, validate):
    """Symbolic decision of one case.  Returns (violations, info)."""
    sym.reset()
    ctx = SymCtx(validate=validate)
    info = {"claims": 0, "twins": 0, "degenerate": 0, "elements": 0}
    viol = []
    try:
        for item in mod.sides(case, ctx):
            label, lhs, rhs, expect = pairs_of(item)
            if lhs.shape != rhs.shape:
                if expect:
                    viol.append({"msg": "%s: shape %s, expected %s" % (label, lhs.shape, rhs.shape), "values": {}})
                    break
                info["twins"] += 1
                continue
            if not expect:
                # vacuity guard: this equality is false, the solver must refute it
                # (not always: a 1x1 output centred on the origin is symmetric by itself)
                info["twins" if solve.refuted(lhs, rhs) else "degenerate"] += 1
                continue
            r = solve.prove_equal(lhs, rhs)
            info["claims"] += 1
            info["elements"] += lhs.size
            if r is not None:
                idx = np.unravel_index(r["index"], lhs.shape) if lhs.shape else ()
                viol.append(
                    {
                        "msg": "%s differs at %s %s" % (label, tuple(int(i) for i in idx), r.get("note", "")),
                        "values": values_of(ctx, r["env"]),
                    }
                )
                break
    except Violation as v:
        viol.append({"msg": str(v), "values": {}})
    info["prims"] = ctx.prims
    info["encoded"] = sorted(ctx.encoded)
    info["validated"] = ctx.validated
    return viol, info


def replay_sides(mod, case, values):
    ctx = RealCtx({k: v for k, v in values.items()})
    try:
        for item in mod.sides(case, ctx):
            label, lhs, rhs, expect = pairs_of(item)
            if not expect:
                continue
            if lhs.shape != rhs.shape:
                return "%s: shape %s, expected %s" % (label, lhs.shape, rhs.shape)
            l, r = lhs.astype("float64"), rhs.astype("float64")
            if l.size == 0:
                continue
            rtol, atol = getattr(mod, "TOLERANCE", (1e-4, 2e-4))
            bad = ~np.isclose(l, r, rtol=rtol, atol=atol, equal_nan=True)
            if bad.any():
                i = tuple(int(k) for k in np.argwhere(bad)[0]) if l.shape else ()
                return "%s at %s: %r, expected %r" % (label, i, l[i], r[i])
    except Violation as v:
        return str(v)
    except Skip:
        return None
    except Exception as e:  # the real code fails on a configuration the property covers
        return "raised %s: %s" % (type(e).__name__, str(e)[:300])
    return None


def run_case(mod, case, validate=False):
    t = time.time()
    before = dict(solve.STATS)
    res = {"case": case, "status": "ok", "violations": []}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(case.get("timeout", 400)))
    try:
        decide = getattr(mod, "decide", None)
        viol, info = decide(case) if decide else decide_sides(mod, case, validate)
        res["info"] = info
        if viol:
            res["status"] = "violation"
            res["violations"] = viol
    except Skip as e:
        res["status"] = "skip"
        res["why"] = str(e)
    except (sym.Unsupported, solve.Inconclusive, Timeout) as e:
        res["status"] = "inconclusive"
        res["why"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        # decided by the replay on the real code
        res["status"] = "violation"
        res["violations"] = [
            {
                "msg": "raised %s: %s" % (type(e).__name__, str(e)[:300]),
                "values": {},
                "tb": traceback.format_exc()[-1500:],
            }
        ]
    finally:
        signal.alarm(0)
    res["wall"] = time.time() - t
    res["stats"] = {k: solve.STATS[k] - before.get(k, 0) for k in solve.STATS}
    return res


# ------------------------------------------------------------------ workers
_MOD = None
_COUNT = [0]
_DONE = []  # cases this worker decided so far, for counterexamples that depend on them
HISTORY = 80


def _init(modname):
    global _MOD
    _MOD = importlib.import_module(modname)
    if getattr(_MOD, "FAST", True):
        jaxsym.install_fast_eager()


def _work(case):
    _COUNT[0] += 1
    validate = bool(case.get("validate")) or _COUNT[0] % 12 == 1
    r = run_case(_MOD, case, validate)
    if r["status"] == "violation":
        r["history"] = _DONE if len(_DONE) <= 2 * HISTORY else _DONE[:HISTORY] + _DONE[-HISTORY:]
    _DONE.append(case)
    r["prims_seen"] = dict(jaxsym.PRIMS_SEEN)
    jaxsym.PRIMS_SEEN.clear()
    return r


def case_key(case):
    return json.dumps({k: v for k, v in case.items() if k not in ("cost", "validate", "timeout")}, sort_keys=True)


def known_findings(prop):
    out = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                case, what = rest.split(" :: ", 1)
                assert case.startswith("case=")
                out[case_key(json.loads(case[5:]))] = what
    return out


def main(prop, tier, seed):
    import concurrent.futures as cf
    import multiprocessing as mp

    t0 = time.time()
    modname = "checks." + prop
    mod = importlib.import_module(modname)
    cases = mod.cases(tier, seed)
    keys = [case_key(c) for c in cases]
    assert len(set(keys)) == len(keys), "duplicate cases"
    known = known_findings(prop)
    for k in known:
        assert k in keys or tier != "thorough", "known finding not among the cases: " + k
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get("cost", 1))
    results = []
    violation = None
    errors = []
    nproc = min(8, os.cpu_count() or 1, max(1, len(cases)))
    budget = float(os.environ.get("VERIF_BUDGET", "820" if tier == "quick" else "7000"))
    ex = cf.ProcessPoolExecutor(nproc, mp_context=mp.get_context("spawn"), initializer=_init, initargs=(modname,))
    os.makedirs(os.path.join(OUT, prop), exist_ok=True)
    nrep = 0
    try:
        futs = {ex.submit(_work, cases[i]): i for i in order}
        for f in cf.as_completed(futs, timeout=budget):
            r = f.result()
            results.append(r)
            if r["status"] == "inconclusive":
                errors.append("%s: %s" % (case_key(r["case"]), r["why"]))
            if r["status"] == "violation":
                for v in r["violations"]:
                    nrep += 1
                    path = os.path.join(OUT, prop, "cex%d.json" % nrep)
                    spec = {"property": prop, "case": r["case"], "values": v["values"], "msg": v["msg"], "tb": v.get("tb", "")}
                    json.dump(spec, open(path, "w"))
                    if len(errors) > 8:  # nothing reproduces: no more of it
                        break
                    rc, msg = replay_process(prop, path)
                    k = case_key(r["case"])
                    if rc == 0 and r.get("history"):
                        # the layer may depend on the ones used before it: replay those as well
                        spec["history"] = r["history"]
                        json.dump(spec, open(path, "w"))
                        rc, msg = replay_process(prop, path)
                    if rc == 1 and k in known:
                        r["known"] = True
                        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
                    elif rc == 1:
                        violation = (path, v["msg"], msg, k)
                    else:
                        errors.append("counterexample does not reproduce (%s): %s %s" % (k, v["msg"], msg))
                if violation or len(errors) > 8:
                    break
    except cf.TimeoutError:
        errors.append("time budget of %.0f s used up" % budget)
    except Exception as e:
        errors.append("harness: %s: %s" % (type(e).__name__, e))
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:  # they would keep the caller's pipes open
            p.kill()
        for p in procs:
            p.join(5)
    ok = [r for r in results if r["status"] == "ok"]
    if not violation and not errors:
        claims = sum(r["info"]["claims"] for r in ok)
        if claims == 0:
            errors.append("vacuous: no claim was decided")
        tw = sum(r["info"].get("twins", 0) for r in ok)
        if tw < 2 * sum(r["info"].get("degenerate", 0) for r in ok):
            errors.append("vacuous: too many false equalities are not refuted")
        need = getattr(mod, "MIN_OK", 0.5)
        if len(ok) < need * len(cases):
            errors.append("vacuous: only %d of %d cases applied" % (len(ok), len(cases)))
    write_evidence(mod, prop, tier, seed, cases, results, violation, errors, time.time() - t0)
    tot = totals(results)
    print(
        "%s %s: %d cases (%d decided, %d skipped), %d claims, %d queries, solver %.1f s, wall %.1f s"
        % (prop, tier, len(cases), len(ok), sum(r["status"] == "skip" for r in results),
           sum(r["info"]["claims"] for r in ok), tot["queries"], tot["solver_s"], time.time() - t0)
    )
    if violation:
        print("counterexample: %s" % violation[3])
        print("solver: %s" % violation[1])
        print("real code: %s" % violation[2])
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        sys.stdout.flush()
        os._exit(1)
    if errors:
        for e in errors[:10]:
            print("ERROR " + e)
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


def totals(results):
    t = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            t[k] = t.get(k, 0) + v
    for k in ("queries", "solver_s", "unsat", "sat", "unknown", "terms"):
        t.setdefault(k, 0)
    return t


def replay_process(prop, path):
    """Replay in a fresh process, on real JAX, nothing patched."""
    try:
        p = subprocess.run(
            [sys.executable, "-B", os.path.join(ROOT, "lib", "main.py"), prop, "--replay", path],
            capture_output=True, text=True, timeout=400,
        )
    except subprocess.TimeoutExpired:
        return 2, "replay ran out of time"
    lines = [l for l in p.stdout.splitlines() if l.startswith("REPLAY")]
    return p.returncode, (lines[-1] if lines else p.stdout[-300:] + p.stderr[-600:])


def replay(prop, path):
    mod = importlib.import_module("checks." + prop)
    spec = json.load(open(path))
    f = getattr(mod, "replay", None) or (lambda case, values: replay_sides(mod, case, values))
    t0 = time.time()
    for case in spec.get("history", []):
        if time.time() - t0 < 240:
            f(case, {})
    msg = f(spec["case"], spec["values"])
    if msg:
        print("REPLAY violated: " + msg.replace("\n", " "))
        return 1
    print("REPLAY holds")
    return 0


def write_evidence(mod, prop, tier, seed, cases, results, violation, errors, wall):
    tot = totals(results)
    ok = [r for r in results if r["status"] == "ok"]
    enc, prims = set(), {}
    for r in results:
        enc.update(r.get("info", {}).get("encoded", []))
        for k, v in r.get("prims_seen", {}).items():
            prims[k] = prims.get(k, 0) + v
    samples = [r["case"] for r in sorted(ok, key=lambda r: -r["wall"])[:3]]
    cov = {
        "explanation": mod.EXPLAIN,
        "functions_encoded": sorted(enc | set(getattr(mod, "ENCODES", []))),
        "bounds": mod.BOUNDS,
        "cases": len(cases),
        "cases_decided": len(ok),
        "cases_outside_the_property": sum(r["status"] == "skip" for r in results),
        "cases_at_a_narrow_bound": sum(r["info"].get("bound") == "narrow" for r in ok),
        "claims_decided": sum(r["info"]["claims"] for r in ok),
        "scalar_equalities": sum(r["info"].get("elements", 0) for r in ok),
        "vacuity_twins_refuted": sum(r["info"].get("twins", 0) for r in ok),
        "degenerate_cases": sum(r["info"].get("degenerate", 0) for r in ok),
        "paths": sum(r["info"].get("paths", 0) for r in ok),
        "jaxpr_equations_executed": sum(prims.values()),
        "primitives_executed": prims,
        "cases_cross_validated_against_jax": sum(r["info"].get("validated", 0) for r in ok),
        "solver_queries": tot["queries"],
        "solver_unsat": tot["unsat"],
        "solver_sat": tot["sat"],
        "solver_unknown": tot["unknown"],
        "solver_s": round(tot["solver_s"], 3),
        "known_findings_seen": sum(bool(r.get("known")) for r in results),
        "errors": errors[:10],
        "samples": samples,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMES", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)


ASSUMPTIONS = [
    "floats are treated as exact reals: rounding, overflow and NaN propagation are outside the claim",
    "JAX backend; the jaxpr JAX traces from the code is executed faithfully by XLA",
    "transcendental functions are uninterpreted",
]
