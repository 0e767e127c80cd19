"""Actions and axis utilities keep the type of a signal and its exact values."""
import jax.numpy as jnp
import numpy as np

from lib import oracle, sym
from lib.cfg import ORDER, SPACE, SUBS, WALL, groups
from lib.grids import uniq
from lib.oracle import Violation

EXPLAIN = (
    "The jaxprs of Group.action and of the axis utilities on symbolic signals of every numeric type are executed; a conversion "
    "that can lose digits is an uninterpreted function. z3 decides that every output entry is exactly the input entry "
    "(or zero) the action puts there, for all values of the type; the type of the output must be that of the input."
)
BOUNDS = (
    "float32, float16, bfloat16, signed and unsigned integers of 8 to 32 bits and booleans; all groups, on the grid, on the "
    "group and with acting and domain subgroups; sides 1..3; merging, splitting and moving axes of tensors of rank 3..5"
)
TOLERANCE = (0, 0)
DTYPES = ("float32", "float16", "bfloat16", "int8", "int16", "int32", "uint8", "uint16", "uint32", "bool")


def cases(tier, seed):
    out = []
    for i, g in enumerate(WALL + SPACE):
        d = 3 if g in SPACE else 2
        cost = {"Oh": 40, "O": 12}.get(g, 3)
        for j, dt in enumerate(DTYPES):
            out.append({"group": g, "dtype": dt, "kind": "grid", "n": 3 if d == 2 else 2, "cost": cost})
            for sub in SUBS[g]:
                if tier == "quick" and d == 3 and (g == "Oh" or sub != SUBS[g][(i + j) % len(SUBS[g])]):
                    continue
                out.append({"group": g, "dtype": dt, "kind": "group", "acting": sub, "n": 2, "cost": cost})
                out.append({"group": g, "dtype": dt, "kind": "group", "domain": sub, "n": 2, "cost": cost})
    for dt in DTYPES:
        for r in (3, 4, 5):
            for i in range(r):
                for j in range(r):
                    out.append({"util": "merge_axes", "dtype": dt, "r": r, "i": i, "j": j})
                    out.append({"util": "move_axis_to_left_of", "dtype": dt, "r": r, "i": i, "j": j})
                out.append({"util": "split_axes", "dtype": dt, "r": r, "i": i, "j": 2})
    return [c for c in uniq(out) if c.get("util") != "merge_axes" or c["i"] != c["j"]]


def typed(case, ctx, shape):
    x = ctx.var("x", shape)
    if ctx.symbolic:
        for p in x.ravel():
            sym.KIND[next(iter(p.d))[0]] = case["dtype"]
    else:  # a value of the type
        x = x.astype(jnp.dtype(case["dtype"])).astype("float64")
    return x


def run(case, ctx, fn, x, what):
    dt = jnp.dtype(case["dtype"])
    got = fn(jnp.zeros(np.shape(x), dt))
    if got.dtype != dt:
        raise Violation("%s turns %s into %s" % (what, dt.name, got.dtype))
    return ctx.call(fn, x, what=what, dtype=case["dtype"])


def sides(case, ctx):
    if "util" in case:
        from groco import utils

        r, i, j = case["r"], case["i"], case["j"]
        shape = [2, 3, 4, 2, 3][:r]
        if case["util"] == "split_axes":
            shape[i] = 4
        x = typed(case, ctx, shape)
        fn = getattr(utils, case["util"])
        y = run(case, ctx, lambda t: fn(t, j, i) if case["util"] == "split_axes" else fn(t, i, j), x, case["util"])
        if case["util"] == "split_axes":
            want = x.reshape(shape[:i] + [2, 2] + shape[i + 1:])
        elif case["util"] == "merge_axes":
            want = oracle.merge_group_axis(x, i, j)
        else:
            want = oracle.move_left_of(x, i, j) if i != j else x
        yield case["util"], y, want
        return
    g = groups()[case["group"]]
    d = 3 if case["group"] in SPACE else 2
    n = (case["n"],) * d
    mats = oracle.matrices(g)
    axes = tuple(range(1, 1 + d))
    if case["kind"] == "grid":
        x = typed(case, ctx, (1,) + n)
        y = run(case, ctx, lambda t: g.action(t, spatial_axes=axes, new_group_axis=0, domain_group=None), x, "Group.action (grid)")
        yield "action on the grid", y, np.stack([oracle.act_grid(x, m, axes) for m in mats])
        if g.order > 1:
            yield "no action", y, np.stack([x] * g.order), False
        return
    dom = [int(i) for i in g.subgroup[case.get("domain") or g.name]]
    act = [int(i) for i in g.subgroup[case.get("acting") or g.name]]
    if len(dom) != ORDER[case.get("domain") or g.name]:
        raise Violation("a subgroup lists %d elements" % len(dom))
    x = typed(case, ctx, (1,) + n + (len(dom),))
    kw = {k + "_group": case[k] for k in ("domain", "acting") if k in case}
    y = run(case, ctx, lambda t: g.action(t, spatial_axes=axes, new_group_axis=0, group_axis=d + 1, **kw), x, "Group.action (group)")
    dom = [mats[i] for i in dom]
    yield "action on the group", y, np.stack([oracle.transform_kernel(x, mats[i], dom, axes, d + 1) for i in act])
