"""Group pooling is equivariant."""
from lib import grids
from lib.cfg import equivariance_sides

EXPLAIN = (
    "The jaxpr of each real pooling layer is executed on a symbolic signal (max as an exact symbolic "
    "maximum with solver axioms, mean as exact rationals); z3 decides L(g.x) == g.L(x) entry by entry "
    "for generators (thorough: all elements) of the chosen subgroup, with the independent action."
)
BOUNDS = (
    "2D: all groups x subgroups, input sizes 1..7, pool sizes 1..4, strides default and 1..3 (thorough 8/5/4), "
    "rectangular and anisotropic cases; 3D: all groups x subgroups, sizes 2..5, pool sizes 1..3"
)


def cases(tier, seed):
    out = grids.pooling(tier)
    if tier == "thorough":
        for c in out:
            c["all"] = 1
    return out


def sides(case, ctx):
    yield from equivariance_sides(case, ctx, case.get("all"))
