"""Lifting convolutions are equivariant."""
from lib import grids
from lib.cfg import equivariance_sides

EXPLAIN = (
    "Each configuration builds the real layer; the jaxpr traced from it is executed on symbolic "
    "input, kernel and bias; for a generating set of the acting group (thorough: every element) "
    "z3 decides L(g.x) == g.L(x) entry by entry over all real values. The action of g is an "
    "independent one: signed permutation matrices read off from the repository's grid action."
)
BOUNDS = (
    "2D: all 7 groups x subgroups, input sizes 1..7, kernels 1..4, strides 1..4 (thorough 9/5/5), "
    "rectangular and anisotropic cases, dilation 1..4; 3D: 4 groups x subgroups, sizes 1..4, "
    "kernels 1..3, strides 1..3; channels, filters, batch <= 3. Channel groups (the Keras "
    "argument groups > 1) only as a known finding."
)
LIFT = True


def cases(tier, seed):
    out = grids.conv2d(LIFT, tier) + grids.conv3d(LIFT, tier)
    if tier == "thorough":
        for c in out:
            c["all"] = 1
    out.append({"cls": "GroupConv2D", "group": "P4", "n": 3, "k": 2, "F": 2, "C": 2, "groups": 2, **({"lift": 1} if LIFT else {})})
    return out


def sides(case, ctx):
    yield from equivariance_sides(case, ctx, case.get("all"))
