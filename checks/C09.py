"""Transposed group convolutions are equivariant in their documented scope."""
from lib import grids
from lib.cfg import equivariance_sides

EXPLAIN = (
    "The jaxpr of each real transposed layer is executed on symbolic input, kernel and bias; z3 "
    "decides L(g.x) == g.L(x) entry by entry for generators (thorough: all elements) of the "
    "symmetry group, with the independent action of lib/oracle.py."
)
BOUNDS = (
    "documented scope only (stride 1, or stride == kernel size with valid_equiv); 2D: all groups x "
    "subgroups, sizes 1..5, kernels 1..4; 3D: sizes 2..3, kernels 1..3. Even kernels with same_equiv "
    "and stride 1 only as a known finding; output_padding outside."
)


def cases(tier, seed):
    out = grids.transposed(tier)
    if tier == "thorough":
        for c in out:
            c["all"] = 1
    out.append({"cls": "GroupConv2DTranspose", "group": "P4", "n": 3, "k": 2, "s": 1, "pad": "same_equiv"})
    return out


def sides(case, ctx):
    yield from equivariance_sides(case, ctx, case.get("all"))
