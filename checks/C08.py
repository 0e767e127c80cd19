"""Group-to-group convolutions are equivariant."""
from checks.C07 import BOUNDS, EXPLAIN, sides  # noqa: F401
from lib import grids


def cases(tier, seed):
    out = grids.conv2d(False, tier) + grids.conv3d(False, tier)
    if tier == "thorough":
        for c in out:
            c["all"] = 1
    out.append({"cls": "GroupConv2D", "group": "P4", "n": 3, "k": 2, "F": 2, "C": 2, "groups": 2})
    return out
