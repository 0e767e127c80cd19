"""Independent reference semantics: plain numpy on arrays of numbers or symbolic values."""
import itertools

import numpy as np


class Violation(Exception):
    """The real code breaks the property (no particular tensor values needed)."""


def dims_of(group):
    return 3 if group.name in ("Oh", "O", "D4h", "D4") else 2


_CACHE = {}


def to_int_grid(a):
    return np.asarray(a).astype(int)


def matrices(group):
    """Signed permutation matrices M_e of the group's elements, read off from what acting on
    a grid does to it: (e.x)(p) = x(M_e^-1 p)."""
    if id(group) in _CACHE:
        return _CACHE[id(group)][1]
    d = dims_of(group)
    n = 3
    idx = np.arange(n**d).reshape((n,) * d)
    out = group.action(
        idx.astype("int32"), spatial_axes=tuple(range(d)), new_group_axis=0, domain_group=None
    )
    out = to_int_grid(out)
    if out.shape != (group.order,) + (n,) * d:
        raise Violation("action of %s on a grid has shape %s" % (group.name, out.shape))
    mats = []
    for e in range(group.order):
        minv = np.zeros((d, d), dtype=int)
        for i in range(d):
            p = [1] * d
            p[i] = 2
            minv[:, i] = np.array(np.unravel_index(out[e][tuple(p)], idx.shape)) - 1
        if sorted(np.abs(minv).ravel()) != [0] * (d * d - d) + [1] * d or (
            np.abs(minv @ minv.T) != np.eye(d, dtype=int)
        ).any():
            raise Violation("element %d of %s is not a symmetry of the grid" % (e, group.name))
        m = np.rint(np.linalg.inv(minv)).astype(int)
        if (act_grid(idx, m, range(d)) != out[e]).any():
            raise Violation("element %d of %s is not a symmetry of the grid" % (e, group.name))
        mats.append(m)
    if len({m.tobytes() for m in mats}) != group.order:
        raise Violation("two elements of %s act in the same way" % group.name)
    _CACHE[id(group)] = (group, mats)
    return mats


def act_grid(x, m, axes):
    """(g.x)(p) = x(M^-1 p), coordinates taken from the centre of the grid."""
    axes = list(axes)
    perm = list(range(x.ndim))
    flips = []
    for i in range(len(axes)):
        j = int(np.nonzero(m[i])[0][0])
        perm[axes[i]] = axes[j]
        if m[i][j] < 0:
            flips.append(axes[i])
    y = x.transpose(perm)
    return np.flip(y, flips) if flips else y


def swaps_axes(m):
    return (np.abs(m) != np.eye(len(m), dtype=int)).any()


def index_of(m, mats):
    for i, w in enumerate(mats):
        if (w == m).all():
            return i
    return None


def inv(m):
    return np.asarray(m).T  # signed permutations are orthogonal


def act_group(x, m, mats, axes, group_axis):
    """(g.x)(h, p) = x(g^-1 h, M_g^-1 p) for a signal on the subgroup with matrices mats."""
    y = act_grid(x, m, axes)
    order = [index_of(inv(m) @ h, mats) for h in mats]
    if any(o is None for o in order):
        raise Violation("elements of a subgroup are not closed under composition")
    return np.take(y, order, axis=group_axis)


def transform_kernel(w, m, dom, axes, group_axis=None):
    """(g.w)(k, q) = w(g^-1 k, M_g^-1 q), zero outside the domain subgroup (matrices dom)."""
    y = act_grid(w, m, axes)
    if group_axis is None:
        return y
    parts = []
    for k in dom:
        i = index_of(inv(m) @ k, dom)
        parts.append(np.take(y, [i], axis=group_axis) if i is not None else None)
    zero = np.zeros_like(np.take(y, [0], axis=group_axis))
    return np.concatenate([zero if p is None else p for p in parts], axis=group_axis)


def generators(mats):
    """A small generating set (indices) of the group of matrices."""
    n = len(mats)
    if n == 1:
        return [0]
    for r in (1, 2, 3):
        for c in itertools.combinations(range(n), r):
            seen = closure([mats[i] for i in c])
            if len(seen) == n:
                return list(c)
    return list(range(n))


def closure(gens):
    seen = {g.tobytes(): g for g in gens}
    work = list(gens)
    while work:
        a = work.pop()
        for b in gens:
            c = a @ b
            if c.tobytes() not in seen:
                seen[c.tobytes()] = c
                work.append(c)
        if len(seen) > 48:
            break
    return seen


# -------------------------------------------------------- padding
def same_padding(n, k, s):
    """Total padding of Keras's built-in 'same': ceil(n / s) outputs."""
    return max((-(-n // s) - 1) * s + k - n, 0)


def equiv_padding(n, k, s, mode, transpose=False):
    """(built-in padding, extra padding) or None if there is no equivariant padding.

    The smallest total padding, at least the built-in amount, that is even and lets the windows
    tile the padded input exactly."""
    built = same_padding(n, k, s) if mode == "same_equiv" else 0
    if transpose and mode == "valid_equiv":
        built = max(s - k, 0)
    for extra in range(0, 2 * s + 1):
        if (n + built + extra - k) % s == 0 and (built + extra) % 2 == 0:
            return built, extra
    return None


def zero_pad(x, pads, axes):
    """pads: (before, after) per axis in axes."""
    cfg = [(0, 0)] * x.ndim
    for a, p in zip(axes, pads):
        cfg[a] = p
    return np.pad(x, cfg, mode="constant", constant_values=0)


# -------------------------------------------------------- axes
def move_left_of(x, moved, target):
    """Remove axis `moved` and put it directly before axis `target`."""
    order = [a for a in range(x.ndim) if a != moved]
    order.insert(order.index(target), moved)
    return x.transpose(order)


def merge_group_axis(x, group_axis, channels_axis):
    """(..., group, channels) -> (..., group * channels), group-major."""
    y = move_left_of(x, group_axis, channels_axis)
    t = channels_axis - (1 if group_axis < channels_axis else 0)
    s = list(y.shape)
    s[t : t + 2] = [s[t] * s[t + 1]]
    return y.reshape(s)


def split_group_axis(y, order, channels_axis, group_axis):
    """Inverse of merge: split channels_axis group-major and move the group to group_axis."""
    s = list(y.shape)
    s[channels_axis : channels_axis + 1] = [order, s[channels_axis] // order]
    return np.moveaxis(y.reshape(s), channels_axis, group_axis)
