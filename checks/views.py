"""What each party of a protocol got to see: every array it computed or was sent,
and what it could learn from those with little effort."""

import itertools

import numpy as np

from mplang.edsl import registry

SEEN = [None]       # rank -> list of arrays, while a run is observed


def arrays(v):
    """The numeric arrays a value consists of."""
    if hasattr(v, "unwrap"):
        v = v.unwrap()
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays(x)]
    if isinstance(v, bytes):
        return [np.frombuffer(v, np.uint8)] if v else []
    if isinstance(v, np.ndarray) and v.dtype == object:
        return [a for x in v.ravel().tolist() for a in arrays(x)]
    try:
        a = np.asarray(v)
    except Exception:
        return []
    return [a] if a.dtype.kind in "iufb" and a.size else []


def watch():
    """Record the results of every tensor, crypto and field operation by party."""
    for op in [o for o in registry._IMPL_REGISTRY
               if o.split(".")[0] in ("tensor", "crypto", "field")]:
        real = registry.get_impl(op)

        def impl(interp, *a, real=real):
            out = real(interp, *a)
            if SEEN[0] is not None:
                st = interp.get_dialect_state("simp")
                rank = getattr(st, "rank", None)
                if rank is not None:
                    SEEN[0].setdefault(rank, []).extend(arrays(out))
            return out

        registry.register_impl(op, impl)


def words(a):
    """The 8-byte words of an array, at every byte offset."""
    b = np.frombuffer(np.ascontiguousarray(a).tobytes(), np.uint8)
    if len(b) < 8:
        return np.zeros(0, np.uint64)
    w = np.lib.stride_tricks.sliding_window_view(b, 8)
    return np.ascontiguousarray(w).view(np.uint64).ravel()


def strong(w):
    """Words random enough not to occur by chance."""
    b = np.ascontiguousarray(w).view(np.uint8).reshape(-1, 8)
    return np.array([len(set(r)) > 4 and len(set(r) - {0, 255}) > 3 for r in b.tolist()], bool)


def elements(a):
    """A secret array as rows of 8-byte words; None if its elements are smaller."""
    a = np.ascontiguousarray(a)
    if a.dtype == np.uint8:
        if a.ndim < 2 or a.shape[-1] < 8:
            return None
        a = a.reshape(-1, a.shape[-1])[:, :a.shape[-1] // 8 * 8]
        return np.ascontiguousarray(a).view(np.uint64)
    if a.dtype.itemsize != 8:
        return None
    return a.view(np.uint64).reshape(-1, 1)


def distinct(seen):
    out, had = [], set()
    for a in seen:
        key = (a.dtype.str, a.shape, a.tobytes())
        if key not in had:
            had.add(key)
            out.append(a)
    return out


def learns(seen, secret, hide):
    """How the holder of `seen` learns an element of `secret` where `hide`: None if
    neither directly nor by adding or xoring up to three aligned arrays, or two
    elements of one."""
    e = elements(secret)
    if e is None or not hide.any():
        return None
    hide = np.repeat(hide, len(e) // len(hide))
    mine = e[hide]
    ok = strong(mine.ravel())
    pool = np.unique(mine.ravel()[ok])
    if not len(pool):
        return None
    for a in seen:
        if np.isin(words(a), pool).any():
            return "in the clear"
    n, m = e.shape
    rows = np.flatnonzero(hide)
    if m == 1 and len(rows) > 1:
        ij = [(i, j) for i in rows for j in rows if i != j]
        for f in (np.subtract, np.bitwise_xor):
            d = np.array([f(e[i, 0], e[j, 0]) for i, j in ij], np.uint64)
            d = np.unique(d[strong(d)])
            for a in seen:
                if a.dtype.itemsize == 8 and a.dtype.kind in "iu" and 1 < a.size <= 64:
                    x = a.view(np.uint64).ravel()
                    if np.isin(f(x[:, None], x[None, :]).ravel(), d).any():
                        return "up to a common mask"
    # aligned: same number of elements
    al = []
    for a in seen:
        w = elements(a)
        if w is not None and w.shape == e.shape and strong(w.ravel()).any():
            al.append(w)
    al = al[:24]
    good = np.zeros(e.shape, bool)
    good[hide] = ok.reshape(mine.shape)
    for c in (2, 3):
        for g in itertools.combinations(al, c):
            x = g[0]
            for y in g[1:]:
                x = x ^ y
            if ((x == e) & good).any():
                return f"by xoring {c} of the arrays it has"
            for sg in itertools.product((1, -1), repeat=c):
                x = sum(np.uint64(s % (1 << 64)) * y for s, y in zip(sg, g))
                if ((x == e) & good).any():
                    return f"by adding {c} of the arrays it has"
    return None


def holds(seen, private):
    """Whether `private`, a list of small numbers, is an array in `seen`."""
    p = np.asarray(private).ravel()
    for a in seen:
        if a.size == p.size and a.dtype.kind in "iub":
            if np.array_equal(a.ravel().astype(np.int64), p.astype(np.int64)):
                return True
    return False
