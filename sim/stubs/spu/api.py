import hashlib
import json
import os

import numpy as np

from . import libspu

KERNELS = {}


def _meta(arr, vis, pos):
    return json.dumps({"dtype": str(arr.dtype), "shape": list(arr.shape),
                       "vis": vis.name, "pos": pos}).encode()


def _share(arr, n, vis, rand):
    arr = np.asarray(arr)
    raw = np.frombuffer(arr.tobytes(), dtype=np.uint8)
    out = []
    acc = np.zeros_like(raw)
    for i in range(1, n):
        if vis is libspu.Visibility.VIS_SECRET:
            r = np.frombuffer(rand(i, raw.size), dtype=np.uint8)
        else:
            r = raw
        out.append(r)
        acc = acc + r
    first = raw - acc if vis is libspu.Visibility.VIS_SECRET else raw
    res = []
    for i, c in enumerate([first, *out]):
        s = libspu.Share()
        s.meta = _meta(arr, vis, i)
        s.share_chunks = [c.tobytes()]
        res.append(s)
    return res


def _open(shares):
    # a share belongs to one position of the group
    metas = [json.loads(s.meta) for s in shares]
    pos = [x.pop("pos") for x in metas]
    m = metas[0]
    if any(x != m for x in metas):
        raise RuntimeError("inconsistent share metadata")
    if len(shares) > 1 and pos != list(range(len(shares))):
        raise RuntimeError(f"shares in positions {pos}")
    cs = [np.frombuffer(s.share_chunks[0], dtype=np.uint8) for s in shares]
    raw = cs[0]
    if m["vis"] == "VIS_SECRET":
        for c in cs[1:]:
            raw = raw + c
    return np.frombuffer(raw.tobytes(), dtype=m["dtype"]).reshape(m["shape"]).copy()


class Io:
    def __init__(self, world_size, config):
        self.n = world_size

    def make_shares(self, arr, vis, owner_rank=-1):
        return _share(arr, self.n, vis, lambda i, k: os.urandom(k))

    def reconstruct(self, shares):
        if len(shares) != self.n:
            raise RuntimeError("wrong share count")
        return _open(shares)


class _Shape:
    def __init__(self, dims):
        self.dims = dims


class Runtime:
    def __init__(self, link, config):
        self.link = link
        self.vars = {}
        self.runs = 0

    def set_var(self, name, share):
        self.vars[name] = share

    def get_var(self, name):
        return self.vars[name]

    def del_var(self, name):
        del self.vars[name]

    def run(self, exe):
        fn = KERNELS[exe.code]
        args = []
        for name in exe.input_names:
            s = self.vars[name]
            if json.loads(s.meta)["vis"] != "VIS_SECRET" or self.link.world_size == 1:
                args.append(_open([s]))
                continue
            blob = len(s.meta).to_bytes(4, "big") + s.meta + s.share_chunks[0]
            shares = []
            for b in self.link.all_gather(blob):
                k = int.from_bytes(b[:4], "big")
                t = libspu.Share()
                t.meta = b[4 : 4 + k]
                t.share_chunks = [b[4 + k :]]
                shares.append(t)
            args.append(_open(shares))
        outs = fn(args)
        self.runs += 1
        for name, o in zip(exe.output_names, outs, strict=True):
            def rand(i, k, name=name):
                seed = hashlib.sha256(
                    f"{self.link.id}|{self.runs}|{name}|{i}".encode()
                ).digest()
                return hashlib.shake_128(seed).digest(k)

            sh = _share(np.asarray(o), self.link.world_size,
                        libspu.Visibility.VIS_SECRET, rand)
            self.vars[name] = sh[self.link.rank]


def compile(source, copts=None):
    raise RuntimeError("stub: dynamic-shape SPU kernels are not simulated")
