import enum
import hashlib

import jax

from spu import api, libspu


class Kind(enum.Enum):
    JAX = 1


def compile(kind, fn, args, kwargs, input_names, input_vis, outputNameGen):
    flat, tree = jax.tree_util.tree_flatten((args, kwargs))
    low = jax.jit(fn, keep_unused=True).lower(*args, **kwargs)
    info = low.out_info
    text = low.as_text()
    code = ("stub-kernel:" + hashlib.sha256(text.encode()).hexdigest()).encode()
    if code not in api.KERNELS:
        comp = low.compile()

        def run(vals, comp=comp, tree=tree):
            a, k = jax.tree_util.tree_unflatten(tree, vals)
            return jax.tree_util.tree_leaves(comp(*a, **k))

        api.KERNELS[code] = run
    outs, _ = jax.tree_util.tree_flatten(info)
    exe = libspu.Executable("k", input_names, outputNameGen(outs), code)
    return exe, info
