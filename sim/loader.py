"""Import hook: mplang modules (and the spu stub) see the simulated world.

Every module under `mplang.` is compiled from the repository's working tree and
executed with a private __builtins__ whose __import__ and open resolve to the
shims; third-party packages keep the real standard library.
"""

from __future__ import annotations

import contextlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import kernel as K
from . import prims, simos

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, "stubs")

PREEMPT = (
    "mplang.backends.simp_worker",
    "mplang.backends.simp_driver",
    "mplang.backends.channel",
    "mplang.backends.spu_state",
    "mplang.backends.store_impl",
    "mplang.backends.tee_impl",
    "mplang.backends.table_impl",
    "mplang.backends.tensor_impl",
    "mplang.runtime",
)


_codes = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        path = self.path
        code = _codes.get(path)
        if code is None:
            with open(path, "rb") as f:
                src = f.read()
            code = _codes[path] = compile(src, path, "exec", dont_inherit=True)
            if module.__name__.startswith(PREEMPT):
                K.watch_code(code)
        module.__dict__["__builtins__"] = prims.make_builtins()
        exec(code, module.__dict__)

    def get_code(self, fullname):
        with open(self.path, "rb") as f:
            return compile(f.read(), self.path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        root = fullname.partition(".")[0]
        if root == "mplang":
            where = path if path is not None else [REPO]
        elif root == "spu":
            where = path if path is not None else [STUBS]
        else:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, where)
        if spec is None:
            return None
        if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


@contextlib.contextmanager
def another_process(*names):
    """Within it, the named modules are imported anew: the same code with module state
    of its own, as another process has it."""
    kept = {n: sys.modules.pop(n) for n in names if n in sys.modules}
    try:
        yield
    finally:
        for n, m in kept.items():
            sys.modules[n] = m
            parent, _, leaf = n.rpartition(".")
            if parent in sys.modules:
                setattr(sys.modules[parent], leaf, m)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    import logging

    logging.disable(logging.CRITICAL)
    from . import net, procs

    net.install()
    procs.install()
