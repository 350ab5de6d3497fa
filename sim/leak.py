"""What a process holds: tensors, containers reachable from the library, hooks, threads, children, open files, files on disk."""
import atexit
import gc
import logging
import multiprocessing
import multiprocessing.util
import os
import sys
import threading
import types
import weakref

import torch

from . import seams
from . import world as W

PKG = "torchiva"


def _ours(name):
    return isinstance(name, str) and (name == PKG or name.startswith(PKG + "."))


def _leaf(o):
    if isinstance(o, types.ModuleType):
        return not _ours(o.__name__)
    if isinstance(o, type):
        return not _ours(o.__module__)
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)):
        return not _ours(getattr(o, "__module__", None))
    return isinstance(o, (str, bytes, int, float, complex, types.CodeType, torch.Tensor, torch.dtype))


def reachable(roots):
    """How many things the library and its objects hold on to (containers, their elements, functions, caches)."""
    seen, todo, n = set(), list(roots), 0
    while todo and n < 400_000:
        o = todo.pop()
        n += 1
        if id(o) in seen:
            continue
        seen.add(id(o))
        if _leaf(o):
            continue
        if isinstance(o, types.ModuleType):
            todo.extend(v for k, v in list(vars(o).items()) if k not in ("__builtins__", "__warningregistry__"))
        elif isinstance(o, types.FunctionType):
            todo.extend([c.cell_contents for c in o.__closure__ or () if c != types.CellType()])
            todo.extend(o.__defaults__ or ())
            todo.extend((o.__kwdefaults__ or {}).values())
            todo.extend(vars(o).values())
        elif isinstance(o, dict):
            todo.extend(o.values())
            n += len(o)
        elif isinstance(o, (list, tuple, set, frozenset)):
            n += len(o)
            todo.extend(o)
        else:
            todo.extend(gc.get_referents(o))
    return n


class Meter:
    def __init__(self, dirs=()):
        self.dirs = list(dirs)
        self.taken = []

    def take(self, roots=(), mods=(), memory=True):
        t = W._local.task if hasattr(W._local, "task") else None
        W._local.task = None
        try:
            m = {}
            gc.collect()
            if memory:
                ts = [o for o in gc.get_objects() if type(o) is torch.Tensor or type(o) is torch.nn.Parameter]
                m["live tensors"] = len(ts)
                m["bytes held by live tensors"] = sum({v.untyped_storage().data_ptr(): v.untyped_storage().nbytes() for v in ts
                                                      if v.layout == torch.strided and v.device.type == "cpu"}.values())
                del ts
                m["objects held by the library"] = reachable(roots)
                m["hooks"] = sum(len(v) for x in mods for s in x.modules() for k, v in vars(s).items() if k.endswith("_hooks") and v)
            m["things to do at exit"] = atexit._ncallbacks() + len(weakref.finalize._registry) + len(multiprocessing.util._finalizer_registry) \
                + len(threading._threading_atexits)
            m["modules"] = len(sys.modules)
            m["loggers and handlers"] = len(logging.root.manager.loggerDict) + len(logging.root.handlers) + len(logging._handlerList)
            m["warning registry"] = sum(len(vars(x).get("__warningregistry__", ())) for r in roots if isinstance(r, dict) for x in r.values()
                                        if isinstance(x, types.ModuleType))
            m["threads"] = threading.active_count()
            m["child processes"] = len(multiprocessing.active_children())
            m["open files"] = len(seams.R["listdir"]("/proc/self/fd"))
            m["files"] = 0
            for d in self.dirs:
                for _, ds, fs in seams.R["walk"](d) if "walk" in seams.R else os.walk(d):
                    m["files"] += len(ds) + len(fs)
            self.taken.append(m)
        finally:
            W._local.task = t

    def grown(self, last=4):
        """What has become more in each of the last rounds."""
        if len(self.taken) < last + 1:
            return []
        out = []
        for k in self.taken[-1]:
            v = [m.get(k, 0) for m in self.taken]
            if all(a < b for a, b in zip(v[-last:], v[-last + 1:])):
                out.append((k, v))
        return out
