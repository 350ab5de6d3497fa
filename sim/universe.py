"""Independent copies of the library inside one interpreter.

A universe is a complete, separately executed instance of the torchiva package (its own module
globals and classes), built from /repo's working tree.  A simulated process gets one; when it
crashes, the next process gets a new one, so nothing in memory survives.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("SIM_REPO", "/repo")
PKG = "torchiva"
_code = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                src = f.read()
            code = _code[self.path] = compile(src, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.replace(".", "/")
        base = os.path.join(REPO, rel)
        for cand, is_pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if cand in _code or os.path.isfile(cand):
                return importlib.util.spec_from_file_location(
                    name, cand, loader=_Loader(cand),
                    submodule_search_locations=[base] if is_pkg else None)
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())


def _drop():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


class Universe:
    active = None

    def __init__(self):
        saved = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}
        _drop()
        try:
            importlib.import_module(PKG)
            for sub in ("loader", "separate", "wpe", "scaling"):
                try:
                    importlib.import_module(f"{PKG}.{sub}")
                except ModuleNotFoundError as e:
                    if e.name != f"{PKG}.{sub}":
                        raise
            self.modules = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}
        finally:
            _drop()
            sys.modules.update(saved)

    def activate(self):
        if sys.modules.get(PKG) is self.modules[PKG]:
            return
        if Universe.active is not None:  # keep what it imported lazily
            Universe.active.modules.update(
                {k: v for k, v in sys.modules.items() if k.startswith(PKG + ".")})
        _drop()
        sys.modules.update(self.modules)
        Universe.active = self

    @property
    def torchiva(self):
        return self.modules[PKG]

    def __getitem__(self, name):
        return self.modules[f"{PKG}.{name}"]
