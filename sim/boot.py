"""Bootstraps the real keri sources (from /repo's working tree) on top of the
simulated third-party layer in sim/stubs.

Everything nondeterministic the code can reach is replaced *before* keri is
imported: wall clock (datetime/time), random bytes (pysodium, os.urandom,
random), LMDB, the hio scheduler/network and file roots.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import __future__

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
STUBS = os.path.join(HERE, "stubs")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True


class Loader(importlib.machinery.SourceFileLoader):
    """The code base targets 3.14 (PEP 649 deferred annotations). Modules whose
    annotations cannot be evaluated eagerly are compiled with stringised ones."""
    _flag = False

    def source_to_code(self, data, path, *, _optimize=-1):
        flags = __future__.annotations.compiler_flag if self._flag else 0
        return compile(data, path, "exec", flags=flags, dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):     # never trust or write .pyc files
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        try:
            super().exec_module(module)
        except NameError as ex:
            if self._flag:
                raise
            self._flag = True
            super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "keri" and not fullname.startswith("keri."):
            return None
        rel = os.path.join(SRC, *fullname.split("."))
        pkg = os.path.join(rel, "__init__.py")
        if os.path.isfile(pkg):
            return importlib.util.spec_from_file_location(
                fullname, pkg, loader=Loader(fullname, pkg), submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, rel + ".py", loader=Loader(fullname, rel + ".py"))
        return None


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    sys.path.insert(0, STUBS)
    if VT not in sys.path and os.path.isdir(VT):
        sys.path.append(VT)
    sys.meta_path.insert(0, Finder())
