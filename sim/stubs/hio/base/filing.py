"""Filer confined to a scratch root: every head directory (including temp) is
re-rooted below SIM_ROOT so nothing outside it can be created or removed."""
import contextlib
import os
import shutil
import stat
import tempfile

SIM_ROOT = None
_counter = 0


def sim_root():
    global SIM_ROOT
    if SIM_ROOT is None:
        import atexit
        SIM_ROOT = tempfile.mkdtemp(prefix="simroot_")
        atexit.register(shutil.rmtree, SIM_ROOT, True)
    return SIM_ROOT


def reroot(path):
    root = sim_root()
    path = os.path.abspath(os.path.expanduser(path))
    if path == root or path.startswith(root + os.sep):
        return path
    return os.path.join(root, path.lstrip(os.sep))


@contextlib.contextmanager
def openFiler(cls=None, name="test", temp=True, reopen=True, clear=False, **kwa):
    filer = None
    if cls is None:
        cls = Filer
    try:
        filer = cls(name=name, temp=temp, reopen=reopen, clear=clear, **kwa)
        yield filer
    finally:
        if filer:
            filer.close(clear=(filer.temp or clear))


class Filer:
    HeadDirPath = os.path.join(os.path.sep, "usr", "local", "var")
    TailDirPath = "hio"
    CleanTailDirPath = os.path.join("hio", "clean")
    AltHeadDirPath = os.path.join("~")
    AltTailDirPath = ".hio"
    AltCleanTailDirPath = os.path.join(".hio", "clean")
    TempHeadDir = os.path.join(os.path.sep, "tmp")
    TempPrefix = "hio_"
    TempSuffix = "_test"
    Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR
    Mode = "r+"
    Fext = "text"

    def __init__(self, *, name='main', base="", temp=False, headDirPath=None,
                 perm=None, reopen=True, clear=False, reuse=False, clean=False,
                 filed=False, extensioned=False, mode=None, fext=None, **kwa):
        if os.path.isabs(name):
            raise ValueError(f"Not relative {name=} path.")
        if os.path.isabs(base):
            raise ValueError(f"Not relative {base=} path.")
        self.name = name
        self.base = base
        self.temp = True if temp else False
        self.headDirPath = headDirPath if headDirPath is not None else self.HeadDirPath
        self.perm = perm if perm is not None else self.Perm
        self.filed = True if filed else False
        self.extensioned = True if extensioned else False
        self.mode = mode if mode is not None else self.Mode
        self.fext = fext if fext is not None else self.Fext
        self.path = None
        self.file = None
        self.opened = False
        if reopen:
            self.reopen(clear=clear, reuse=reuse, clean=clean, **kwa)

    def reopen(self, temp=None, headDirPath=None, perm=None, clear=False,
               reuse=False, clean=False, mode=None, fext=None, **kwa):
        if self.opened:
            self.close(clear=clear)
        if temp is not None:
            self.temp = True if temp else False
        if headDirPath is not None:
            self.headDirPath = headDirPath
        if perm is not None:
            self.perm = perm
        if mode is not None:
            self.mode = mode
        if fext is not None:
            self.fext = fext
        if not self.path or not os.path.exists(self.path) or not reuse:
            self.path, self.file = self.remake(name=self.name, base=self.base,
                temp=self.temp, headDirPath=self.headDirPath, perm=self.perm,
                clean=clean, filed=self.filed, mode=self.mode, fext=self.fext)
        elif self.filed:
            self.file = open(self.path, mode=self.mode)
        self.opened = True if not self.filed else (self.file is not None and not self.file.closed)
        return self.opened

    def _tail(self, clean):
        return self.CleanTailDirPath if clean else self.TailDirPath

    def exists(self, name, base="", headDirPath=None, clean=False, filed=False,
               extensioned=False, fext=None):
        if os.path.isabs(name) or os.path.isabs(base):
            raise ValueError(f"Not relative {name=} or {base=} path.")
        head = headDirPath if headDirPath is not None else self.HeadDirPath
        tail = self._tail(clean)
        path = reroot(os.path.join(head, tail, base, name))
        if filed:
            root, ext = os.path.splitext(path)
            if not ext:
                path = f"{path}.{fext or self.fext}"
        return os.path.exists(path)

    def remake(self, *, name="", base="", temp=None, headDirPath=None, perm=None,
               clean=False, filed=False, extensioned=False, mode=None, fext=None, **kwa):
        global _counter
        file = None
        temp = True if temp else False
        tail = self._tail(clean)
        perm = perm if perm is not None else self.perm
        mode = mode if mode is not None else self.Mode
        fext = fext if fext is not None else self.Fext
        if temp:
            _counter += 1
            head = os.path.join(reroot(self.TempHeadDir),
                                f"{self.TempPrefix}{_counter:08d}{self.TempSuffix}")
            path = os.path.join(head, tail, base, name)
        else:
            head = reroot(headDirPath if headDirPath is not None else self.HeadDirPath)
            path = os.path.abspath(os.path.join(head, tail, base, name))
        if not (path + os.sep).startswith(sim_root() + os.sep):
            raise ValueError(f"sim: path escapes scratch root {path}")
        if filed:
            root, ext = os.path.splitext(path)
            if not ext:
                path = f"{path}.{fext}"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if not os.path.exists(path):
                with open(path, "w+b"):
                    pass
            file = open(path, mode=mode)
        else:
            os.makedirs(path, exist_ok=True)
            os.chmod(path, perm)
        return path, file

    def close(self, clear=False):
        if self.filed:
            if self.file:
                self.file.close()
                self.file = None
        self.opened = False
        if clear:
            self._clearPath()
        return not self.opened

    def _clearPath(self):
        if self.path and os.path.exists(self.path):
            if not (os.path.abspath(self.path) + os.sep).startswith(sim_root() + os.sep):
                raise ValueError("sim: refusing to clear outside scratch root")
            if self.filed:
                os.remove(self.path)
            else:
                shutil.rmtree(self.path)


class FilerDoer:
    pass
