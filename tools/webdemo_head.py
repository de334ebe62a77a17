import asyncio, importlib.util, os, sys
spec = importlib.util.spec_from_file_location("webdbing", os.path.join(os.getcwd(), "src/keri/db/webdbing.py"))
w = importlib.util.module_from_spec(spec); sys.modules["webdbing"] = w; spec.loader.exec_module(w)


class Store(dict):
    """Minimal storage handle: visible at once, durable copy taken at sync."""
    fail = 0
    gate = None

    def __init__(self, disk, ns):
        super().__init__(disk.get(ns, {})); self.disk, self.ns = disk, ns

    async def sync(self):
        snap = dict(self)
        if Store.gate is not None:
            await Store.gate()
        if Store.fail:
            Store.fail -= 1
            raise OSError("storage failure")
        self.disk[self.ns] = snap


async def opened(disk, stores=("s.",), **kw):
    async def opener(ns):
        return Store(disk, ns)
    return await w.WebDBer.open("w", list(stores), storageOpener=opener, **kw)


def done(ok, what):
    print("ok" if ok else "BROKEN: " + what)
    sys.exit(0 if ok else 1)
