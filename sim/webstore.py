"""Simulated asynchronous browser storage (IndexedDB behind pyscript.storage).

Assignments are visible to the process at once and queue one durable write each, in
order; sync() completes when the queue it saw is durable.  The simulator decides when a
sync completes, whether it fails (after how many queued writes), and how many queued
writes made it when the process dies.
"""
import asyncio
import json
import warnings


class Disk:
    def __init__(self):
        self.ns = {}        # namespace -> durable dict
        self.handles = []
        self.waiting = []   # futures of sync() calls in flight: (future, handle, upto)
        self.loop = None
        self.nsync = 0
        self.auto = False   # complete every await at once
        self.open_waits = False
        self.fail_open = 0
        self.counts = {}
        self.payload = "str"

    def form(self, v):
        """Loaded payloads come back as text, bytes or already decoded mappings."""
        if self.payload == "bytes" and isinstance(v, str):
            return v.encode()
        if self.payload == "view" and isinstance(v, str):
            return memoryview(v.encode())
        if self.payload == "dict" and isinstance(v, str):
            return json.loads(v)
        return v

    def hit(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    async def opener(self, namespace):
        for h in self.handles:
            if h.ns == namespace and not h.dead:
                h.drain()
        if self.open_waits and not self.auto:
            await self.wait(None, 0)
        h = Handle(self, namespace)
        self.handles.append(h)
        return h

    async def wait(self, handle, upto):
        fut = self.loop.create_future()
        self.waiting.append((fut, handle, upto))
        return await fut

    def die(self, choose):
        """Process death: each handle keeps a prefix of its queued writes."""
        for h in self.handles:
            if not h.dead:
                if h.queue:
                    self.hit("fault:crash_with_writes_in_flight")
                h.apply(choose(len(h.queue)))
                h.queue = []
                h.dead = True
        self.handles = []
        self.waiting = []


class Handle:
    """Dict-like storage handle."""

    def __init__(self, disk, ns):
        self.disk, self.ns, self.dead = disk, ns, False
        self.local = {k: disk.form(v) for k, v in disk.ns.get(ns, {}).items()}
        self.queue = []

    def get(self, key, default=None):
        return self.local.get(key, default)

    def __getitem__(self, key):
        return self.local[key]

    def __contains__(self, key):
        return key in self.local

    def __setitem__(self, key, value):
        if self.dead:
            return
        self.local[key] = value
        self.queue.append((key, value))

    def __delitem__(self, key):
        if self.dead:
            return
        del self.local[key]
        self.queue.append((key, None))

    def pop(self, key, *d):
        if key in self.local:
            v = self.local[key]
            del self[key]
            return v
        if d:
            return d[0]
        raise KeyError(key)

    def update(self, *a, **k):
        for key, v in dict(*a, **k).items():
            self[key] = v

    def keys(self):
        return self.local.keys()

    def items(self):
        return self.local.items()

    def clear(self):
        for k in list(self.local):
            del self[k]

    def apply(self, n):
        d = self.disk.ns.setdefault(self.ns, {})
        for k, v in self.queue[:n]:
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        del self.queue[:n]

    def drain(self):
        self.apply(len(self.queue))

    async def sync(self):
        self.disk.nsync += 1
        if self.disk.auto:
            self.drain()
            return
        r = await self.disk.wait(self, len(self.queue))
        if self.dead:
            await asyncio.Future()
        return r


class Tasks:
    """A real asyncio loop stepped only when the simulator says so."""
    _loop = None

    def __init__(self):
        if Tasks._loop is None or Tasks._loop.is_closed():
            Tasks._loop = asyncio.new_event_loop()
            Tasks._loop.set_exception_handler(lambda loop, c: None)
        self.loop = Tasks._loop
        self.tasks = []

    def spin(self):
        """Run until nothing is ready (no timers, no I/O: deterministic FIFO)."""
        loop = self.loop
        for _ in range(10000):
            loop.call_soon(loop.stop)
            loop.run_forever()
            if not loop._ready:
                return
        raise RuntimeError("event loop never became idle")

    def start(self, coro):
        t = self.loop.create_task(coro)
        t._log_destroy_pending = False
        self.tasks.append(t)
        self.spin()
        return t

    def finish(self, coro, disk):
        """Drive one coroutine to completion with every storage await succeeding."""
        t = self.start(coro)
        for _ in range(10000):
            if t.done():
                return t.result()
            if not disk.waiting:
                raise RuntimeError("coroutine blocked on something other than storage")
            fut, h, upto = disk.waiting.pop(0)
            if h is not None:
                h.drain()
            if not fut.done():
                fut.set_result(None)
            self.spin()
        raise RuntimeError("too many storage awaits")

    def abandon(self):
        self.tasks = []
        self.loop._ready.clear()
        warnings.simplefilter("ignore")
