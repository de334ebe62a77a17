import functools
import inspect
import time
import types
from collections import deque

from . import tyming


def _setdone(doer, val):
    if inspect.ismethod(doer):
        doer.__func__.done = val
    else:
        doer.done = val


def _copyfunc(f, name=None):
    g = types.FunctionType(f.__code__, f.__globals__, name=name or f.__name__,
                           argdefs=f.__defaults__, closure=f.__closure__)
    g = functools.update_wrapper(g, f)
    g.__kwdefaults__ = f.__kwdefaults__
    if name:
        g.__name__ = name
    return g


def doify(f, *, name=None, tock=0.0, **opts):
    if inspect.ismethod(f):
        g = _copyfunc(f.__func__, name)
        g.done = None
        g.tock = tock
        g.opts = dict(opts)
        return types.MethodType(g, f.__self__)
    g = _copyfunc(f, name)
    g.done = None
    g.tock = tock
    g.opts = dict(opts)
    return g


def doize(*, tock=0.0, **opts):
    def decorator(f):
        f.done = None
        f.tock = tock
        f.opts = dict(opts)
        return f
    return decorator


def _start(doers, tymth, tyme, temp=None):
    deeds = deque()
    for doer in doers:
        _setdone(doer, None)
        dog = doer(tymth=tymth, tock=doer.tock, **(doer.opts or {}))
        try:
            next(dog)
        except StopIteration as ex:
            _setdone(doer, ex.value if ex.value else False)
            continue
        deeds.append((dog, tyme, doer))
        _setdone(doer, False)
    return deeds


#: simulator hook: called with the list of runnable deeds, returns a reordered list
SCHEDULE = None


def _cycle(deeds, tyme):
    """One scheduler pass over deeds in place."""
    n = len(deeds)
    if SCHEDULE is not None and n > 1:
        SCHEDULE(deeds)
    for _ in range(n):
        if not deeds:
            break
        dog, retyme, doer = deeds.popleft()
        if tyme >= retyme:
            try:
                tock = dog.send(tyme)
            except StopIteration as ex:
                _setdone(doer, ex.value if ex.value else False)
            else:
                retyme = (tyme if not tock else tyme + tock)
                deeds.append((dog, retyme, doer))
        else:
            deeds.append((dog, retyme, doer))


def _stop(deeds):
    while deeds:
        dog, retime, doer = deeds.pop()
        try:
            tock = dog.close()
        except StopIteration:
            pass


class Doist(tyming.Tymist):
    def __init__(self, real=False, limit=None, doers=None, deeds=None, temp=False, name='Doist', **kwa):
        super().__init__(**kwa)
        self.name = name
        self.real = True if real else False
        self.limit = abs(float(limit)) if limit is not None else None
        self.done = None
        self.doers = list(doers) if doers is not None else []
        self.deeds = deeds if deeds is not None else deque()
        self.temp = temp

    def do(self, doers=None, limit=None, tyme=None, temp=None):
        if doers is not None:
            self.doers = list(doers)
        if limit is not None:
            self.limit = abs(float(limit))
        if tyme is not None:
            self.tyme = tyme
        try:
            self.done = False
            self.enter()
            tymer = tyming.Tymer(tymth=self.tymen(), duration=self.limit)
            while True:
                self.recur()
                if self.real:
                    time.sleep(self.tock)
                if not self.deeds:
                    self.done = True
                    break
                if self.limit and tymer.expired:
                    break
        finally:
            self.exit()
        return self.done

    def enter(self, doers=None, *, temp=None):
        if doers is None:
            self.done = False
            deeds = _start(self.doers, self.tymen(), self.tyme)
            self.deeds = deeds
            return deeds
        return _start(doers, self.tymen(), self.tyme)

    def recur(self, deeds=None):
        if deeds is None:
            deeds = self.deeds
        _cycle(deeds, self.tyme)
        self.tick()

    def exit(self, deeds=None):
        _stop(self.deeds if deeds is None else deeds)

    def extend(self, doers):
        deeds = self.enter(doers=doers)
        self.doers.extend(doers)
        self.deeds.extend(deeds)

    def remove(self, doers):
        _remove(self, doers)


def _remove(self, doers):
    for doer in list(doers):
        try:
            self.doers.remove(doer)
        except ValueError:
            raise ValueError(f"Doer={doer} not in doers")
    index = 0
    while index < len(self.deeds):
        dog, retyme, doer = self.deeds[index]
        if doer in doers:
            del self.deeds[index]
            dog.close()
        else:
            index += 1


class Doer(tyming.Tymee):
    def __init__(self, *, tock=0.0, opts=None, temp=None, **kwa):
        super().__init__(**kwa)
        self.done = None
        self.tock = tock
        self.opts = opts if opts is not None else {}
        self.temp = temp

    def __call__(self, **kwa):
        return self.do(**kwa)

    @property
    def tock(self):
        return self._tock

    @tock.setter
    def tock(self, tock):
        self._tock = abs(float(tock))

    def do(self, tymth, *, tock=0.0, temp=None, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            self.enter(temp=temp)
            if inspect.isgeneratorfunction(self.recur):
                self.done = yield from self.recur()
            else:
                while not self.done:
                    tyme = (yield self.tock)
                    self.done = self.recur(tyme=tyme)
        except GeneratorExit:
            self.close()
        except Exception as ex:
            self.abort(ex=ex)
            raise
        else:
            self.clean()
        finally:
            self.exit()
        return self.done

    def enter(self, *, temp=None):
        pass

    def recur(self, tyme):
        return False

    def clean(self):
        pass

    def close(self):
        pass

    def abort(self, ex):
        pass

    def exit(self):
        pass


class DoDoer(Doer):
    def __init__(self, doers=None, always=False, **kwa):
        super().__init__(**kwa)
        self.doers = list(doers) if doers is not None else []
        self.always = always
        self.deeds = deque()

    def do(self, tymth, *, tock=0.0, doers=None, always=None, temp=None, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            self.enter(doers=doers, temp=temp)
            if always is not None:
                self.always = always
            while not self.done:
                tyme = (yield self.tock)
                self.done = self.recur(tyme=tyme)
        except GeneratorExit:
            self.close()
        except Exception as ex:
            self.abort(ex=ex)
            raise
        else:
            self.clean()
        finally:
            self.exit(deeds=None)
        return self.done

    def enter(self, doers=None, *, deeds=None, temp=None):
        if doers is None:
            deeds = _start(self.doers, self.tymth, self._now())
            self.deeds = deeds
            return deeds
        return _start(doers, self.tymth, self._now())

    def _now(self):
        return self._tymth() if self._tymth is not None else 0.0

    def recur(self, tyme, deeds=None):
        if deeds is None:
            deeds = self.deeds
        _cycle(deeds, tyme)
        return (not deeds and not self.always)

    def exit(self, deeds=None):
        _stop(self.deeds if deeds is None else deeds)

    def extend(self, doers):
        deeds = self.enter(doers=doers)
        self.doers.extend(doers)
        self.deeds.extend(deeds)

    def remove(self, doers):
        _remove(self, doers)


class ReDoer(Doer):
    def recur(self):
        while True:
            yield self.tock
