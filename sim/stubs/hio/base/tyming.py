class Tymist:
    def __init__(self, tyme=0.0, tock=0.03125, **kwa):
        self.tyme = tyme
        self.tock = tock

    @property
    def tyme(self):
        return self._tyme

    @tyme.setter
    def tyme(self, tyme):
        self._tyme = float(tyme)

    @property
    def tock(self):
        return self._tock

    @tock.setter
    def tock(self, tock):
        self._tock = abs(float(tock))

    def tymen(self):
        def tymth():
            return self.tyme
        return tymth

    def tick(self, tock=None):
        self.tyme += float(tock) if tock is not None else self.tock
        return self.tyme


class Tymee:
    def __init__(self, tymth=None, **kwa):
        self._tymth = None
        if tymth is not None:
            self.wind(tymth=tymth)

    @property
    def tyme(self):
        if self._tymth is None:
            raise RuntimeError("not wound")
        return self._tymth()

    @property
    def tymth(self):
        return self._tymth

    def wind(self, tymth):
        self._tymth = tymth


class Tymer(Tymee):
    def __init__(self, *, duration=0.0, start=None, **kwa):
        super().__init__(**kwa)
        self._start = float(start) if start is not None else None
        self._stop = None
        self._dur = abs(float(duration)) if duration is not None else 0.0
        if self._tymth is not None:
            self.start(duration=duration, start=start)

    def wind(self, tymth):
        super().wind(tymth)
        if hasattr(self, "_dur"):
            self.start()

    @property
    def duration(self):
        return self._stop - self._start

    @property
    def elapsed(self):
        return self.tyme - self._start

    @property
    def remaining(self):
        return self._stop - self.tyme

    @property
    def expired(self):
        return self.tyme >= self._stop

    def start(self, duration=None, start=None):
        self._start = float(start) if start is not None else self.tyme
        if duration is not None:
            self._dur = abs(float(duration))
        self._stop = self._start + self._dur
        return self._start

    def restart(self, duration=None):
        return self.start(duration=duration, start=self._stop)
