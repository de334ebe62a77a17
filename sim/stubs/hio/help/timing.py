import time


class Timer:
    def __init__(self, duration=0.0, start=None, **kwa):
        self._start = time.time() if start is None else start
        self._stop = self._start + duration

    @property
    def expired(self):
        return time.time() >= self._stop

    @property
    def elapsed(self):
        return time.time() - self._start

    @property
    def remaining(self):
        return self._stop - time.time()


class MonoTimer(Timer):
    pass
