"""Simulated wall clock for keri: one global simulated time plus the skew of the node that is running."""
import datetime as _dt
import types

BASE = _dt.datetime(2026, 1, 1, tzinfo=_dt.timezone.utc)


class Clock:
    def __init__(self):
        self.reset()

    def reset(self):
        self.t = 0.0         # simulated seconds since BASE
        self.skew = 0.0      # of the node currently executing
        self.reads = 0

    def utc(self):
        self.reads += 1
        self.t += 1e-6       # two readings differ, as they do in life
        return BASE + _dt.timedelta(seconds=self.t + self.skew)

    def mono(self):
        return self.t


CLOCK = Clock()


class _Meta(type(_dt.datetime)):
    def __instancecheck__(cls, x):
        return isinstance(x, _dt.datetime)


class SimDateTime(_dt.datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        d = CLOCK.utc()
        return d if tz is not None else d.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return CLOCK.utc().replace(tzinfo=None)

    @classmethod
    def fromisoformat(cls, s):
        return _dt.datetime.fromisoformat(s)


def shim_datetime():
    m = types.ModuleType("datetime")
    m.__dict__.update({k: v for k, v in vars(_dt).items() if not k.startswith("__")})
    m.datetime = SimDateTime
    return m


def shim_time():
    import time as _t
    m = types.ModuleType("time")
    m.__dict__.update({k: v for k, v in vars(_t).items() if not k.startswith("__")})
    m.time = m.monotonic = m.perf_counter = CLOCK.mono
    m.sleep = lambda s: setattr(CLOCK, "t", CLOCK.t + s)
    return m


def install():
    """Patch every keri module's (and the hio stub's) view of the clock.  Call after importing keri modules."""
    import sys
    sdt, st = shim_datetime(), shim_time()
    import datetime as real_dt
    import time as real_t
    for name, mod in list(sys.modules.items()):
        if name == "keri" or name.startswith("keri.") or name.startswith("hio."):
            d = mod.__dict__
            if d.get("datetime") is real_dt:
                d["datetime"] = sdt
            elif d.get("datetime") is real_dt.datetime:
                d["datetime"] = SimDateTime
            if d.get("time") is real_t:
                d["time"] = st
