"""Reference models for the keri sub-database families: plain logical entries.

An entry is ((key, on, ion), val); on/ion are None where the family has none.  The
raw key is only used to order entries, exactly as the stores' docs specify: lexical by
effective key, then ordinal, then insertion order.
"""
MaxON = int("f" * 32, 16)


class Bad(Exception):
    """The documented outcome is this exception type."""
    def __init__(self, *types):
        self.types = types


def raw(e, sep=b"."):
    key, on, ion = e
    k = key
    if on is not None:
        k = k + sep + b"%032x" % on
    if ion is not None:
        k = k + sep + b"%032x" % ion
    return k


class RefDb:
    def __init__(self, entries=None, sep=b"."):
        self.e = dict(entries or {})
        self.sep = sep

    def copy(self):
        return RefDb(self.e, self.sep)

    def raw(self, e):
        return raw(e, self.sep)

    # ---- views
    def items(self):
        return sorted(((self.raw(k), k, v) for k, v in self.e.items()))

    def dump(self):
        return [(r, v) for r, k, v in self.items()]

    # ---- every family
    def getTopItemIter(self, top=b""):
        return [(r, v) for r, k, v in self.items() if r.startswith(top)]

    def cntTop(self, top=b""):
        return len(self.getTopItemIter(top))

    def cntAll(self):
        return len(self.e)

    def remTop(self, top=b""):
        doomed = [k for k in self.e if self.raw(k).startswith(top)]
        for k in doomed:
            del self.e[k]
        return bool(doomed)

    # ---- Val
    def putVal(self, key, val):
        if (key, None, None) in self.e:
            return False
        self.e[(key, None, None)] = val
        return True

    def setVal(self, key, val):
        self.e[(key, None, None)] = val
        return True

    def getVal(self, key):
        return self.e.get((key, None, None))

    def remVal(self, key):
        return self.e.pop((key, None, None), None) is not None

    delVal = remVal

    # ---- OnVal
    def putOnVal(self, key, on=0, val=None):
        if val is None or not key or (key, on, None) in self.e:
            return False
        self.e[(key, on, None)] = val
        return True

    def pinOnVal(self, key, on=0, val=None):
        if val is None or not key:
            return False
        self.e[(key, on, None)] = val
        return True

    def appendOnVal(self, key, val):
        if not key or val is None:
            raise Bad(ValueError)
        ons = [k[1] for k in self.e if k[0] == key]
        on = max(ons) + 1 if ons else 0
        if on > MaxON:
            raise Bad(ValueError)
        self.e[(key, on, None)] = val
        return on

    def getOnVal(self, key, on=0):
        return self.e.get((key, on, None)) if key else None

    def getOnItem(self, key, on=0):
        v = self.getOnVal(key, on)
        return None if v is None else (key, on, v)

    def remOn(self, key, on=0):
        return bool(key) and self.e.pop((key, on, None), None) is not None

    def remOnAll(self, key=b"", on=0):
        if not key:
            return self.remTop(b"")
        doomed = [k for k in self.e if k[0] == key and k[1] >= on]
        for k in doomed:
            del self.e[k]
        return bool(doomed)

    def cntOnAll(self, key=b"", on=0):
        return len([k for k in self.e if not key or (k[0] == key and k[1] >= on)])

    def getOnTopItemIter(self, top=b""):
        return [(k[0], k[1], v) for r, k, v in self.items() if r.startswith(top)]

    def getOnAllItemIter(self, key=b"", on=0):
        return [(k[0], k[1], v) for r, k, v in self.items() if not key or (k[0] == key and k[1] >= on)]

    # ---- IoSet (on is None) and OnIoSet (on given)
    def _set(self, key, on=None):
        return sorted((k[2], v) for k, v in self.e.items() if k[0] == key and k[1] == on)

    def _put(self, key, on, vals):
        cur = self._set(key, on)
        have = {v for _, v in cur}
        ion = cur[-1][0] + 1 if cur else 0
        res = False
        for v in vals:
            if v not in have:
                have.add(v)
                self.e[(key, on, ion)] = v
                ion += 1
                res = True
        return res

    def _clr(self, key, on):
        doomed = [k for k in self.e if k[0] == key and k[1] == on]
        for k in doomed:
            del self.e[k]
        return bool(doomed)

    def _rem1(self, key, on, val):
        if val is None:
            return self._clr(key, on)
        for ion, v in self._set(key, on):
            if v == val:
                del self.e[(key, on, ion)]
                return True
        return False

    def putIoSetVals(self, key, vals):
        return self._put(key, None, vals) if key and vals else False

    def pinIoSetVals(self, key, vals):
        if not key or not vals:
            return False
        self._clr(key, None)
        return self._put(key, None, vals)

    def addIoSetVal(self, key, val):
        return self._put(key, None, [val]) if key and val is not None else False

    def getIoSetItemIter(self, key, ion=0):
        return [(key, v) for i, v in self._set(key) if i >= ion] if key else []

    def getIoSetLastItem(self, key):
        s = self._set(key) if key else []
        return (key, s[-1][1]) if s else ()

    def remIoSet(self, key):
        return self._clr(key, None) if key else False

    def remIoSetVal(self, key, val=None):
        return self._rem1(key, None, val) if key else False

    def cntIoSet(self, key, ion=0):
        return len(self.getIoSetItemIter(key, ion))

    def getTopIoSetItemIter(self, top=b""):
        return [(k[0], v) for r, k, v in self.items() if r.startswith(top)]

    def getIoSetLastItemIterAll(self, key=b""):
        start = self.raw((key, None, 0)) if key else b""
        last = {}
        for r, k, v in self.items():
            if r >= start:
                last[k[0]] = (k[0], v)
        return [last[k] for k in sorted(last, key=lambda x: x + self.sep)]

    def getIoSetLastIterAll(self, key=b""):
        return [v for _, v in self.getIoSetLastItemIterAll(key)]

    # OnIoSet
    def putOnIoSetVals(self, key, on=0, vals=None):
        return self._put(key, on, vals) if key and vals else False

    def pinOnIoSetVals(self, key, on=0, vals=None):
        if not key or not vals:
            return False
        self._clr(key, on)
        return self._put(key, on, vals)

    def appendOnIoSetVals(self, key, vals):
        if not key or not vals:
            raise Bad(ValueError)
        ons = [k[1] for k in self.e if k[0] == key]
        on = max(ons) + 1 if ons else 0
        if on > MaxON:
            raise Bad(ValueError)
        self._put(key, on, vals)
        return on

    def addOnIoSetVal(self, key, on=0, val=None):
        return self._put(key, on, [val]) if key and val is not None else False

    def getOnIoSetItemIter(self, key, on=0, ion=0):
        return [(key, on, v) for i, v in self._set(key, on) if i >= ion]

    def getOnIoSetLastItem(self, key, on=0):
        s = self._set(key, on)
        return (key, on, s[-1][1]) if s else ()

    def remOnIoSetVal(self, key, on=0, val=None):
        return self._rem1(key, on, val)

    def remOnAllIoSet(self, key=b"", on=0):
        return self.remOnAll(key, on)

    def cntOnIoSet(self, key, on=0, ion=0):
        return len(self.getOnIoSetItemIter(key, on, ion))

    def cntOnAllIoSet(self, key=b"", on=0):
        return self.cntOnAll(key, on)

    def getOnTopIoSetItemIter(self, top=b""):
        return [(k[0], k[1], v) for r, k, v in self.items() if r.startswith(top)]

    def getOnAllIoSetItemIter(self, key=b"", on=0):
        return self.getOnAllItemIter(key, on)

    def _lasts(self, key, cond):
        last = {}
        for r, k, v in self.items():
            if not key or (k[0] == key and cond(k[1])):
                last[(k[0] + self.sep + b"%032x" % k[1])] = (k[0], k[1], v)
        return [last[k] for k in sorted(last)]

    def getOnAllIoSetLastItemIter(self, key=b"", on=0):
        return self._lasts(key, lambda o: o >= on)

    def getOnAllIoSetItemBackIter(self, key=b"", on=None):
        return [(k[0], k[1], v) for r, k, v in reversed(self.items())
                if not key or (k[0] == key and (on is None or k[1] <= on))]

    def getOnAllIoSetLastItemBackIter(self, key=b"", on=None):
        return list(reversed(self._lasts(key, lambda o: on is None or o <= on)))


ITERS = {n for n in dir(RefDb) if "Iter" in n}
WRITES = {n for n in dir(RefDb) if n[:3] in ("put", "set", "pin", "add", "app", "rem", "del")}

FAMILY = dict(
    val=["putVal", "setVal", "getVal", "remVal", "delVal", "getTopItemIter", "cntTop", "cntAll", "remTop"],
    on=["putOnVal", "pinOnVal", "appendOnVal", "appendOnVal", "getOnVal", "getOnItem", "remOn", "remOnAll", "cntOnAll",
        "getOnTopItemIter", "getOnAllItemIter", "getTopItemIter", "cntTop", "cntAll", "remTop"],
    ioset=["putIoSetVals", "putIoSetVals", "pinIoSetVals", "addIoSetVal", "addIoSetVal", "getIoSetItemIter",
           "getIoSetLastItem", "remIoSet", "remIoSetVal", "remIoSetVal", "cntIoSet", "getTopIoSetItemIter",
           "getIoSetLastItemIterAll", "getIoSetLastIterAll", "getTopItemIter", "cntTop", "cntAll", "remTop"],
    onioset=["putOnIoSetVals", "putOnIoSetVals", "pinOnIoSetVals", "appendOnIoSetVals", "appendOnIoSetVals",
             "addOnIoSetVal", "addOnIoSetVal", "getOnIoSetItemIter", "getOnIoSetLastItem", "remOnIoSetVal",
             "remOnIoSetVal", "remOnAllIoSet", "cntOnIoSet", "cntOnAllIoSet", "getOnTopIoSetItemIter",
             "getOnAllIoSetItemIter", "getOnAllIoSetLastItemIter", "getOnAllIoSetItemBackIter",
             "getOnAllIoSetLastItemBackIter", "getTopItemIter", "cntTop", "cntAll", "remTop"],
)

NOSEP = {"putVal", "setVal", "getVal", "remVal", "delVal", "getTopItemIter", "cntTop", "cntAll", "remTop"}

KEYSETS = [
    [b"a", b"b", b"c"],
    [b"ab", b"abc", b"b", b"abcd"],
    [b"a", b"a.b", b"a.c", b"b.q", b"b"],
    [b"EAbc-def_ghi", b"EAbc-def_gh", b"DZ09", b"BAAA.EBBB"],
    [b"k\x00", b"k", b"k\xff", b"~z"],
    [b"wits.one", b"wits.two", b"wits", b"zed-9"],
    [b"a", b"a.%032x" % 0, b"a.%032x" % 1, b"b"],
]


def enc(b):
    return None if b is None else b.decode("latin-1")


def dec(s):
    return None if s is None else s.encode("latin-1")


def gen_args(rng, name, keys, vals, maxon_ok=True, empty_ok=True):
    """JSON-able kwargs for one call (bytes as latin-1 text)."""
    key = rng.choice(keys)
    if empty_ok and rng.random() < 0.04:
        key = b""
    val = rng.choice(vals)
    none = rng.random() < 0.03

    def on():
        r = rng.random()
        if r < 0.75:
            return rng.randrange(4)
        if r < 0.93:
            return rng.randrange(20)
        if r < 0.97 or not maxon_ok:
            return rng.choice([255, 256, 1 << 32, (1 << 64) - 1])
        return rng.choice([MaxON, MaxON - 1])

    def vs():
        if none:
            return []
        return [enc(rng.choice(vals)) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]

    k = enc(key)
    n = name
    if n in ("getTopItemIter", "cntTop", "remTop", "getOnTopItemIter", "getTopIoSetItemIter", "getOnTopIoSetItemIter"):
        base = rng.choice(keys)
        top = rng.choice([b"", base, base[:1], base + b".", base[:-1], base + b".0"])
        if n == "remTop" and rng.random() < 0.6:
            top = base
        return dict(top=enc(top))
    if n == "cntAll":
        return {}
    if n in ("putVal", "setVal"):
        return dict(key=k, val=enc(val))
    if n in ("appendOnVal", "addIoSetVal"):
        return dict(key=k, val=None if none else enc(val))
    if n in ("getVal", "remVal", "delVal", "getIoSetLastItem", "remIoSet"):
        return dict(key=k)
    if n in ("putOnVal", "pinOnVal", "addOnIoSetVal"):
        return dict(key=k, on=on(), val=None if none else enc(val))
    if n in ("getOnVal", "getOnItem", "remOn", "getOnIoSetLastItem"):
        return dict(key=k, on=on())
    if n in ("remOnAll", "cntOnAll", "getOnAllItemIter", "remOnAllIoSet", "cntOnAllIoSet", "getOnAllIoSetItemIter",
             "getOnAllIoSetLastItemIter"):
        if rng.random() < 0.15:
            return dict(key="", on=0)
        return dict(key=k, on=on())
    if n in ("getOnAllIoSetItemBackIter", "getOnAllIoSetLastItemBackIter"):
        if rng.random() < 0.15:
            return dict(key="", on=None)
        return dict(key=k, on=rng.choice([None, on(), on()]))
    if n == "appendOnIoSetVals":      # what a set append does with repeated members is unspecified
        return dict(key=k, vals=list(dict.fromkeys(vs())))
    if n in ("putIoSetVals", "pinIoSetVals"):
        return dict(key=k, vals=vs())
    if n in ("putOnIoSetVals", "pinOnIoSetVals"):
        return dict(key=k, on=on(), vals=vs())
    if n == "remIoSetVal":
        return dict(key=k, val=enc(val) if rng.random() < 0.9 else None)
    if n == "remOnIoSetVal":
        return dict(key=k, on=on(), val=enc(val) if rng.random() < 0.9 else None)
    if n in ("getIoSetItemIter", "cntIoSet"):
        return dict(key=k, ion=rng.choice([0, 0, 0, 1, 2, 5]))
    if n in ("getOnIoSetItemIter", "cntOnIoSet"):
        return dict(key=k, on=on(), ion=rng.choice([0, 0, 0, 1, 2, 5]))
    if n in ("getIoSetLastItemIterAll", "getIoSetLastIterAll"):
        return dict(key=k if rng.random() < 0.5 else "")
    raise KeyError(n)


def realargs(args):
    out = {}
    for a, v in args.items():
        if a in ("key", "top", "val"):
            v = dec(v)
        elif a == "vals":
            v = [dec(x) for x in v]
        out[a] = v
    return out


def norm(x):
    """Normalise results: memoryviews to bytes, iterators to lists, tuples kept."""
    if isinstance(x, memoryview):
        return bytes(x)
    if isinstance(x, (bytes, bool, int, type(None), str)):
        return x
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if isinstance(x, list):
        return [norm(y) for y in x]
    return [norm(y) for y in x]
