"""Reference models of the LMDB-only families that keep several values at one key.

dup      values of a key are a set kept in lexical order
iodup    values of a key are a set kept in insertion order (stored with an ordinal proem)
oniodup  iodup at each ordinal of a key
"""
from refdb import Bad, MaxON, dec, enc

ION = 33


class RefDup:
    def __init__(self, kind, entries=None, sep=b"."):
        self.kind, self.sep = kind, sep
        self.e = {k: list(v) for k, v in (entries or {}).items()}   # (key, on) -> [(ion or None, val)]

    def copy(self):
        return RefDup(self.kind, self.e, self.sep)

    def raw(self, k):
        return k[0] if k[1] is None else k[0] + self.sep + b"%032x" % k[1]

    def stored(self, x):
        return x[1] if x[0] is None else b"%032x." % x[0] + x[1]

    def flat(self):
        out = []
        for k in sorted(self.e, key=self.raw):
            vs = self.e[k]
            vs = sorted(vs, key=lambda x: x[1]) if self.kind == "dup" else sorted(vs)
            out += [(self.raw(k), k, x) for x in vs]
        return out

    def dump(self):
        return [(r, self.stored(x)) for r, k, x in self.flat()]

    def vals(self, key, on=None):
        vs = self.e.get((key, on), [])
        return sorted(v for _, v in vs) if self.kind == "dup" else [v for _, v in sorted(vs)]

    def _put(self, key, on, vals):
        cur = self.e.setdefault((key, on), [])
        ion = max([i for i, _ in cur], default=-1) + 1 if self.kind != "dup" else None
        have = {v for _, v in cur}
        res = False
        for v in vals:
            if v not in have:
                have.add(v)
                cur.append((ion, v))
                if ion is not None:
                    ion += 1
                res = True
        if not cur:
            del self.e[(key, on)]
        return res

    def _del(self, key, on, val=None):
        cur = self.e.get((key, on))
        if not cur:
            return False
        if val is None:
            del self.e[(key, on)]
            return True
        for x in cur:
            if x[1] == val:
                cur.remove(x)
                if not cur:
                    del self.e[(key, on)]
                return True
        return False

    # every family
    def getTopItemIter(self, top=b""):
        return [(r, self.stored(x)) for r, k, x in self.flat() if r.startswith(top)]

    def cntTop(self, top=b""):
        return len(self.getTopItemIter(top))

    def cntAll(self):
        return len(self.flat())

    def remTop(self, top=b""):
        doomed = [k for k in self.e if self.raw(k).startswith(top)]
        for k in doomed:
            del self.e[k]
        return bool(doomed)

    # dup
    def putVals(self, key, vals):
        self._put(key, None, vals)
        return True

    def addVal(self, key, val):
        return self._put(key, None, [val])

    def getVals(self, key):
        return self.vals(key)

    def getValLast(self, key):
        vs = self.vals(key)
        return vs[-1] if vs else None

    def getValsIter(self, key):
        return self.vals(key)

    def cntVals(self, key):
        return len(self.vals(key))

    def delVals(self, key, val=b""):
        return self._del(key, None, val or None)

    # iodup
    def putIoDupVals(self, key, vals):
        return self._put(key, None, vals)

    def addIoDupVal(self, key, val):
        return self._put(key, None, [val])

    def getIoDupVals(self, key):
        return self.vals(key)

    def getIoDupItemIter(self, key, ion=0):
        return [(key, v) for i, v in sorted(self.e.get((key, None), [])) if i >= ion]

    def getIoDupValLast(self, key):
        vs = self.vals(key)
        return vs[-1] if vs else None

    def delIoDupVals(self, key):
        return self._del(key, None)

    def delIoDupVal(self, key, val):
        return self._del(key, None, val)

    def cntIoDups(self, key):
        return len(self.vals(key))

    def getTopIoDupItemIter(self, top=b""):
        return [(r, x[1]) for r, k, x in self.flat() if r.startswith(top)]

    # oniodup
    def putOnIoDupVals(self, key, on=0, vals=()):
        return self._put(key, on, vals)

    def addOnIoDupVal(self, key, on=0, val=b""):
        return self._put(key, on, [val])

    def appendOnIoDupVal(self, key, val):
        ons = [k[1] for k in self.e if k[0] == key]
        on = max(ons) + 1 if ons else 0
        if on > MaxON:
            raise Bad(ValueError)
        self._put(key, on, [val])
        return on

    def getOnIoDupVals(self, key, on=0):
        return self.vals(key, on)

    def getOnIoDupItemIter(self, key, on=0, ion=0):
        return [(key, on, v) for i, v in sorted(self.e.get((key, on), [])) if i >= ion]

    def getOnIoDupLast(self, key, on=0):
        vs = self.vals(key, on)
        return vs[-1] if vs else None

    def _sel(self, key, cond):
        return [(k[0], k[1], x[1]) for r, k, x in self.flat() if not key or (k[0] == key and cond(k[1]))]

    def getOnIoDupLastItemIter(self, key=b"", on=0):
        last = {}
        for k, o, v in self._sel(key, lambda o: o >= on):
            last[(k, o)] = (k, o, v)
        return list(last.values())

    def getOnIoDupLastValIter(self, key=b"", on=0):
        return [x[2] for x in self.getOnIoDupLastItemIter(key, on)]

    def delOnIoDups(self, key, on=0):
        return self._del(key, on)

    def delOnIoDupVal(self, key, on=0, val=b""):
        return self._del(key, on, val)

    def cntOnIoDups(self, key, on=0):
        return len(self.vals(key, on))

    def getOnIoDupItemBackIter(self, key=b"", on=0):
        return list(reversed(self._sel(key, lambda o: o <= on)))

    def getOnIoDupValBackIter(self, key=b"", on=0):
        return [x[2] for x in self.getOnIoDupItemBackIter(key, on)]

    def getOnTopIoDupItemIter(self, top=b""):
        return [(k[0], k[1], x[1]) for r, k, x in self.flat() if r.startswith(top)]

    def getOnIoDupItemIterAll(self, key=b"", on=0):
        return self._sel(key, lambda o: o >= on)

    def getOnIoDupIterAll(self, key=b"", on=0):
        return [x[2] for x in self.getOnIoDupItemIterAll(key, on)]

    def cntOnAll(self, key=b"", on=0):
        return len(self._sel(key, lambda o: o >= on))

    def remOnAll(self, key=b"", on=0):
        doomed = [k for k in self.e if not key or (k[0] == key and k[1] >= on)]
        for k in doomed:
            del self.e[k]
        return bool(doomed)


DUPFAM = dict(
    dup=["putVals", "putVals", "addVal", "addVal", "getVals", "getValLast", "getValsIter", "cntVals", "delVals",
         "getTopItemIter", "cntTop", "cntAll", "remTop"],
    iodup=["putIoDupVals", "putIoDupVals", "addIoDupVal", "addIoDupVal", "getIoDupVals", "getIoDupItemIter",
           "getIoDupValLast", "delIoDupVals", "delIoDupVal", "delIoDupVal", "cntIoDups", "getTopIoDupItemIter",
           "getTopItemIter", "cntTop", "cntAll", "remTop"],
    oniodup=["putOnIoDupVals", "putOnIoDupVals", "addOnIoDupVal", "addOnIoDupVal", "appendOnIoDupVal",
             "appendOnIoDupVal", "getOnIoDupVals", "getOnIoDupItemIter", "getOnIoDupLast", "getOnIoDupLastValIter",
             "getOnIoDupLastItemIter", "delOnIoDups", "delOnIoDupVal", "delOnIoDupVal", "cntOnIoDups",
             "getOnIoDupValBackIter", "getOnIoDupItemBackIter", "getOnTopIoDupItemIter", "getOnIoDupItemIterAll",
             "getOnIoDupIterAll", "cntOnAll", "remOnAll", "getTopItemIter", "cntTop", "cntAll", "remTop"],
)
DUPWRITES = {n for n in dir(RefDup) if n[:3] in ("put", "add", "app", "rem", "del")}
DUPITERS = {n for n in dir(RefDup) if "Iter" in n}
DUPNOSEP = {"getTopItemIter", "cntTop", "cntAll", "remTop"} | set(DUPFAM["dup"]) | set(DUPFAM["iodup"])


def gen_dup_args(rng, n, keys, vals):
    """JSON-able kwargs.  Values are non-empty: LMDB keeps them as sorted keys."""
    k = enc(rng.choice(keys))
    val = enc(rng.choice(vals))

    def on():
        return rng.randrange(4) if rng.random() < 0.75 else rng.choice([5, 9, 17, 255, 256, 1 << 32])

    def vs():
        return [enc(rng.choice(vals)) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]

    if n in ("getTopItemIter", "cntTop", "remTop", "getTopIoDupItemIter", "getOnTopIoDupItemIter"):
        base = rng.choice(keys)
        top = rng.choice([b"", base, base[:1], base + b".", base[:-1], base + b".0"])
        if n == "remTop" and rng.random() < 0.6:
            top = base
        return dict(top=enc(top))
    if n == "cntAll":
        return {}
    if n in ("putVals", "putIoDupVals"):
        return dict(key=k, vals=vs())
    if n in ("addVal", "addIoDupVal", "delIoDupVal", "appendOnIoDupVal"):
        return dict(key=k, val=val)
    if n == "delVals":
        return dict(key=k, val=val if rng.random() < 0.7 else "")
    if n in ("getVals", "getValLast", "getValsIter", "cntVals", "getIoDupVals", "getIoDupValLast", "delIoDupVals",
             "cntIoDups"):
        return dict(key=k)
    if n == "getIoDupItemIter":
        return dict(key=k, ion=rng.choice([0, 0, 1, 2, 5]))
    if n == "putOnIoDupVals":
        return dict(key=k, on=on(), vals=vs())
    if n in ("addOnIoDupVal", "delOnIoDupVal"):
        return dict(key=k, on=on(), val=val)
    if n == "getOnIoDupItemIter":
        return dict(key=k, on=on(), ion=rng.choice([0, 0, 1, 2, 5]))
    if n in ("getOnIoDupVals", "getOnIoDupLast", "delOnIoDups", "cntOnIoDups"):
        return dict(key=k, on=on())
    if n in ("getOnIoDupLastValIter", "getOnIoDupLastItemIter", "getOnIoDupValBackIter", "getOnIoDupItemBackIter",
             "getOnIoDupItemIterAll", "getOnIoDupIterAll", "cntOnAll", "remOnAll"):
        if rng.random() < 0.15:
            return dict(key="", on=0)
        return dict(key=k, on=on())
    raise KeyError(n)
