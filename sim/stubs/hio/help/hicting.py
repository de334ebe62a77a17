"""Case-insensitive dict (Hict) and ordered multi dict (Mict)."""


class Mict:
    _fold = staticmethod(lambda k: k)

    def __init__(self, *args, **kwa):
        self._items = []
        self.extend(*args, **kwa)

    def _iter(self, arg):
        if isinstance(arg, Mict):
            return list(arg._items)
        if hasattr(arg, "items"):
            return list(arg.items())
        return list(arg)

    def extend(self, *args, **kwa):
        for arg in args:
            if arg is None:
                continue
            for k, v in self._iter(arg):
                self.add(k, v)
        for k, v in kwa.items():
            self.add(k, v)

    def add(self, key, value):
        self._items.append((str(key) if not isinstance(key, str) else key, value))

    def __getitem__(self, key):
        f = self._fold(key)
        for k, v in self._items:
            if self._fold(k) == f:
                return v
        raise KeyError(key)

    def __setitem__(self, key, value):
        f = self._fold(key)
        for i, (k, v) in enumerate(self._items):
            if self._fold(k) == f:
                self._items[i] = (k, value)
                self._items[i + 1:] = [(kk, vv) for kk, vv in self._items[i + 1:]
                                       if self._fold(kk) != f]
                return
        self._items.append((key, value))

    def __delitem__(self, key):
        f = self._fold(key)
        n = len(self._items)
        self._items = [(k, v) for k, v in self._items if self._fold(k) != f]
        if len(self._items) == n:
            raise KeyError(key)

    def __contains__(self, key):
        f = self._fold(key) if isinstance(key, str) else key
        return any(self._fold(k) == f for k, v in self._items)

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter([k for k, v in self._items])

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def getall(self, key, default=None):
        f = self._fold(key)
        vals = [v for k, v in self._items if self._fold(k) == f]
        if not vals and default is not None:
            return default
        return vals

    nabone = get

    def firsts(self):
        seen, out = set(), []
        for k, v in self._items:
            if self._fold(k) not in seen:
                seen.add(self._fold(k))
                out.append((k, v))
        return out

    def nab(self, key, *pa, **kwa):
        return self.getall(key)[-1]

    nabone = nab

    def nabone(self, key, *pa, default=None):
        vals = self.getall(key)
        return vals[-1] if vals else default

    def nabs(self, key):
        return list(reversed(self.getall(key)))

    def keys(self):
        return [k for k, v in self._items]

    def values(self):
        return [v for k, v in self._items]

    def items(self):
        return list(self._items)

    def pop(self, key, *default):
        try:
            v = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        f = self._fold(key)
        for i, (k, vv) in enumerate(self._items):
            if self._fold(k) == f:
                del self._items[i]
                break
        return v

    popone = pop

    def update(self, *args, **kwa):
        for arg in args:
            for k, v in self._iter(arg):
                self[k] = v
        for k, v in kwa.items():
            self[k] = v

    def clear(self):
        self._items = []

    def __eq__(self, other):
        if isinstance(other, Mict):
            return self._items == other._items
        return list(self.items()) == list(other.items()) if hasattr(other, "items") else NotImplemented

    def __repr__(self):
        return f"{type(self).__name__}({self._items!r})"


class Hict(Mict):
    _fold = staticmethod(lambda k: k.lower() if isinstance(k, str) else k)
