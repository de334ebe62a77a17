from ..base import doing


class WireLog:
    def __init__(self, *pa, **kwa):
        self.opened = False

    def reopen(self, **kwa):
        self.opened = True
        return True

    def close(self, **kwa):
        self.opened = False


class WireLogDoer(doing.Doer):
    def __init__(self, wl=None, **kwa):
        super().__init__(**kwa)
        self.wl = wl
