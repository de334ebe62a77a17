from ...base import doing, tyming
from .._net import NET


class Remoter(tyming.Tymee):
    def __init__(self, ca, client):
        super().__init__()
        self.ca = ca
        self.client = client
        self.rxbs = bytearray()
        self.txbs = bytearray()
        self.cutoff = False
        self.tymeout = 0.0
        self.tymer = tyming.Tymer(tymth=lambda: 0.0)

    def tx(self, data):
        self.txbs.extend(data)

    def serviceSends(self):
        if self.txbs:
            d = NET.decide("tcp", ha=self.ca, n=len(self.txbs))
            if d.get("stall"):
                return
            n = d.get("short") or len(self.txbs)
            self.client.rxbs.extend(self.txbs[:n])
            del self.txbs[:n]

    def close(self):
        self.cutoff = True


class Server(tyming.Tymee):
    def __init__(self, *, tymth=None, host="", port=0, ha=None, wl=None, tymeout=None, **kwa):
        super().__init__(tymth=tymth)
        if ha:
            host, port = ha
        self.ha = (host, port)
        self.opened = False
        self.ixes = {}

    def reopen(self):
        if self.ha[1] in NET.tcps and NET.tcps[self.ha[1]] is not self and NET.tcps[self.ha[1]].opened:
            return False
        NET.tcps[self.ha[1]] = self
        self.opened = True
        return True

    def close(self):
        self.opened = False
        for ix in self.ixes.values():
            ix.client.close()
        if NET.tcps.get(self.ha[1]) is self:
            del NET.tcps[self.ha[1]]

    def _accept(self, ca, client):
        ix = Remoter(ca, client)
        self.ixes[ca] = ix
        return ix

    def removeIx(self, ca, shutclose=True):
        if ca not in self.ixes:
            raise ValueError(f"Nonexistent {ca=}")
        del self.ixes[ca]

    closeIx = removeIx

    def service(self):
        for ix in list(self.ixes.values()):
            ix.serviceSends()

    serviceAll = service


class ServerTls(Server):
    pass


class ServerDoer(doing.Doer):
    def __init__(self, server, **kwa):
        self.server = server
        super().__init__(**kwa)

    def wind(self, tymth):
        super().wind(tymth)
        self.server.wind(tymth)

    def enter(self, *, temp=None):
        self.server.reopen()

    def recur(self, tyme):
        self.server.service()

    def exit(self):
        self.server.close()
