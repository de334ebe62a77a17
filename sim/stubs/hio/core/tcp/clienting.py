from ...base import doing, tyming
from .._net import NET


class Client(tyming.Tymee):
    def __init__(self, *, tymth=None, host="127.0.0.1", port=0, ha=None, wl=None, **kwa):
        super().__init__(tymth=tymth)
        if ha:
            host, port = ha
        self.ha = (host or "127.0.0.1", port)
        self.rxbs = bytearray()
        self.txbs = bytearray()
        self.opened = False
        self.accepted = False
        self.connected = False
        self.cutoff = False
        self._peer = None
        self.ca = None

    def reopen(self):
        self.opened = True
        self.accepted = self.connected = self.cutoff = False
        self._peer = None
        return True

    def close(self):
        if self._peer is not None:
            self._peer.cutoff = True
        self._peer = None
        self.opened = self.accepted = self.connected = False

    def serviceConnect(self):
        if not self.opened:
            self.reopen()
        if not self.connected:
            srv = NET.tcps.get(self.ha[1])
            if srv is not None and srv.opened:
                NET.ports += 1
                self.ca = ("127.0.0.1", NET.ports)
                self._peer = srv._accept(self.ca, self)
                self.accepted = self.connected = True
        return self.connected

    def tx(self, data):
        self.txbs.extend(data)

    def service(self):
        self.serviceConnect()
        if self.connected and self.txbs:
            d = NET.decide("tcp", ha=self.ha, n=len(self.txbs))
            if d.get("stall"):
                return
            n = d.get("short") or len(self.txbs)
            self._peer.rxbs.extend(self.txbs[:n])
            del self.txbs[:n]

    serviceAll = service


class ClientDoer(doing.Doer):
    def __init__(self, client, **kwa):
        self.client = client
        super().__init__(**kwa)

    def wind(self, tymth):
        super().wind(tymth)
        self.client.wind(tymth)

    def enter(self, *, temp=None):
        self.client.reopen()

    def recur(self, tyme):
        self.client.service()

    def exit(self):
        self.client.close()
