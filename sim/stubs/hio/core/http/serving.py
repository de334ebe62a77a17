from collections import deque

from ...base import doing, tyming
from .._net import NET
from .clienting import Response


class StaticSink:
    def __init__(self, *pa, **kwa):
        pass

    def __call__(self, req, rep):
        import falcon
        raise falcon.HTTPNotFound()


class Server(tyming.Tymee):
    def __init__(self, *, tymth=None, host="", port=0, app=None, servant=None, name=None, **kwa):
        super().__init__(tymth=tymth)
        self.host = host
        self.port = port
        self.app = app
        self.opened = False
        self.inbox = []
        self.streams = []

    def reopen(self):
        prev = NET.https.get(self.port)
        if prev is not None and prev is not self and prev.opened:
            return False
        NET.https[self.port] = self
        self.opened = True
        return True

    def close(self):
        self.opened = False
        self.inbox = []
        self.streams = []
        if NET.https.get(self.port) is self:
            del NET.https[self.port]

    def _enqueue(self, client, req, due):
        self.inbox.append((due, len(self.inbox), client, req))

    def service(self):
        import falcon
        if not self.opened:
            return
        now = NET.now()
        ready = [x for x in self.inbox if x[0] <= now]
        self.inbox = [x for x in self.inbox if x[0] > now]
        for due, _, client, req in ready:
            freq = falcon.Request(req.method, req.path, req.query, req.headers, req.body, port=self.port)
            try:
                resp = self.app.handle(freq)
            except Exception as ex:   # WSGI server answers 500 on application error
                NET.count("http_app_error")
                NET.last_error = ex
                resp = falcon.Response()
                resp.status = falcon.HTTP_500
            d = NET.decide("response", port=self.port, client=client, req=req, resp=resp)
            if d.get("drop"):
                NET.count("http_rep_lost")
                continue
            if resp.stream is not None:
                client.waited = False
                self.streams.append((client, iter(resp.stream)))
                continue
            client._deliver(Response(int(str(resp.status).split()[0]), dict(resp.headers), resp.render()))
        keep = []
        for client, it in self.streams:
            if client.closed:
                continue
            try:
                chunk = next(it)
            except StopIteration:
                continue
            d = NET.decide("chunk", port=self.port, client=client, chunk=chunk)
            if d.get("cut"):
                NET.count("http_stream_cut")
                continue
            if not d.get("drop"):
                client._chunk(chunk)
            keep.append((client, it))
        self.streams = keep

    serviceAll = service


class ServerDoer(doing.Doer):
    def __init__(self, server, **kwa):
        self.server = server
        super().__init__(**kwa)

    def wind(self, tymth):
        super().wind(tymth)
        self.server.wind(tymth)

    def enter(self, *, temp=None):
        self.server.reopen()

    def recur(self, tyme):
        self.server.service()

    def exit(self):
        self.server.close()
