import json

from ...help import Hict
from collections import deque
from types import SimpleNamespace

from ...base import doing, tyming
from .._net import NET


class Response:
    def __init__(self, status, headers, body, request=None):
        self.status = status
        self.headers = Hict(headers)
        self.body = bytearray(body)
        self.data = None
        self.request = request
        self.version = (1, 1)
        self.reason = ""
        self.error = None
        ct = str(headers.get("content-type", ""))
        if "json" in ct and body:
            try:
                self.data = json.loads(body)
            except ValueError:
                pass

    def __getitem__(self, k):
        return getattr(self, k)

    def get(self, k, d=None):
        return getattr(self, k, d)

    def __contains__(self, k):
        return hasattr(self, k)


class Client(tyming.Tymee):
    def __init__(self, *, tymth=None, hostname="127.0.0.1", port=None, scheme="http", path="/",
                 portOptional=False, **kwa):
        super().__init__(tymth=tymth)
        self.hostname = hostname
        self.port = port if port is not None else (443 if scheme == "https" else 80)
        self.scheme = scheme
        self.requester = SimpleNamespace(path=path or "/", hostname=hostname, port=self.port, scheme=scheme)
        self.connector = SimpleNamespace(accepted=True, connected=True, opened=True, ha=(hostname, self.port))
        self.requests = deque()
        self.responses = deque()
        self.events = deque()
        self.waited = False
        self.closed = False
        self._inflight = None
        self._stream = None
        self._sse = ""
        self.history = []

    def reopen(self):
        self.closed = False
        return True

    def close(self):
        self.closed = True
        if self._stream is not None:
            self._stream = None

    def request(self, method=None, path=None, qargs=None, fragment=None, headers=None, body=None, data=None,
                fargs=None, **kwa):
        path = path if path is not None else self.requester.path
        q = ""
        if "?" in path:
            path, q = path.split("?", 1)
        if qargs:
            from urllib.parse import urlencode
            q = (q + "&" if q else "") + urlencode(dict(qargs))
        if data is not None:
            body = json.dumps(data).encode("utf-8")
            headers = dict(headers.items()) if headers is not None else {}
            headers.setdefault("Content-Type", "application/json")
        self.requests.append(SimpleNamespace(method=method or "GET", path=path or "/", query=q,
                                             headers=headers if headers is not None else {},
                                             body=bytes(body) if body else b""))

    transmit = request

    def respond(self):
        return self.responses.popleft() if self.responses else None

    def service(self):
        if self.closed:
            return
        if not self.waited and self.requests:
            req = self.requests.popleft()
            srv = NET.https.get(self.port)
            d = NET.decide("request", port=self.port, client=self, req=req)
            if srv is None or not srv.opened or d.get("drop"):
                NET.count("http_refused" if srv is None else "http_req_lost")
                self.waited = True     # never answered: connection hangs
                if d.get("retryable", True) and srv is None:
                    self.requests.appendleft(req)
                    self.waited = False
                return
            self.waited = True
            srv._enqueue(self, req, NET.now() + d.get("delay", 0.0))

    serviceAll = service

    # called by server side
    def _deliver(self, resp):
        self.waited = False
        if not self.closed:
            self.responses.append(resp)

    def _chunk(self, data):
        if self.closed or not data:
            return
        self._sse += bytes(data).decode("utf-8")
        while "\n\n" in self._sse:
            block, self._sse = self._sse.split("\n\n", 1)
            evt = {}
            lines = []
            for line in block.split("\n"):
                if ":" not in line:
                    continue
                k, v = line.split(":", 1)
                v = v[1:] if v.startswith(" ") else v
                if k == "data":
                    lines.append(v)
                elif k == "id":
                    evt["id"] = v
                elif k == "event":
                    evt["name"] = v
                elif k == "retry":
                    evt["retry"] = int(v)
            if lines:
                evt["data"] = "\n".join(lines)
            self.events.append(evt)


class ClientDoer(doing.Doer):
    def __init__(self, client, **kwa):
        self.client = client
        super().__init__(**kwa)

    def wind(self, tymth):
        super().wind(tymth)
        self.client.wind(tymth)

    def enter(self, *, temp=None):
        self.client.reopen()

    def recur(self, tyme):
        self.client.service()

    def exit(self):
        self.client.close()


def openClient(*pa, **kwa):
    raise NotImplementedError
