import json as _json

from hio.help import Hict
from urllib import parse as _parse


class Result:
    def __init__(self, resp):
        self.status = resp.status
        self.status_code = int(str(resp.status).split()[0])
        self.headers = Hict(resp.headers)
        if resp.stream is not None:
            self.content = b"".join(bytes(c) for c in resp.stream)
        else:
            self.content = resp.render()

    @property
    def text(self):
        return self.content.decode("utf-8")

    @property
    def json(self):
        return _json.loads(self.content)


class TestClient:
    __test__ = False

    def __init__(self, app, headers=None):
        self.app = app

    def simulate_request(self, method="GET", path="/", query_string="", headers=None, body=None, json=None,
                         params=None, **kwa):
        from . import Request
        if json is not None:
            body = _json.dumps(json).encode()
            headers = dict(headers or {})
            headers.setdefault("Content-Type", "application/json")
        if isinstance(body, str):
            body = body.encode("utf-8")
        if params:
            query_string = _parse.urlencode(params)
        if "?" in path:
            path, query_string = path.split("?", 1)
        return Result(self.app.handle(Request(method, path, query_string, headers or {}, body or b"")))

    def simulate_get(self, path="/", **kwa):
        return self.simulate_request("GET", path, **kwa)

    def simulate_post(self, path="/", **kwa):
        return self.simulate_request("POST", path, **kwa)

    def simulate_put(self, path="/", **kwa):
        return self.simulate_request("PUT", path, **kwa)

    def simulate_delete(self, path="/", **kwa):
        return self.simulate_request("DELETE", path, **kwa)

    def simulate_options(self, path="/", **kwa):
        return self.simulate_request("OPTIONS", path, **kwa)


def create_environ(*pa, **kwa):
    return {}


class helpers:
    @staticmethod
    def create_environ(**kwa):
        return kwa
