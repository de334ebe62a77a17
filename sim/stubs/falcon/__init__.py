"""Mini falcon: routing, request/response and errors for the simulated HTTP net."""
import io
import json
import re
import types
from urllib import parse as _parse

MEDIA_JSON = "application/json"
_codes = {200: "OK", 201: "Created", 202: "Accepted", 204: "No Content", 400: "Bad Request",
          401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed",
          406: "Not Acceptable", 409: "Conflict", 412: "Precondition Failed",
          417: "Expectation Failed", 423: "Locked", 424: "Failed Dependency",
          500: "Internal Server Error", 501: "Not Implemented", 503: "Service Unavailable"}
for _c, _t in _codes.items():
    globals()[f"HTTP_{_c}"] = f"{_c} {_t}"
    globals()[f"HTTP_{_t.upper().replace(' ', '_')}"] = f"{_c} {_t}"


class HTTPError(Exception):
    def __init__(self, status=HTTP_500, *, title=None, description=None, headers=None, **kwa):
        self.status = status
        self.title = title or status
        self.description = description
        super().__init__(status, description)


class HTTPBadRequest(HTTPError):
    def __init__(self, *, title=None, description=None, **kwa):
        super().__init__(HTTP_400, title=title, description=description)


class HTTPNotFound(HTTPError):
    def __init__(self, *, title=None, description=None, **kwa):
        super().__init__(HTTP_404, title=title, description=description)


class HTTPInvalidParam(HTTPBadRequest):
    def __init__(self, msg, name, **kwa):
        super().__init__(description=f"invalid {name}: {msg}")


class HTTPMissingParam(HTTPBadRequest):
    pass


class Request:
    def __init__(self, method, path, query="", headers=None, body=b"", host="sim", scheme="http", port=80):
        self.method = method
        self.path = path
        self.query_string = query
        self.params = {}
        for k, v in _parse.parse_qsl(query or "", keep_blank_values=False):
            if k in self.params:
                prev = self.params[k]
                self.params[k] = (prev if isinstance(prev, list) else [prev]) + [v]
            else:
                self.params[k] = v
        self.headers = {str(k).upper(): (v.decode("utf-8") if isinstance(v, (bytes, bytearray)) else str(v))
                        for k, v in (headers.items() if hasattr(headers, "items") else (headers or []))}
        self.body = bytes(body or b"")
        self.bounded_stream = io.BytesIO(self.body)
        self.stream = self.bounded_stream
        self.context = types.SimpleNamespace()
        self.host = host
        self.scheme = scheme
        self.port = port
        self.url = f"{scheme}://{host}{path}"

    @property
    def content_type(self):
        return self.headers.get("CONTENT-TYPE")

    @property
    def content_length(self):
        return len(self.body)

    def get_header(self, name, required=False, default=None):
        return self.headers.get(name.upper(), default)

    @property
    def media(self):
        return self.get_media()

    def get_media(self, default_when_empty=None):
        if not self.body:
            raise HTTPBadRequest(title="Invalid JSON", description="empty body")
        try:
            return json.loads(self.body)
        except ValueError:
            raise HTTPBadRequest(title="Invalid JSON", description="could not parse")

    def get_param(self, name, required=False, default=None, store=None):
        if name in self.params:
            v = self.params[name]
            return v[-1] if isinstance(v, list) else v
        if required:
            raise HTTPMissingParam(description=name)
        return default

    def get_param_as_int(self, name, required=False, default=None, **kwa):
        v = self.get_param(name, required=required)
        if v is None:
            return default
        try:
            return int(v)
        except ValueError:
            raise HTTPInvalidParam("not an integer", name)

    def get_param_as_bool(self, name, required=False, default=None, **kwa):
        v = self.get_param(name, required=required)
        return default if v is None else v.lower() in ("true", "1", "yes", "on", "t", "y")


class Response:
    def __init__(self):
        self.status = HTTP_200
        self.headers = {}
        self.data = None
        self.text = None
        self.media = None
        self.stream = None
        self.content_type = None
        self.complete = False
        self.context = types.SimpleNamespace()

    def set_header(self, name, value):
        self.headers[name.lower()] = value
        if name.lower() == "content-type":
            self.content_type = value

    def append_header(self, name, value):
        self.set_header(name, value)

    def get_header(self, name, default=None):
        return self.headers.get(name.lower(), default)

    @property
    def body(self):
        return self.text

    @body.setter
    def body(self, v):
        self.text = v

    def render(self):
        if self.data is not None:
            return bytes(self.data)
        if self.text is not None:
            return self.text.encode("utf-8") if isinstance(self.text, str) else bytes(self.text)
        if self.media is not None:
            return json.dumps(self.media).encode("utf-8")
        return b""


class CORSMiddleware:
    def __init__(self, *pa, **kwa):
        pass


class App:
    def __init__(self, *pa, middleware=None, cors_enable=False, **kwa):
        if middleware is None:
            middleware = []
        self._middleware = list(middleware) if isinstance(middleware, (list, tuple)) else [middleware]
        self._routes = []
        self._sinks = []
        self._static = []
        self.req_options = types.SimpleNamespace(media_handlers={})
        self.resp_options = types.SimpleNamespace(media_handlers={})

    def add_middleware(self, m):
        self._middleware.extend(m if isinstance(m, (list, tuple)) else [m])

    def add_route(self, uri, resource, suffix=None, **kwa):
        pat = re.compile("^" + re.sub(r"\\\{(\w+)(?::\w+)?\\\}", r"(?P<\1>[^/]+)", re.escape(uri)) + "/?$")
        self._routes.append((uri, pat, resource, suffix))

    def add_sink(self, sink, prefix="/"):
        self._sinks.append((prefix, sink))

    def add_static_route(self, *pa, **kwa):
        pass

    def handle(self, req):
        resp = Response()
        self._handle(req, resp)
        if resp.content_type:
            resp.headers['content-type'] = resp.content_type
        else:
            resp.headers.setdefault('content-type', MEDIA_JSON)
        return resp

    def _handle(self, req, resp):
        try:
            for mw in self._middleware:
                if hasattr(mw, "process_request"):
                    mw.process_request(req, resp)
                    if resp.complete:
                        return resp
            found = None
            for uri, pat, resource, suffix in self._routes:
                m = pat.match(req.path)
                if m:
                    found = True
                    name = f"on_{req.method.lower()}" + (f"_{suffix}" if suffix else "")
                    fn = getattr(resource, name, None)
                    if fn is None:
                        continue
                    fn(req, resp, **{k: _parse.unquote(v) for k, v in m.groupdict().items()})
                    return resp
            for prefix, sink in self._sinks:
                if req.path.startswith(prefix) if isinstance(prefix, str) else prefix.match(req.path):
                    sink(req, resp)
                    return resp
            resp.status = HTTP_405 if found else HTTP_404
        except HTTPError as ex:
            resp.status = ex.status
            resp.text = json.dumps(dict(title=ex.title, description=ex.description))
            resp.set_header("Content-Type", MEDIA_JSON)
            resp.data = resp.media = resp.stream = None
        return resp


API = App
from . import testing, responders
