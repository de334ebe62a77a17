VALID_METHODS = {3: ["get", "post", "put", "patch", "delete", "head", "options", "trace"]}


class _V:
    major = 3


class APISpec:
    def __init__(self, *pa, **kwa):
        self.openapi_version = _V()
        self.paths = {}

    def path(self, path=None, operations=None, **kwa):
        self.paths[path] = operations

    def to_yaml(self):
        return repr(self.paths)
