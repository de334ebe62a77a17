class CIMultiDict(dict):
    pass


class MultiDict(dict):
    pass
