def create_parser(*pa, **kwa):
    raise NotImplementedError("simulation stub")
