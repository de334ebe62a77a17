class Console:
    def __init__(self, *pa, **kwa):
        self.opened = False

    def reopen(self):
        self.opened = True
        return True

    def close(self):
        self.opened = False

    def get(self, bs=None):
        return b""

    def put(self, data=b""):
        return len(data)


class ConsoleServer(Console):
    pass
