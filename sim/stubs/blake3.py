"""Stand-in for the blake3 package: real BLAKE3 (native/simcrypto.c)."""
import _simnative


class blake3:
    name = "blake3"
    digest_size = 32
    block_size = 64

    def __init__(self, data=b"", /, **kwa):
        self._data = bytearray(data)

    def update(self, data):
        self._data += data
        return self

    def digest(self, length=32, *, seek=0):
        return _simnative.blake3(self._data, length + seek)[seek:]

    def hexdigest(self, length=32, *, seek=0):
        return self.digest(length, seek=seek).hex()

    def copy(self):
        return blake3(self._data)
