"""Stand-in for msgpack: MessagePack, the subset with str/bytes/int/float/bool/None/list/dict."""
import struct


class UnpackException(Exception):
    pass


class ExtraData(UnpackException, ValueError):
    def __init__(self, unpacked=None, extra=b""):
        self.unpacked, self.extra = unpacked, extra


class FormatError(ValueError, UnpackException):
    pass


class OutOfData(UnpackException):
    pass


def packb(o, **kwa):
    out = bytearray()
    _pack(o, out)
    return bytes(out)


def _pack(o, w):
    if o is None:
        w.append(0xc0)
    elif o is True:
        w.append(0xc3)
    elif o is False:
        w.append(0xc2)
    elif isinstance(o, int):
        if 0 <= o < 128:
            w.append(o)
        elif -32 <= o < 0:
            w += struct.pack("b", o)
        elif 0 <= o <= 0xff:
            w += struct.pack(">BB", 0xcc, o)
        elif -0x80 <= o < 0:
            w += struct.pack(">Bb", 0xd0, o)
        elif 0 <= o <= 0xffff:
            w += struct.pack(">BH", 0xcd, o)
        elif -0x8000 <= o < 0:
            w += struct.pack(">Bh", 0xd1, o)
        elif 0 <= o <= 0xffffffff:
            w += struct.pack(">BI", 0xce, o)
        elif -0x80000000 <= o < 0:
            w += struct.pack(">Bi", 0xd2, o)
        elif 0 <= o <= 0xffffffffffffffff:
            w += struct.pack(">BQ", 0xcf, o)
        elif -0x8000000000000000 <= o < 0:
            w += struct.pack(">Bq", 0xd3, o)
        else:
            raise OverflowError("Integer value out of range")
    elif isinstance(o, float):
        w += struct.pack(">Bd", 0xcb, o)
    elif isinstance(o, str):
        b = o.encode("utf-8")
        n = len(b)
        if n < 32:
            w.append(0xa0 | n)
        elif n <= 0xff:
            w += struct.pack(">BB", 0xd9, n)
        elif n <= 0xffff:
            w += struct.pack(">BH", 0xda, n)
        else:
            w += struct.pack(">BI", 0xdb, n)
        w += b
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        n = len(b)
        w += struct.pack(">BB", 0xc4, n) if n <= 0xff else struct.pack(">BH", 0xc5, n) if n <= 0xffff \
            else struct.pack(">BI", 0xc6, n)
        w += b
    elif isinstance(o, (list, tuple)):
        n = len(o)
        if n < 16:
            w.append(0x90 | n)
        elif n <= 0xffff:
            w += struct.pack(">BH", 0xdc, n)
        else:
            w += struct.pack(">BI", 0xdd, n)
        for x in o:
            _pack(x, w)
    elif isinstance(o, dict):
        n = len(o)
        if n < 16:
            w.append(0x80 | n)
        elif n <= 0xffff:
            w += struct.pack(">BH", 0xde, n)
        else:
            w += struct.pack(">BI", 0xdf, n)
        for k, v in o.items():
            _pack(k, w)
            _pack(v, w)
    else:
        raise TypeError(f"can not serialize {type(o).__name__!r} object")


class _R:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise ValueError("Unpack failed: incomplete input")
        v = self.b[self.i:self.i + n]
        self.i += n
        return v

    def u(self, f):
        return struct.unpack(">" + f, self.take(struct.calcsize(">" + f)))[0]


def _unpack(r):
    t = r.u("B")
    if t < 0x80:
        return t
    if t >= 0xe0:
        return t - 256
    if t < 0x90:
        return _map(r, t & 15)
    if t < 0xa0:
        return [_unpack(r) for _ in range(t & 15)]
    if t < 0xc0:
        return r.take(t & 31).decode("utf-8")
    if t in (0xc0, 0xc2, 0xc3):
        return {0xc0: None, 0xc2: False, 0xc3: True}[t]
    if t in (0xc4, 0xc5, 0xc6):
        return bytes(r.take(r.u("BHI"[t - 0xc4])))
    if t == 0xca:
        return r.u("f")
    if t == 0xcb:
        return r.u("d")
    if 0xcc <= t <= 0xcf:
        return r.u("BHIQ"[t - 0xcc])
    if 0xd0 <= t <= 0xd3:
        return r.u("bhiq"[t - 0xd0])
    if 0xd9 <= t <= 0xdb:
        return r.take(r.u("BHI"[t - 0xd9])).decode("utf-8")
    if t in (0xdc, 0xdd):
        return [_unpack(r) for _ in range(r.u("HI"[t - 0xdc]))]
    if t in (0xde, 0xdf):
        return _map(r, r.u("HI"[t - 0xde]))
    raise FormatError(f"unsupported type {t:#x}")


def _map(r, n):
    out = {}
    for _ in range(n):
        k = _unpack(r)
        if not isinstance(k, (str, bytes)):
            raise ValueError(f"{type(k)} is not allowed for map key when strict_map_key=True")
        out[k] = _unpack(r)
    return out


def unpackb(packed, **kwa):
    r = _R(bytes(packed))
    o = _unpack(r)
    if r.i != len(r.b):
        raise ExtraData(o, r.b[r.i:])
    return o


dumps, loads = packb, unpackb


def pack(o, stream, **kwa):
    stream.write(packb(o))


def unpack(stream, **kwa):
    return unpackb(stream.read())


dump, load = pack, unpack
