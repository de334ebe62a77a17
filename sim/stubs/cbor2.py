"""Stand-in for cbor2: CBOR, the subset with str/bytes/int/float/bool/None/list/dict."""
import io
import struct


class CBORError(Exception):
    pass


class CBORDecodeError(CBORError):
    pass


class CBORDecodeValueError(CBORDecodeError, ValueError):
    pass


class CBORDecodeEOF(CBORDecodeError, EOFError):
    pass


class CBOREncodeError(CBORError):
    pass


def _head(major, n, w):
    if n < 24:
        w.append(major << 5 | n)
    elif n <= 0xff:
        w += struct.pack(">BB", major << 5 | 24, n)
    elif n <= 0xffff:
        w += struct.pack(">BH", major << 5 | 25, n)
    elif n <= 0xffffffff:
        w += struct.pack(">BI", major << 5 | 26, n)
    else:
        w += struct.pack(">BQ", major << 5 | 27, n)


def _enc(o, w):
    if o is None:
        w.append(0xf6)
    elif o is True:
        w.append(0xf5)
    elif o is False:
        w.append(0xf4)
    elif isinstance(o, int):
        _head(0, o, w) if o >= 0 else _head(1, -1 - o, w)
    elif isinstance(o, float):
        w += struct.pack(">Bd", 0xfb, o)
    elif isinstance(o, str):
        b = o.encode("utf-8")
        _head(3, len(b), w)
        w += b
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        _head(2, len(b), w)
        w += b
    elif isinstance(o, (list, tuple)):
        _head(4, len(o), w)
        for x in o:
            _enc(x, w)
    elif isinstance(o, dict):
        _head(5, len(o), w)
        for k, v in o.items():
            _enc(k, w)
            _enc(v, w)
    else:
        raise CBOREncodeError(f"cannot serialize type {type(o)}")


def dumps(o, **kwa):
    w = bytearray()
    _enc(o, w)
    return bytes(w)


def _take(f, n):
    b = f.read(n)
    if len(b) != n:
        raise CBORDecodeEOF(f"premature end of stream (expected to read {n} bytes, got {len(b)} instead)")
    return b


def _dec(f):
    t = _take(f, 1)[0]
    major, low = t >> 5, t & 31
    if low < 24:
        n = low
    elif low < 28:
        n = int.from_bytes(_take(f, 1 << (low - 24)), "big")
    else:
        raise CBORDecodeValueError(f"unsupported subtype {low:#x}")
    if major == 0:
        return n
    if major == 1:
        return -1 - n
    if major == 2:
        return _take(f, n)
    if major == 3:
        try:
            return _take(f, n).decode("utf-8")
        except UnicodeDecodeError as ex:
            raise CBORDecodeValueError("error decoding unicode string") from ex
    if major == 4:
        return [_dec(f) for _ in range(n)]
    if major == 5:
        out = {}
        for _ in range(n):
            k = _dec(f)
            try:
                out[k] = _dec(f)
            except TypeError as ex:
                raise CBORDecodeValueError("unhashable key") from ex
        return out
    if major == 7:
        if low in (20, 21, 22):
            return {20: False, 21: True, 22: None}[low]
        if low == 25:
            return struct.unpack(">e", n.to_bytes(2, "big"))[0]
        if low == 26:
            return struct.unpack(">f", n.to_bytes(4, "big"))[0]
        if low == 27:
            return struct.unpack(">d", n.to_bytes(8, "big"))[0]
    raise CBORDecodeValueError(f"unsupported item {t:#x}")


def load(fp, **kwa):
    return _dec(fp)


def loads(s, **kwa):
    return _dec(io.BytesIO(bytes(s)))


def dump(o, fp, **kwa):
    fp.write(dumps(o))
