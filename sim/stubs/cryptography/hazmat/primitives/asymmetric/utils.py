def _enc(i):
    b = i.to_bytes((i.bit_length() + 8) // 8, "big")
    return b"\x02" + bytes([len(b)]) + b


def encode_dss_signature(r, s):
    body = _enc(r) + _enc(s)
    return b"\x30" + bytes([len(body)]) + body


def decode_dss_signature(der):
    assert der[0] == 0x30
    off = 2
    out = []
    for _ in range(2):
        assert der[off] == 2
        n = der[off + 1]
        out.append(int.from_bytes(der[off + 2:off + 2 + n], "big"))
        off += 2 + n
    return tuple(out)
