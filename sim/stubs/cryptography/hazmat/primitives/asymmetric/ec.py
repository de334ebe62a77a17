"""Small pure-python ECDSA (P-256, secp256k1) with deterministic nonces."""
import hashlib
import hmac

from . import utils
from ....exceptions import InvalidSignature
from ..serialization import Encoding, PublicFormat


class SECP256R1:
    name = "secp256r1"
    p = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
    a = p - 3
    b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
    n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
    G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
         0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)


class SECP256K1:
    name = "secp256k1"
    p = 2**256 - 2**32 - 977
    a = 0
    b = 7
    n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
    G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
         0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


class ECDSA:
    def __init__(self, algorithm):
        self.algorithm = algorithm


def _jdbl(P, c):
    X, Y, Z = P
    if not Y:
        return (0, 1, 0)
    p = c.p
    S = 4 * X * Y * Y % p
    M = (3 * X * X + c.a * pow(Z, 4, p)) % p
    X2 = (M * M - 2 * S) % p
    return X2, (M * (S - X2) - 8 * pow(Y, 4, p)) % p, 2 * Y * Z % p


def _jadd(P, Q, c):
    if not P[2]:
        return Q
    if not Q[2]:
        return P
    p = c.p
    U1 = P[0] * Q[2] ** 2 % p
    U2 = Q[0] * P[2] ** 2 % p
    S1 = P[1] * Q[2] ** 3 % p
    S2 = Q[1] * P[2] ** 3 % p
    if U1 == U2:
        return _jdbl(P, c) if S1 == S2 else (0, 1, 0)
    H = U2 - U1
    R = S2 - S1
    H2 = H * H % p
    H3 = H * H2 % p
    V = U1 * H2 % p
    X = (R * R - H3 - 2 * V) % p
    return X, (R * (V - X) - S1 * H3) % p, H * P[2] * Q[2] % p


def _mul(k, P, c):
    R = (0, 1, 0)
    Q = (P[0], P[1], 1)
    while k:
        if k & 1:
            R = _jadd(R, Q, c)
        Q = _jdbl(Q, c)
        k >>= 1
    return R


def _aff(P, c):
    if not P[2]:
        return None
    zi = pow(P[2], -1, c.p)
    return P[0] * zi * zi % c.p, P[1] * pow(zi, 3, c.p) % c.p


class EllipticCurvePublicKey:
    def __init__(self, curve, point):
        self.curve = curve
        self.point = point

    @classmethod
    def from_encoded_point(cls, curve, data):
        data = bytes(data)
        c = curve
        if len(data) == 33 and data[0] in (2, 3):
            x = int.from_bytes(data[1:], "big")
            y2 = (pow(x, 3, c.p) + c.a * x + c.b) % c.p
            y = pow(y2, (c.p + 1) // 4, c.p)
            if y * y % c.p != y2:
                raise ValueError("Invalid point")
            if y & 1 != data[0] & 1:
                y = c.p - y
            return cls(curve, (x, y))
        raise ValueError("Unsupported elliptic curve point type")

    def public_bytes(self, encoding, format):
        x, y = self.point
        return bytes([2 + (y & 1)]) + x.to_bytes(32, "big")

    def verify(self, der, ser, alg):
        c = self.curve
        r, s = utils.decode_dss_signature(der)
        if not (0 < r < c.n and 0 < s < c.n):
            raise InvalidSignature()
        z = int.from_bytes(hashlib.sha256(ser).digest(), "big")
        w = pow(s, -1, c.n)
        R = _aff(_jadd(_mul(z * w % c.n, c.G, c), _mul(r * w % c.n, self.point, c), c), c)
        if R is None or R[0] % c.n != r:
            raise InvalidSignature()


class EllipticCurvePrivateKey:
    def __init__(self, curve, d):
        self.curve = curve
        self.d = d

    def public_key(self):
        return EllipticCurvePublicKey(self.curve, _aff(_mul(self.d, self.curve.G, self.curve), self.curve))

    def sign(self, ser, alg):
        c = self.curve
        h = hashlib.sha256(ser).digest()
        z = int.from_bytes(h, "big")
        k = int.from_bytes(hmac.new(self.d.to_bytes(32, "big"), h, "sha512").digest(), "big") % c.n or 1
        r = _aff(_mul(k, c.G, c), c)[0] % c.n
        s = pow(k, -1, c.n) * (z + r * self.d) % c.n
        return utils.encode_dss_signature(r, s)


def derive_private_key(d, curve):
    if not 0 < d < curve.n:
        raise ValueError("private_value must be in range")
    return EllipticCurvePrivateKey(curve, d)
