"""Stand-in for pysodium.

Real Ed25519 / X25519 (libcrypto), real XSalsa20-Poly1305 sealed boxes and real
Argon2id; the only nondeterministic source, ``randombytes``, is the simulator's
seam: ``reseed(n)`` makes it a pure function of ``n``.
"""
import hashlib
import random as _random

import _simnative as _n

crypto_sign_SEEDBYTES = 32
crypto_sign_BYTES = 64
crypto_sign_PUBLICKEYBYTES = 32
crypto_sign_SECRETKEYBYTES = 64
crypto_pwhash_SALTBYTES = 16
crypto_pwhash_ALG_ARGON2ID13 = 2
crypto_pwhash_OPSLIMIT_MIN = 1
crypto_pwhash_MEMLIMIT_MIN = 8192
crypto_pwhash_OPSLIMIT_INTERACTIVE = 2
crypto_pwhash_MEMLIMIT_INTERACTIVE = 67108864
crypto_pwhash_OPSLIMIT_MODERATE = 3
crypto_pwhash_MEMLIMIT_MODERATE = 268435456
crypto_pwhash_OPSLIMIT_SENSITIVE = 4
crypto_pwhash_MEMLIMIT_SENSITIVE = 1073741824
crypto_box_SEALBYTES = 48
crypto_box_PUBLICKEYBYTES = 32
crypto_box_SECRETKEYBYTES = 32

_rng = _random.Random(0)
_P = 2**255 - 19


def reseed(seed):
    """Simulator seam: every later random byte is a function of seed."""
    _rng.seed(seed)


def randombytes(size, seed=None):
    if seed is not None:
        return hashlib.shake_256(bytes(seed)).digest(size)
    return _rng.randbytes(size)


_pubs, _sigs, _vers, _hash = {}, {}, {}, {}


def _cache(table, key, fn, cap=200000):
    got = table.get(key)
    if got is None:
        if len(table) > cap:
            table.clear()
        got = table[key] = fn()
    return got


def crypto_sign_seed_keypair(seed):
    seed = bytes(seed)
    if len(seed) != 32:
        raise ValueError("bad seed size")
    pk = _cache(_pubs, seed, lambda: _n.raw_public(_n.ED25519, seed))
    return pk, seed + pk


def crypto_sign_keypair():
    return crypto_sign_seed_keypair(randombytes(32))


def crypto_sign_detached(m, sk):
    m, sk = bytes(m), bytes(sk)
    if len(sk) != 64:
        raise ValueError("bad secret key size")
    return _cache(_sigs, (sk, hashlib.sha256(m).digest()), lambda: _n.ed_sign(sk[:32], m))


def crypto_sign_verify_detached(sig, m, pk):
    sig, m, pk = bytes(sig), bytes(m), bytes(pk)
    if len(sig) != 64:
        raise ValueError("invalid signature length")
    if len(pk) != 32:
        raise ValueError("invalid public key length")
    ok = _cache(_vers, (sig, pk, hashlib.sha256(m).digest()), lambda: 1 if _n.ed_verify(pk, m, sig) else 2)
    if ok != 1:
        raise ValueError("signature verification failed")


def crypto_pwhash(outlen, passwd, salt, opslimit, memlimit, alg=crypto_pwhash_ALG_ARGON2ID13):
    if hasattr(passwd, "encode"):
        passwd = passwd.encode()
    passwd, salt = bytes(passwd), bytes(salt)
    if len(salt) != 16:
        raise ValueError("bad salt size")
    return _cache(_hash, (outlen, passwd, salt, opslimit, memlimit),
                  lambda: _n.argon2id(outlen, passwd, salt, opslimit, memlimit // 1024))


def crypto_sign_pk_to_box_pk(pk):
    y = int.from_bytes(bytes(pk), "little") & ((1 << 255) - 1)
    return ((1 + y) * pow(1 - y, _P - 2, _P) % _P).to_bytes(32, "little")


def crypto_sign_sk_to_box_sk(sk):
    h = bytearray(hashlib.sha512(bytes(sk)[:32]).digest()[:32])
    h[0] &= 248
    h[31] &= 127
    h[31] |= 64
    return bytes(h)


def crypto_scalarmult_curve25519_base(sk):
    return _n.raw_public(_n.X25519, bytes(sk))


def _poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s, a, p = int.from_bytes(key[16:32], "little"), 0, (1 << 130) - 5
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b"\x01", "little")) * r % p
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, "little")


def _secretbox(m, nonce, k):
    stream = _n.xsalsa20_xor(bytes(32) + m, nonce, k)
    return _poly1305(stream[:32], stream[32:]) + stream[32:]


def _secretbox_open(c, nonce, k):
    sub = _n.xsalsa20_xor(bytes(32), nonce, k)
    if len(c) < 16 or _poly1305(sub, c[16:]) != c[:16]:
        raise ValueError("decryption failed")
    return _n.xsalsa20_xor(bytes(32) + c[16:], nonce, k)[32:]


def crypto_box_seal(msg, pk):
    if hasattr(msg, "encode"):
        msg = msg.encode()
    msg, pk = bytes(msg), bytes(pk)
    esk = randombytes(32)
    epk = crypto_scalarmult_curve25519_base(esk)
    nonce = hashlib.blake2b(epk + pk, digest_size=24).digest()
    return epk + _secretbox(msg, nonce, _n.hsalsa20(_n.x25519(esk, pk)))


def crypto_box_seal_open(c, pk, sk):
    c, pk, sk = bytes(c), bytes(pk), bytes(sk)
    if len(c) < 48:
        raise ValueError("ciphertext too short")
    nonce = hashlib.blake2b(c[:32] + pk, digest_size=24).digest()
    return _secretbox_open(c[32:], nonce, _n.hsalsa20(_n.x25519(sk, c[:32])))
