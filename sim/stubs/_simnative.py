"""ctypes access to simcrypto.c (compiled by setup, or on demand) and libcrypto."""
import ctypes
import os
import subprocess
import tempfile

_HERE = os.path.dirname(os.path.abspath(__file__))
_SRC = os.path.join(_HERE, "..", "native", "simcrypto.c")
if not os.path.exists(_SRC):
    _SRC = os.path.join(_HERE, "simcrypto.c")
_OUT = os.path.abspath(os.path.join(_HERE, "..", "..", "build", "libsimcrypto.so"))


def _build(out):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = f"{out}.{os.getpid()}.tmp"
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, _SRC], check=True)
    os.replace(tmp, out)


def _load():
    if not os.path.exists(_OUT) or os.path.getmtime(_OUT) < os.path.getmtime(_SRC):
        try:
            _build(_OUT)
        except OSError:
            out = os.path.join(tempfile.mkdtemp(prefix="simcrypto_"), "libsimcrypto.so")
            _build(out)
            return ctypes.CDLL(out)
    return ctypes.CDLL(_OUT)


lib = _load()
lib.sim_blake3.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]
lib.sim_blake3.restype = None


def _libcrypto():
    for name in ("libcrypto.so.3", "/usr/lib/x86_64-linux-gnu/libcrypto.so.3", "libcrypto.so"):
        try:
            return ctypes.CDLL(name)
        except OSError:
            continue
    raise OSError("libcrypto not found")


crypto = _libcrypto()
_p, _s, _z = ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t
for _n, _r, _a in (
    ("EVP_PKEY_new_raw_private_key", _p, [ctypes.c_int, _p, _s, _z]),
    ("EVP_PKEY_new_raw_public_key", _p, [ctypes.c_int, _p, _s, _z]),
    ("EVP_PKEY_get_raw_public_key", ctypes.c_int, [_p, _s, ctypes.POINTER(_z)]),
    ("EVP_PKEY_free", None, [_p]),
    ("EVP_MD_CTX_new", _p, []),
    ("EVP_MD_CTX_free", None, [_p]),
    ("EVP_DigestSignInit", ctypes.c_int, [_p, _p, _p, _p, _p]),
    ("EVP_DigestSign", ctypes.c_int, [_p, _s, ctypes.POINTER(_z), _s, _z]),
    ("EVP_DigestVerifyInit", ctypes.c_int, [_p, _p, _p, _p, _p]),
    ("EVP_DigestVerify", ctypes.c_int, [_p, _s, _z, _s, _z]),
    ("EVP_PKEY_CTX_new", _p, [_p, _p]),
    ("EVP_PKEY_CTX_free", None, [_p]),
    ("EVP_PKEY_derive_init", ctypes.c_int, [_p]),
    ("EVP_PKEY_derive_set_peer", ctypes.c_int, [_p, _p]),
    ("EVP_PKEY_derive", ctypes.c_int, [_p, _s, ctypes.POINTER(_z)]),
    ("ERR_clear_error", None, []),
):
    _f = getattr(crypto, _n)
    _f.restype, _f.argtypes = _r, _a

ED25519, X25519 = 1087, 1034


def blake3(data, length):
    data = bytes(data)
    out = ctypes.create_string_buffer(length)
    lib.sim_blake3(data, len(data), out, length)
    return out.raw


def argon2id(outlen, pwd, salt, t, mkib):
    out = ctypes.create_string_buffer(outlen)
    rc = lib.sim_argon2id(out, ctypes.c_uint32(outlen), pwd, ctypes.c_uint32(len(pwd)), salt,
                          ctypes.c_uint32(len(salt)), ctypes.c_uint32(t), ctypes.c_uint32(mkib))
    if rc:
        raise MemoryError("argon2id")
    return out.raw


def hsalsa20(key, inp=bytes(16)):
    out = ctypes.create_string_buffer(32)
    lib.sim_hsalsa20(out, inp, key)
    return out.raw


def xsalsa20_xor(msg, nonce, key):
    out = ctypes.create_string_buffer(len(msg) or 1)
    lib.sim_xsalsa20_xor(out, msg, ctypes.c_size_t(len(msg)), nonce, key)
    return out.raw[:len(msg)]


def raw_public(kind, seed):
    pk = crypto.EVP_PKEY_new_raw_private_key(kind, None, seed, 32)
    if not pk:
        raise ValueError("bad private key")
    out, n = ctypes.create_string_buffer(32), _z(32)
    crypto.EVP_PKEY_get_raw_public_key(pk, out, ctypes.byref(n))
    crypto.EVP_PKEY_free(pk)
    return out.raw


def ed_sign(seed, msg):
    pk = crypto.EVP_PKEY_new_raw_private_key(ED25519, None, seed, 32)
    ctx = crypto.EVP_MD_CTX_new()
    try:
        crypto.EVP_DigestSignInit(ctx, None, None, None, pk)
        out, n = ctypes.create_string_buffer(64), _z(64)
        if crypto.EVP_DigestSign(ctx, out, ctypes.byref(n), msg, len(msg)) != 1:
            raise ValueError("sign failed")
        return out.raw
    finally:
        crypto.EVP_MD_CTX_free(ctx)
        crypto.EVP_PKEY_free(pk)


def ed_verify(pub, msg, sig):
    pk = crypto.EVP_PKEY_new_raw_public_key(ED25519, None, pub, 32)
    if not pk:
        crypto.ERR_clear_error()
        return False
    ctx = crypto.EVP_MD_CTX_new()
    try:
        crypto.EVP_DigestVerifyInit(ctx, None, None, None, pk)
        ok = crypto.EVP_DigestVerify(ctx, sig, len(sig), msg, len(msg)) == 1
        crypto.ERR_clear_error()
        return ok
    finally:
        crypto.EVP_MD_CTX_free(ctx)
        crypto.EVP_PKEY_free(pk)


def x25519(sk, pk):
    a = crypto.EVP_PKEY_new_raw_private_key(X25519, None, sk, 32)
    b = crypto.EVP_PKEY_new_raw_public_key(X25519, None, pk, 32)
    ctx = crypto.EVP_PKEY_CTX_new(a, None)
    try:
        crypto.EVP_PKEY_derive_init(ctx)
        crypto.EVP_PKEY_derive_set_peer(ctx, b)
        out, n = ctypes.create_string_buffer(32), _z(32)
        if crypto.EVP_PKEY_derive(ctx, out, ctypes.byref(n)) != 1:
            raise ValueError("x25519")
        return out.raw
    finally:
        crypto.EVP_PKEY_CTX_free(ctx)
        crypto.EVP_PKEY_free(a)
        crypto.EVP_PKEY_free(b)
