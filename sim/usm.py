"""Independent RFC 3414 / RFC 3826 primitives (hashlib, libcrypto's raw block ciphers)."""
import ctypes
import functools
import hashlib
import hmac

_c = ctypes.CDLL("libcrypto.so.3")
ALG = {"md5": (hashlib.md5, 16, 1), "sha1": (hashlib.sha1, 20, 2)}
PRIV = {"des": 1, "aes": 2}


@functools.lru_cache(maxsize=4096)
def password_to_key(alg, password):
    """RFC 3414 A.2: hash of the first 1 048 576 octets of the repeated password."""
    h = ALG[alg][0]()
    n = 1048576
    block = password * (64 * 1024 // len(password) + 2)
    # feed whole repetitions only, so that the phase is kept
    k = (len(block) // len(password)) * len(password)
    block = block[:k]
    while n >= k:
        h.update(block)
        n -= k
    h.update(block[:n])
    return h.digest()


def localize(alg, key, engine):
    return ALG[alg][0](key + engine + key).digest()


def mac96(alg, key, msg):
    return hmac.new(key, msg, ALG[alg][0]).digest()[:12]


def full_mac(alg, key, msg):
    return hmac.new(key, msg, ALG[alg][0]).digest()


def sign(alg, key, msg, off):
    """Message with the MAC put at the offset."""
    z = msg[:off] + bytes(12) + msg[off + 12 :]
    return z[:off] + mac96(alg, key, z) + z[off + 12 :]


def verify(alg, key, msg, off, params):
    if len(params) != 12:
        return False
    z = msg[:off] + bytes(12) + msg[off + 12 :]
    return mac96(alg, key, z) == params


def des_cbc(key, iv, data, encrypt):
    assert len(data) % 8 == 0
    ks = ctypes.create_string_buffer(256)
    _c.DES_set_key_unchecked(key[:8], ks)
    ivb = ctypes.create_string_buffer(iv, 8)
    out = ctypes.create_string_buffer(len(data) or 1)
    _c.DES_ncbc_encrypt(data, out, ctypes.c_long(len(data)), ks, ivb, 1 if encrypt else 0)
    return out.raw[: len(data)]


def aes_cfb(key, iv, data, encrypt):
    ks = ctypes.create_string_buffer(512)
    _c.AES_set_encrypt_key(key[:16], 128, ks)
    ivb = ctypes.create_string_buffer(iv, 16)
    num = ctypes.c_int(0)
    out = ctypes.create_string_buffer(len(data) or 1)
    _c.AES_cfb128_encrypt(data, out, ctypes.c_size_t(len(data)), ks, ivb, ctypes.byref(num), 1 if encrypt else 0)
    return out.raw[: len(data)]


def _xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def encrypt(priv, key, boots, time, salt, data, pad=None):
    """Encrypt scoped PDU. DES data are padded up to the block."""
    if priv == "des":
        n = -len(data) % 8
        data += (pad or bytes(8))[:n]
        return des_cbc(key, _xor(key[8:16], salt), data, True)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return aes_cfb(key, iv, data, True)


def decrypt(priv, key, boots, time, salt, data):
    if priv == "des":
        return des_cbc(key, _xor(key[8:16], salt), data, False)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return aes_cfb(key, iv, data, False)


def selftest():
    """Published vectors."""
    assert password_to_key("md5", b"maplesyrup").hex() == "9faf3283884e92834ebc9847d8edd963"
    assert password_to_key("sha1", b"maplesyrup").hex() == "9fb5cc0381497b3793528939ff788d5d79145211"
    eng = bytes(11) + b"\x02"
    assert localize("md5", password_to_key("md5", b"maplesyrup"), eng).hex() == "526f5eed9fcce26f8964c2930787d82b"
    assert (
        localize("sha1", password_to_key("sha1", b"maplesyrup"), eng).hex()
        == "6695febc9288e36282235fc7151f128497b38f3f"
    )
    # FIPS 81 / well known DES vector
    assert des_cbc(bytes.fromhex("133457799BBCDFF1"), bytes(8), bytes.fromhex("0123456789ABCDEF"), True).hex() == (
        "85e813540f0ab405"
    )
    # SP 800-38A F.3.13 CFB128-AES128
    k = bytes.fromhex("2b7e151628aed2a6abf7158809cf4f3c")
    iv = bytes(range(16))
    assert aes_cfb(k, iv, bytes.fromhex("6bc1bee22e409f96e93d7e117393172a"), True).hex() == (
        "3b3fd92eb72dad20333449f8e83cfb4a"
    )


if __name__ == "__main__":
    selftest()
    print("ok")
