"""Reference functions: hash, HMAC, KMAC, GMAC, PBKDF2, HKDF, X9.63 KDF, iterated hash.  In a proof they are the same
uninterpreted functions that the models of the primitives use; natively they are independent implementations."""
import hashlib
import hmac

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

import z3

from pyvc import values as V
from pyvc.extmodels import hash_uf, tob, uf_bytes

HASHES = ["sha1", "sha224", "sha256", "sha384", "sha512", "sha3_224", "sha3_256", "sha3_384", "sha3_512"]
SIZE = {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sha3_224": 28, "sha3_256": 32, "sha3_384": 48,
        "sha3_512": 64, "shake128": 32, "shake256": 64}


def lib(h):
    return h.replace("sha3_", "sha3-") if not h.startswith("shake") else f"{h}:{SIZE[h]}"


def s_hash(h, data):
    if V.CUR is not None:
        return hash_uf(lib(h), SIZE[h], data)
    if h.startswith("shake"):
        return hashlib.new(h.replace("shake", "shake_"), data).digest(SIZE[h])
    return hashlib.new(h, data).digest()


def s_hmac(h, key, data):
    if V.CUR is not None:
        return V.ctx().uf("hmac:" + lib(h), ("bytes", SIZE[h]), [tob(key), tob(data)])
    return hmac.new(key, data, h).digest()


def s_pbkdf2(h, key, salt, iters, n):
    if V.CUR is not None:
        return uf_bytes("pbkdf2:" + lib(h), n, [tob(key), tob(salt), iters, n])
    return hashlib.pbkdf2_hmac(h, key, salt, iters, n)


def s_hkdf(h, key, salt, info, n):
    if V.CUR is not None:
        return uf_bytes("hkdf:" + lib(h), n, [tob(key), bytes(SIZE[h]) if salt is None else tob(salt), tob(info), n])
    prk = hmac.new(salt or bytes(SIZE[h]), key, h).digest()
    t, out, i = b"", b"", 1
    while len(out) < n:
        t = hmac.new(prk, t + info + bytes([i]), h).digest()
        out += t
        i += 1
    return out[:n]


def s_kdf23(h, z, info, n, kdf2):
    """ANSI X9.44/X9.63: KDF2 hashes Z|counter|info, KDF3 hashes counter|Z|info"""
    out, i = b"", 1
    size = SIZE[h]
    while size * (i - 1) < n:
        c = i.to_bytes(4, "big")
        out = out + s_hash(h, z + c + info if kdf2 else c + z + info)
        i += 1
    return out[:n]


def s_iter(h, x, n):
    """n-fold hash; in a proof: an uninterpreted function with its two recursion equations at this point"""
    if V.CUR is not None:
        c = V.ctx()
        r = iter_uf(h, x, n)
        if isinstance(n, int):
            for _ in range(n):
                x = s_hash(h, x)
            return x
        return r
    for _ in range(n):
        x = s_hash(h, x)
    return x


def iter_uf(h, x, n):
    """n rounds from x; equation: n >= 1 rounds from x are n - 1 rounds from hash(x)"""
    c = V.ctx()
    r = c.uf("iterhash:" + h, ("bytes", None), [tob(x), n])
    r2 = c.uf("iterhash:" + h, ("bytes", None), [s_hash(h, x), n - 1])
    c._add(z3.If(V.ze(n) >= 1, V.zseq(r) == V.zseq(r2), V.zseq(r) == V.zseq(tob(x))))
    return r


# ---------------------------------------------------------------- native KMAC (SP 800-185) and GMAC (SP 800-38D)
def keccak_f(a):
    rc = 1
    M = (1 << 64) - 1

    def rot(x, n):
        n %= 64
        return ((x << n) | (x >> (64 - n))) & M if n else x
    for _ in range(24):
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
        d = [c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1) for x in range(5)]
        a = [a[i] ^ d[i % 5] for i in range(25)]
        b = list(a)
        x, y, cur = 1, 0, a[1]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            b[x + 5 * y], cur = rot(cur, (t + 1) * (t + 2) // 2), a[x + 5 * y]
        a = [b[i] ^ (~b[i - i % 5 + (i + 1) % 5] & M & b[i - i % 5 + (i + 2) % 5]) for i in range(25)]
        for j in range(7):
            if rc & 1:
                a[0] ^= 1 << ((1 << j) - 1)
            rc = (rc << 1) ^ (0x171 if rc & 0x80 else 0)
    return a


def sponge(rate, data, suffix, n):
    p = bytearray(data) + bytes([suffix])
    p += bytes(-len(p) % rate)
    p[-1] |= 0x80
    s = [0] * 25
    for i in range(0, len(p), rate):
        for j in range(rate // 8):
            s[j] ^= int.from_bytes(p[i + 8 * j:i + 8 * j + 8], "little")
        s = keccak_f(s)
    out = b""
    while len(out) < n:
        out += b"".join(x.to_bytes(8, "little") for x in s)[:rate]
        s = keccak_f(s)
    return out[:n]


def lenc(x):
    b = x.to_bytes(max(1, (x.bit_length() + 7) // 8), "big")
    return bytes([len(b)]) + b


def renc(x):
    b = x.to_bytes(max(1, (x.bit_length() + 7) // 8), "big")
    return b + bytes([len(b)])


def bytepad(x, w):
    z = lenc(w) + x
    return z + bytes(-len(z) % w)


def estr(s):
    return lenc(8 * len(s)) + s


def s_kmac(bits, key, data, n, custom=b""):
    if V.CUR is not None:
        return V.ctx().uf(f"kmac{bits}", ("bytes", n), [tob(key), tob(data), tob(custom), n])
    rate = 168 if bits == 128 else 136
    x = bytepad(estr(b"KMAC") + estr(custom), rate) + bytepad(estr(key), rate) + data + renc(8 * n)
    return sponge(rate, x, 0x04, n)


def s_gmac(key, iv, data):
    if V.CUR is not None:
        return V.ctx().uf("gcm-tag", ("bytes", 16), [tob(key), tob(iv), tob(data)])
    e = Cipher(algorithms.AES(key), modes.ECB()).encryptor()

    def blk(b):
        return e.update(b)
    h = int.from_bytes(blk(bytes(16)), "big")

    def mul(x, y):
        z = 0
        for i in range(127, -1, -1):
            if x >> i & 1:
                z ^= y
            y = (y >> 1) ^ (0xE1 << 120 if y & 1 else 0)
        return z

    def ghash(b):
        y = 0
        for i in range(0, len(b), 16):
            y = mul(y ^ int.from_bytes(b[i:i + 16], "big"), h)
        return y

    def pad(b):
        return b + bytes(-len(b) % 16)
    j0 = iv + b"\0\0\0\1" if len(iv) == 12 else ghash(pad(iv) + bytes(8) + (8 * len(iv)).to_bytes(8, "big")).to_bytes(16, "big")
    s = ghash(pad(data) + (8 * len(data)).to_bytes(8, "big") + bytes(8))
    return bytes(a ^ b for a, b in zip(s.to_bytes(16, "big"), blk(j0)))
