"""Models (assumed contracts) of external functions used by the code under contract.  Cryptographic primitives are
uninterpreted functions of their parameters; their input checks that the code relies on are kept."""
import hashlib
import hmac as py_hmac
import os

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes, hmac
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.kdf.hkdf import HKDF
from cryptography.hazmat.primitives.kdf.pbkdf2 import PBKDF2HMAC

from . import asn1
from . import values as V
from .values import Sym, Unsupported


def urandom(n):
    """any n bytes"""
    c = V.ctx()
    n = n if isinstance(n, int) else c.concretize(n)
    r = c.fresh_bytes("urandom", n)
    c.ghost.setdefault("urandom", []).append(r)
    return r


def tob(x):
    if isinstance(x, V.MBytes):
        x = x.frozen()
    if isinstance(x, bytearray):
        x = bytes(x)
    if isinstance(x, (bytes, V.SBytes)):
        return x
    if isinstance(x, memoryview):
        return bytes(x)
    raise TypeError(f"bytes-like object required, not {type(x).__name__}")


def alg_name(a):
    if not isinstance(a, hashes.HashAlgorithm):
        raise TypeError("Expected instance of hashes.HashAlgorithm.")
    n = a.name
    if isinstance(a, (hashes.SHAKE128, hashes.SHAKE256)):
        n += f":{a.digest_size}"
    return n


def hash_uf(name, size, data):
    return V.ctx().uf("hash:" + name, ("bytes", size), [tob(data)])


class MHash(Sym):
    def __init__(self, algorithm, backend=None):
        self.algorithm = algorithm
        self.n = alg_name(algorithm)
        self.data = b""

    def update(self, d):
        self.data = self.data + tob(d)

    def copy(self):
        r = MHash(self.algorithm)
        r.data = self.data
        return r

    def finalize(self):
        return hash_uf(self.n, self.algorithm.digest_size, self.data)


class MHashlib(Sym):
    def __init__(self, name, data=b""):
        self.name = name
        self.digest_size = hashlib.new(name).digest_size
        self.data = tob(data)

    def update(self, d):
        self.data = self.data + tob(d)

    def copy(self):
        return MHashlib(self.name, self.data)

    def digest(self, n=None):
        if n is not None:
            return hash_uf(f"{self.name}:{n}", n, self.data)
        return hash_uf(HASHLIB.get(self.name, self.name), self.digest_size, self.data)


HASHLIB = {"sha3_224": "sha3-224", "sha3_256": "sha3-256", "sha3_384": "sha3-384", "sha3_512": "sha3-512", "sha512_256": "sha512-256", "sha512_224": "sha512-224"}


class MHmac(Sym):
    def __init__(self, key, algorithm, backend=None):
        self.key = tob(key)
        self.alg = algorithm
        self.n = alg_name(algorithm)
        self.data = b""

    def update(self, d):
        self.data = self.data + tob(d)

    def finalize(self):
        return V.ctx().uf("hmac:" + self.n, ("bytes", self.alg.digest_size), [self.key, self.data])

    def verify(self, mac):
        if not bool(V.deep_eq(self.finalize(), tob(mac))):
            raise InvalidSignature("Signature did not match digest.")


def length_out(n):
    """requested output length"""
    return n if isinstance(n, int) else V.ctx().concretize(n) if n.hi is not None and n.lo is not None and n.hi - n.lo < 64 else n


def uf_bytes(name, n, args):
    c = V.ctx()
    if isinstance(n, int):
        return c.uf(name, ("bytes", n), args)
    r = c.uf(name, ("bytes", None), args)
    c._add(V.zlen(r.chunks[0][1]) == V.ze(n))
    return r


class MPbkdf2(Sym):
    def __init__(self, algorithm, length, salt, iterations, backend=None):
        self.n = alg_name(algorithm)
        if bool(V.deep_eq(length, 0)) if isinstance(length, Sym) else length == 0:
            raise ValueError("length must be positive") if False else ValueError("Length must be a positive integer.")
        self.length, self.salt, self.iterations = length, tob(salt), iterations
        if bool(iterations < 1):
            raise OverflowError("iterations")

    def derive(self, key):
        n = length_out(self.length)
        return uf_bytes("pbkdf2:" + self.n, n, [tob(key), self.salt, self.iterations, n])


class MHkdf(Sym):
    def __init__(self, algorithm, length, salt, info, backend=None):
        self.n = alg_name(algorithm)
        if not isinstance(length, int):
            length = V.ctx().concretize(length)
        if length > 255 * algorithm.digest_size:
            raise ValueError("Cannot derive keys larger than 255 * digest size octets.")
        self.length = length
        self.salt = bytes(algorithm.digest_size) if salt is None else tob(salt)
        self.info = b"" if info is None else tob(info)

    def derive(self, key):
        return uf_bytes("hkdf:" + self.n, self.length, [tob(key), self.salt, self.info, self.length])


class MAes(Sym):
    def __init__(self, key):
        self.key = tob(key)
        n = V.blen(self.key)
        if not bool(V.sor(n == 16, n == 24, n == 32)):
            raise ValueError("Invalid key size for AES.")


class MGcm(Sym):
    def __init__(self, iv, tag=None, min_tag_length=16):
        self.iv, self.tag = tob(iv), tag
        n = V.blen(self.iv)
        if not bool(V.sand(n >= 8, n <= 128)):
            raise ValueError("initialization_vector must be between 8 and 128 bytes")


class MCipher(Sym):
    def __init__(self, algorithm, mode, backend=None):
        self.a, self.m = algorithm, mode

    def encryptor(self):
        return MGcmEnc(self.a, self.m)


class MGcmEnc(Sym):
    def __init__(self, a, m):
        if not isinstance(m, MGcm):
            raise Unsupported("cipher mode")
        self.a, self.m, self.aad, self.data = a, m, b"", b""

    def authenticate_additional_data(self, d):
        self.aad = self.aad + tob(d)

    def update(self, d):
        if self.data or (isinstance(d, Sym) or d):
            raise Unsupported("GCM data")
        return b""

    def finalize(self):
        return b""

    @property
    def tag(self):
        return V.ctx().uf("gcm-tag", ("bytes", 16), [self.a.key, self.m.iv, self.aad])


class MKmac(Sym):
    def __init__(self, name, **kw):
        self.name = name
        self.key = tob(kw.pop("key"))
        if not bool(V.blen(self.key) >= (16 if name == "kmac128" else 32)):
            raise ValueError("MAC key too short")
        self.n = kw.pop("mac_len", 64)
        self.custom = tob(kw.pop("custom", b""))
        d = kw.pop("data", None)
        self.data = b"" if d is None else tob(d)
        if kw:
            raise Unsupported(f"KMAC options {list(kw)}")

    def update(self, d):
        self.data = self.data + tob(d)
        return self

    def digest(self):
        return V.ctx().uf(self.name, ("bytes", self.n), [self.key, self.data, self.custom, self.n])


def compare_digest(a, b):
    return V.deep_eq(a, b)


def _kmac(name):
    return lambda **kw: MKmac(name, **kw)


MODELS = {os.urandom: urandom, hashes.Hash: MHash, hmac.HMAC: MHmac, PBKDF2HMAC: MPbkdf2, HKDF: MHkdf, algorithms.AES: MAes,
          modes.GCM: MGcm, Cipher: MCipher, py_hmac.compare_digest: compare_digest}
for _n in ("sha1", "sha224", "sha256", "sha384", "sha512", "sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake_128", "shake_256", "md5"):
    MODELS[getattr(hashlib, _n)] = (lambda n: lambda data=b"", **kw: MHashlib(n, data))(_n)
MODELS[hashlib.new] = lambda name, data=b"", **kw: MHashlib(name, data)
MODELS.update(asn1.codec_models())
try:
    from Crypto.Hash import KMAC128, KMAC256
    MODELS[KMAC128.new] = _kmac("kmac128")
    MODELS[KMAC256.new] = _kmac("kmac256")
except ImportError:
    pass
from . import keymodels  # noqa: E402
MODELS.update(keymodels.MODELS)
