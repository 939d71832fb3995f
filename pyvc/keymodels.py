"""Assumed contracts of the native asymmetric keys (cryptography's OpenSSL objects, PyCryptodome PSS).  Each key is a
known constant; what a key does to symbolic bytes is an uninterpreted function of (key, scheme, bytes):
verify raises InvalidSignature unless sig_ok(key, scheme, sig, data); sign returns some bytes for which sig_ok holds;
a key agreement is a function of the unordered pair of public keys."""
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.bindings._rust import openssl as R
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, padding, utils

from . import values as V
from .values import Unsupported

PUB = {}


def raw_pub(k):
    if id(k) not in PUB:
        p = k.public_key() if hasattr(k, "public_key") else k
        PUB[id(k)] = (k, p.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo))
    return PUB[id(k)][1]


def key_id(k):
    return hashlib.sha256(raw_pub(k)).hexdigest()[:12]


def hname(h):
    if isinstance(h, utils.Prehashed):
        raise Unsupported("prehashed")
    if not isinstance(h, hashes.HashAlgorithm):
        raise TypeError("Expected instance of hashes.HashAlgorithm.")
    return h.name


def pss_name(h, mgf, salt):
    return f"rsa-pss:{h}:{mgf}:{salt}"


def rsa_scheme(pad, h):
    n = hname(h)
    if isinstance(pad, padding.PKCS1v15):
        return f"rsa-pkcs1:{n}"
    if isinstance(pad, padding.PSS):
        s = pad._salt_length
        if s is padding.PSS.DIGEST_LENGTH:
            s = h.digest_size
        if not isinstance(s, int):
            raise Unsupported("PSS salt length")
        return pss_name(n, "mgf1-" + pad._mgf._algorithm.name, s)
    raise TypeError("Padding must be an instance of AsymmetricPadding.")


def tob(x):
    from .extmodels import tob as t
    return t(x)


def sig_ok(kid, scheme, sig, data):
    """the signature is valid"""
    c = V.ctx()
    return c.uf(f"sig-ok:{kid}:{scheme}", "bool", [tob(sig), tob(data)])


def check(kid, scheme, sig, data):
    if not V.ctx().interp.truth(sig_ok(kid, scheme, sig, data)):
        raise InvalidSignature()


def make(kid, scheme, data, n):
    """some valid signature (signing is treated as randomised)"""
    c = V.ctx()
    s = c.fresh_bytes("signature", n)
    c.ghost.setdefault("signatures", []).append((kid, scheme, s, data))
    c.assume(sig_ok(kid, scheme, s, data))
    return s


def rsa_verify(self, signature, data, padding, algorithm):
    check(key_id(self), rsa_scheme(padding, algorithm), signature, data)


def rsa_sign(self, data, padding, algorithm):
    return make(key_id(self), rsa_scheme(padding, algorithm), data, (self.key_size + 7) // 8)


def ec_scheme(a):
    if not isinstance(a, ec.ECDSA):
        raise Unsupported("EC signature algorithm")
    return "ecdsa:" + hname(a.algorithm)


def ec_verify(self, signature, data, signature_algorithm):
    check(key_id(self), ec_scheme(signature_algorithm), signature, data)


def ec_sign(self, data, signature_algorithm):
    return make(key_id(self), ec_scheme(signature_algorithm), data, None)


def ed_verify(name):
    return lambda self, signature, data: check(key_id(self), name, signature, data)


def ed_sign(name, n):
    return lambda self, data: make(key_id(self), name, data, n)


class MHashShake(V.Sym):
    """Crypto.Hash.SHAKE128/256"""

    def __init__(self, bits, data=None):
        self.bits, self.data, self.done = bits, b"" if data is None else tob(data), False

    def update(self, d):
        if self.done:
            raise Unsupported("update after read")
        self.data = self.data + tob(d)
        return self

    def read(self, n):
        if self.done:
            raise Unsupported("second read of a SHAKE")
        self.done = True
        from .extmodels import hash_uf
        return hash_uf(f"shake{self.bits}:{n}", n, self.data)


class MRsa(V.Sym):
    def __init__(self, kid, size):
        self.kid, self.size = kid, size


def rsa_construct(comp, **kw):
    """PyCryptodome key from (n, e[, d]); known constants"""
    n, e = comp[0], comp[1]
    from cryptography.hazmat.primitives.asymmetric import rsa
    k = rsa.RSAPublicNumbers(int(e), int(n)).public_key()
    return MRsa(key_id(k), n.bit_length())


def rsa_import(pem, **kw):
    k = serialization.load_pem_private_key(bytes(pem), None)
    return MRsa(key_id(k), k.key_size)


class MPss(V.Sym):
    def __init__(self, key, mask_func=None, salt_bytes=None, **kw):
        self.key, self.mask, self.salt = key, mask_func, salt_bytes

    def scheme(self, h):
        from .extmodels import hash_uf
        sh = h._shake
        if self.mask is None:
            mgf = f"mgf1-shake{sh.bits}"
        else:
            c = V.ctx()
            seed = c.fresh_bytes("seed", None)
            n = self.key.size // 8 - h.digest_size - 1
            r = c.interp.call(self.mask, (seed, n), {})
            mgf = f"shake{sh.bits}" if c.interp.truth(V.deep_eq(r, hash_uf(f"shake{sh.bits}:{n}", n, seed))) else "other"
        salt = h.digest_size if self.salt is None else self.salt
        return pss_name(f"shake{sh.bits}-{h.digest_size}", mgf, salt)

    def verify(self, h, sig):
        try:
            check(self.key.kid, self.scheme(h), sig, h._shake.data)
        except InvalidSignature:
            raise ValueError("Incorrect signature") from None

    def sign(self, h):
        return make(self.key.kid, self.scheme(h), h._shake.data, self.key.size // 8)


MODELS = {R.rsa.RSAPublicKey.verify: rsa_verify, R.rsa.RSAPrivateKey.sign: rsa_sign,
          R.ec.ECPublicKey.verify: ec_verify, R.ec.ECPrivateKey.sign: ec_sign,
          R.ed25519.Ed25519PublicKey.verify: ed_verify("ed25519"), R.ed25519.Ed25519PrivateKey.sign: ed_sign("ed25519", 64),
          R.ed448.Ed448PublicKey.verify: ed_verify("ed448"), R.ed448.Ed448PrivateKey.sign: ed_sign("ed448", 114)}
try:
    from Crypto.Hash import SHAKE128, SHAKE256
    from Crypto.PublicKey import RSA
    from Crypto.Signature import pss
    MODELS[SHAKE128.new] = lambda data=None: MHashShake(128, data)
    MODELS[SHAKE256.new] = lambda data=None: MHashShake(256, data)
    MODELS[RSA.construct] = rsa_construct
    MODELS[RSA.import_key] = rsa_import
    MODELS[pss.new] = lambda key, **kw: MPss(key, **kw)
except ImportError:
    pass
