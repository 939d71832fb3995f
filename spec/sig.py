"""Signature algorithm identifiers and what they mean (RFC 9481, RFC 4055, RFC 8017, RFC 8702, RFC 5758, RFC 8410,
RFC 9688, RFC 9881): object identifier, parameters, key type, scheme.  `ok`/`sign` are the scheme applied natively."""
import functools
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding

from pyvc import values as V
from spec import keys

H = {"sha1": hashes.SHA1(), "sha224": hashes.SHA224(), "sha256": hashes.SHA256(), "sha384": hashes.SHA384(), "sha512": hashes.SHA512(),
     "sha3-224": hashes.SHA3_224(), "sha3-256": hashes.SHA3_256(), "sha3-384": hashes.SHA3_384(), "sha3-512": hashes.SHA3_512(),
     "shake128": hashes.SHAKE128(32), "shake256": hashes.SHAKE256(64)}
RSA = {"sha1": "1.2.840.113549.1.1.5", "sha224": "1.2.840.113549.1.1.14", "sha256": "1.2.840.113549.1.1.11", "sha384": "1.2.840.113549.1.1.12",
       "sha512": "1.2.840.113549.1.1.13", "sha3-224": "2.16.840.1.101.3.4.3.13", "sha3-256": "2.16.840.1.101.3.4.3.14",
       "sha3-384": "2.16.840.1.101.3.4.3.15", "sha3-512": "2.16.840.1.101.3.4.3.16"}
ECDSA = {"sha224": "1.2.840.10045.4.3.1", "sha256": "1.2.840.10045.4.3.2", "sha384": "1.2.840.10045.4.3.3",
         "sha512": "1.2.840.10045.4.3.4", "sha3-224": "2.16.840.1.101.3.4.3.9", "sha3-256": "2.16.840.1.101.3.4.3.10",
         "sha3-384": "2.16.840.1.101.3.4.3.11", "sha3-512": "2.16.840.1.101.3.4.3.12"}
SHA = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2",
       "sha512": "2.16.840.1.101.3.4.2.3", "sha3-256": "2.16.840.1.101.3.4.2.8", "sha3-512": "2.16.840.1.101.3.4.2.10"}
PSS, PSS_SHAKE128, PSS_SHAKE256 = "1.2.840.113549.1.1.10", "1.3.6.1.5.5.7.6.30", "1.3.6.1.5.5.7.6.31"
MGF1 = "1.2.840.113549.1.1.8"
MLDSA = {"ml-dsa-44": "2.16.840.1.101.3.4.3.17", "ml-dsa-65": "2.16.840.1.101.3.4.3.18", "ml-dsa-87": "2.16.840.1.101.3.4.3.19"}
HASH_MLDSA = {"ml-dsa-44": "2.16.840.1.101.3.4.3.32", "ml-dsa-65": "2.16.840.1.101.3.4.3.33", "ml-dsa-87": "2.16.840.1.101.3.4.3.34"}
SLHDSA = {f"slh-dsa-{h}-{n}{s}": f"2.16.840.1.101.3.4.3.{20 + 6 * j + 2 * i + k}" for j, h in enumerate(("sha2", "shake"))
          for i, n in enumerate((128, 192, 256)) for k, s in enumerate("sf")}


def family(key):
    if key.startswith("rsa"):
        return "rsa"
    if key[0] in "pb":
        return "ec"
    return key


@functools.lru_cache(None)
def priv(name):
    if name.startswith("ml-dsa"):
        from pq_logic.keys.sig_keys import MLDSAPrivateKey
        return MLDSAPrivateKey(name, seed=hashlib.sha256(name.encode()).digest())
    if name.startswith("slh-dsa"):
        from pq_logic.keys.sig_keys import SLHDSAPrivateKey
        n = int(name.split("-")[3][:3]) * 3 // 8
        return SLHDSAPrivateKey(name, seed=hashlib.shake_256(name.encode()).digest(n))
    return keys.priv(name)


@functools.lru_cache(None)
def pub(name):
    return priv(name).public_key()


@functools.lru_cache(None)
def spki(name):
    if name in keys.KEYS:
        return keys.spki(name)
    from pyasn1.codec.der import encoder
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc5280
    s = rfc5280.SubjectPublicKeyInfo()
    s["algorithm"]["algorithm"] = univ.ObjectIdentifier(MLDSA.get(name) or SLHDSA[name])
    s["subjectPublicKey"] = univ.BitString.fromOctetString(pub(name).public_bytes_raw())
    return encoder.encode(s)


@functools.lru_cache(None)
def kid(name):
    return hashlib.sha256(spki(name)).hexdigest()[:12]


def uf_scheme(s):
    """name of the scheme in the verifier"""
    if s[0] == "rsa-pkcs1":
        return f"rsa-pkcs1:{s[1]}"
    if s[0] == "rsa-pss":
        return f"rsa-pss:{s[1]}:mgf1-{s[2]}:{s[3]}"
    if s[0] == "rsa-pss-shake":
        return "rsa-pss:shake%d-%d:shake%d:%d" % (s[1], s[1] // 4, s[1], s[1] // 4)
    if s[0] == "ecdsa":
        return f"ecdsa:{s[1]}"
    if s[0] == "pq":
        return f"pq:{s[1]}:{s[2].hex()}"
    return s[0]


def pss_shake(key, bits):
    from Crypto.Hash import SHAKE128, SHAKE256
    from Crypto.PublicKey import RSA as CR
    from Crypto.Signature import pss
    sh = SHAKE128 if bits == 128 else SHAKE256
    n = bits // 4

    class D:
        digest_size = n

        def __init__(self, d=b""):
            self.d = d

        @staticmethod
        def new(d=b""):
            return D(d)

        def update(self, d):
            self.d += d

        def digest(self):
            return sh.new(self.d).read(n)

    if hasattr(key, "private_numbers"):
        pn = key.private_numbers()
        k = CR.construct((pn.public_numbers.n, pn.public_numbers.e, pn.d, pn.p, pn.q))
    else:
        k = CR.construct((key.public_numbers().n, key.public_numbers().e))
    return pss.new(k, mask_func=lambda x, m: sh.new(x).read(m), salt_bytes=n), D


def ok(name, s, sig, data):
    """sig is a valid signature of data: scheme s under key `name`"""
    if V.CUR is not None:
        from pyvc import keymodels
        return keymodels.sig_ok(kid(name), uf_scheme(s), sig, data)
    k = pub(name)
    try:
        if s[0] == "rsa-pkcs1":
            k.verify(sig, data, padding.PKCS1v15(), H[s[1]])
        elif s[0] == "rsa-pss":
            k.verify(sig, data, padding.PSS(padding.MGF1(H[s[2]]), s[3]), H[s[1]])
        elif s[0] == "rsa-pss-shake":
            v, D = pss_shake(k, s[1])
            v.verify(D(data), sig)
        elif s[0] == "ecdsa":
            k.verify(sig, data, ec.ECDSA(H[s[1]]))
        elif s[0] == "pq":
            k.verify(data=data, signature=sig, hash_alg=s[1], ctx=s[2])
        else:
            k.verify(sig, data)
    except (InvalidSignature, ValueError):
        return False
    return True


def sign(name, s, data):
    k = priv(name)
    if s[0] == "rsa-pkcs1":
        return k.sign(data, padding.PKCS1v15(), H[s[1]])
    if s[0] == "rsa-pss":
        return k.sign(data, padding.PSS(padding.MGF1(H[s[2]]), s[3]), H[s[1]])
    if s[0] == "rsa-pss-shake":
        v, D = pss_shake(k, s[1])
        return v.sign(D(data))
    if s[0] == "ecdsa":
        return k.sign(data, ec.ECDSA(H[s[1]]))
    if s[0] == "pq":
        return k.sign(data=data, hash_alg=s[1], ctx=s[2])
    return k.sign(data)


def pq_stubs():
    """contract of the post-quantum keys (ML-DSA: D03): verify accepts exactly the signatures valid for the scheme"""
    from pq_logic.keys import sig_keys as K
    from pyvc import keymodels

    @functools.lru_cache(None)
    def ident(nm, raw):
        return next((kid(n) for n in list(MLDSA) + list(SLHDSA) if n == nm and pub(n).public_bytes_raw() == raw), hashlib.sha256(raw).hexdigest()[:12])

    def verify(self, data, signature, hash_alg=None, ctx=b"", is_prehashed=False):
        keymodels.check(ident(self.name, self.public_bytes_raw()), f"pq:{hash_alg}:{ctx.hex()}" + (":prehashed" if is_prehashed else ""), signature, data)

    def sgn(self, data, hash_alg=None, ctx=b"", is_prehashed=False):
        p = self.public_key()
        return keymodels.make(ident(p.name, p.public_bytes_raw()), f"pq:{hash_alg}:{ctx.hex()}" + (":prehashed" if is_prehashed else ""), data, self.sig_size)

    return {K.MLDSAPublicKey.verify: verify, K.SLHDSAPublicKey.verify: verify, K.MLDSAPrivateKey.sign: sgn, K.SLHDSAPrivateKey.sign: sgn}
