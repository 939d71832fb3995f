"""P01: the MAC protecting a message is the one its protectionAlg prescribes, over DER(ProtectedPart), for every
secret and parameter value."""
from pyvc.domains import Bytes, Int, Opt
from pyvc.harness import harness
from pyvc.intrinsics import assume, cover, ensure, ensure_eq, is_exc, outcome, truth
from props import cmp as M
from spec import mac as S
from pyasn1.codec.der import encoder
from pyasn1.type import constraint, univ
from pyasn1_alt_modules import rfc3370, rfc4210, rfc5480, rfc5990, rfc8017, rfc8018, rfc9044, rfc9480, rfc9481, rfc9688
from resources import cryptoutils as CU
from resources import oid_mapping as OM
from resources import protectionutils as PU
from resources.exceptions import BadAlg, BadAsn1Data, LwCMPViolation

CUF = "resources.cryptoutils."
PUF = "resources.protectionutils."
# object identifiers from RFC 4231/9481, RFC 9688, RFC 3370, RFC 8017, FIPS 202
HMAC = {"sha1": "1.3.6.1.5.5.8.1.2", "sha224": "1.2.840.113549.2.8", "sha256": "1.2.840.113549.2.9", "sha384": "1.2.840.113549.2.10",
        "sha512": "1.2.840.113549.2.11", "sha3_224": "2.16.840.1.101.3.4.2.13", "sha3_256": "2.16.840.1.101.3.4.2.14",
        "sha3_384": "2.16.840.1.101.3.4.2.15", "sha3_512": "2.16.840.1.101.3.4.2.16"}
SHA = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2",
       "sha512": "2.16.840.1.101.3.4.2.3", "sha3_256": "2.16.840.1.101.3.4.2.8", "sha3_512": "2.16.840.1.101.3.4.2.10"}
KMAC = {128: "2.16.840.1.101.3.4.2.19", 256: "2.16.840.1.101.3.4.2.20"}
GMAC = {16: "2.16.840.1.101.3.4.1.9", 24: "2.16.840.1.101.3.4.1.29", 32: "2.16.840.1.101.3.4.1.49"}
HCASES = [dict(h=h) for h in S.HASHES]
OIDV = univ.ObjectIdentifier
ANY = dict(key=Bytes(), data=Bytes())


@harness("P01", "hash", ["resources.oid_mapping.compute_hash", "resources.oid_mapping.hash_name_to_instance"], inputs=dict(data=Bytes()), cases=HCASES + [dict(h="shake128"), dict(h="shake256")], absb=True)
def h_hash(data, h):
    ensure_eq(OM.compute_hash(h, data), S.s_hash(h, data), "digest of the named hash")


@harness("P01", "hmac", [CUF + "compute_hmac"], inputs=ANY, cases=HCASES, absb=True)
def h_hmac(key, data, h):
    ensure_eq(CU.compute_hmac(data=data, key=key, hash_alg=h), S.s_hmac(h, key, data), "HMAC")
    ensure_eq(CU.compute_hmac(data=data, key=key, hash_alg="hmac-" + h), S.s_hmac(h, key, data), "HMAC, prefixed name")


@harness("P01", "gmac", [CUF + "compute_gmac"], inputs=dict(data=Bytes(), iv=Bytes(lo=8, hi=128)), cases=[dict(n=n) for n in (16, 24, 32)],
         absb=True)
def h_gmac(data, iv, n):
    for key in (bytes(n), bytes(range(n))):
        ensure_eq(CU.compute_gmac(data=data, key=key, iv=iv), S.s_gmac(key, iv, data), "AES-GMAC tag")


@harness("P01", "kmac", [CUF + "compute_kmac", CUF + "compute_kmac_from_alg_id"], inputs=dict(data=Bytes(), key=Bytes(lo=32), par=Bytes(lo=1, hi=20)),
         cases=[dict(bits=128), dict(bits=256)], absb=True)
def h_kmac(data, key, par, bits):
    n = bits // 4
    ensure_eq(CU.compute_kmac(f"shake{bits}", key, data), S.s_kmac(bits, key, data, n), "KMAC")
    ensure_eq(CU.compute_kmac_from_alg_id(M.alg(OIDV(KMAC[bits])), data, key), S.s_kmac(bits, key, data, n), "KMAC from alg id")
    ensure(is_exc(outcome(CU.compute_kmac_from_alg_id, M.alg(OIDV(KMAC[bits]), univ.OctetString(par)), data, key), ValueError), "KMAC with parameters is refused")
    ensure(is_exc(outcome(CU.compute_kmac_from_alg_id, M.alg(OIDV(HMAC["sha256"])), data, key), ValueError), "not a KMAC")
    ensure(is_exc(outcome(CU.compute_kmac, f"sha{bits}", key, data), ValueError), "unknown KMAC")


def pbkdf2(salt, iters, n, h):
    p = rfc8018.PBKDF2_params()
    p["salt"]["specified"] = univ.OctetString(salt)
    p["iterationCount"] = iters
    p["keyLength"] = n
    p["prf"]["algorithm"] = OIDV(HMAC[h])
    return p


@harness("P01", "pbkdf2", [CUF + "compute_pbkdf2_from_parameter"], inputs=dict(key=Bytes(), salt=Bytes(), iters=Int(1, 5000), n=Int(1, 100)), cases=HCASES, absb=True)
def h_pbkdf2(key, salt, iters, n, h):
    ensure_eq(CU.compute_pbkdf2_from_parameter(pbkdf2(salt, iters, n, h), key), S.s_pbkdf2(h, key, salt, iters, n), "PBKDF2 with the salt, count and length of the parameters")


@harness("P01", "pbmac1", [CUF + "compute_pbmac1"], inputs=dict(data=Bytes(), key=Bytes(), salt=Bytes(lo=1), iters=Int(1, 5000), n=Int(1, 100)),
         cases=[dict(h=h, m=m) for h in ("sha256", "sha512", "sha1") for m in ("sha256", "sha384", None)], absb=True)
def h_pbmac1(data, key, salt, iters, n, h, m):
    ensure_eq(CU.compute_pbmac1(data=data, key=key, iterations=iters, salt=salt, length=n, hash_alg=h, mac_hash_alg=m),
              S.s_hmac(m or h, S.s_pbkdf2(h, key, salt, iters, n), data), "PBMAC1")


def pbm_fold(h, **k):
    return (lambda x, n: S.iter_uf(h, x, n), lambda x: S.s_hash(h, x))


@harness("P01", "password-based-mac", [CUF + "compute_password_based_mac"], inputs=dict(data=Bytes(), key=Bytes(), salt=Bytes(lo=1), iters=Int(0, 3000)),
         cases=[dict(h=h, m=m) for h in ("sha1", "sha256", "sha512", "sha3_256") for m in ("sha256", "sha1", None)], absb=True, fold=pbm_fold)
def h_pbm(data, key, salt, iters, h, m):
    ensure_eq(CU.compute_password_based_mac(data=data, key=key, iterations=iters, salt=salt, hash_alg=h, mac_hash_alg=m),
              S.s_hmac(m or h, S.s_iter(h, key + salt, iters), data), "HMAC under the iterated hash of secret and salt")


@harness("P01", "x963-kdf", [CUF + "compute_ansi_x9_63_kdf"], inputs=dict(z=Bytes(), info=Bytes()),
         cases=[dict(h=h, n=n, v=v) for h in ("sha1", "sha256", "sha512", "sha3_256") for n in (1, 16, 20, 21, 32, 33, 48, 64, 65, 100, 128) for v in (True, False)], absb=True, n=3,
         bound=None)
def h_x963(z, info, h, n, v):
    ensure_eq(CU.compute_ansi_x9_63_kdf(shared_secret=z, key_length=n, other_info=info, hash_alg=h, use_version_2=v), S.s_kdf23(h, z, info, n, v), "KDF2/KDF3")


@harness("P01", "hkdf", [CUF + "compute_hkdf"], inputs=dict(key=Bytes(), info=Bytes(), salt=Opt(Bytes()), n=Int(1, 64)), cases=HCASES, absb=True)
def h_hkdf(key, info, salt, n, h):
    ensure_eq(CU.compute_hkdf(h, key, info, salt, n), S.s_hkdf(h, key, salt, info, n), "HKDF")


# ---------------------------------------------------------------- by algorithm identifier
def pbm(salt, iters, owf, mac):
    p = rfc9480.PBMParameter()
    p["salt"] = univ.OctetString(salt).subtype(subtypeSpec=constraint.ValueSizeConstraint(0, 128))
    p["owf"]["algorithm"] = OIDV(SHA[owf])
    p["iterationCount"] = iters
    p["mac"]["algorithm"] = OIDV(HMAC[mac])
    return p


def pbmac1(salt, iters, n, h, m):
    p = rfc8018.PBMAC1_params()
    p["keyDerivationFunc"]["algorithm"] = rfc8018.id_PBKDF2
    p["keyDerivationFunc"]["parameters"] = pbkdf2(salt, iters, n, h)
    p["messageAuthScheme"]["algorithm"] = OIDV(HMAC[m])
    return p


def gcm(nonce):
    p = rfc9044.GCMParameters()
    p["nonce"] = univ.OctetString(nonce)
    return p


def dhbm(owf, mac):
    p = rfc9480.DHBMParameter()
    p["owf"]["algorithm"] = OIDV(SHA[owf])
    p["mac"] = mac
    return p


DH_MACS = [("hmac", h) for h in ("sha1", "sha256", "sha384", "sha3_256")] + [("gmac", n) for n in (16, 24, 32)] + [("kmac", 128), ("kmac", 256)]
KDFS = [("hkdf", h) for h in ("sha256", "sha384", "sha512")] + [("kdf2", h) for h in ("sha256", "sha512", "sha1")] + \
       [("kdf3", h) for h in ("sha256", "sha384")] + [("pbkdf2", "sha256"), ("pbkdf2", "sha512")]
HKDF = {"sha256": "1.2.840.113549.1.9.16.3.28", "sha384": "1.2.840.113549.1.9.16.3.29", "sha512": "1.2.840.113549.1.9.16.3.30"}
KDF2, KDF3 = "1.3.133.16.840.9.44.1.1", "1.3.133.16.840.9.44.1.2"


def mac_alg(m, v, nonce):
    if m == "hmac":
        return M.alg(OIDV(HMAC[v]))
    return M.alg(OIDV(GMAC[v]), gcm(nonce)) if m == "gmac" else M.alg(OIDV(KMAC[v]))


def dh_key(owf, ss, n):
    """RFC 4210 5.1.3.2: BASEKEY = OWF(secret); key = first n bytes of BASEKEY | OWF("1"|BASEKEY) | ..."""
    base = S.s_hash(owf, ss)
    out, i = base, 1
    while S.SIZE[owf] * i < n:
        out = out + S.s_hash(owf, str(i).encode() + base)
        i += 1
    return out[:n]


def dh_mac(owf, m, v, ss, nonce, data):
    if m == "hmac":
        return S.s_hmac(v, S.s_hash(owf, ss), data)
    if m == "gmac":
        return S.s_gmac(dh_key(owf, ss, v), nonce, data)
    return S.s_kmac(v, dh_key(owf, ss, 32), data, v // 4)


@harness("P01", "dh-key", [PUF + "dh_based_mac_derive_key"], inputs=dict(ss=Bytes()),
         cases=[dict(owf=o, n=n) for o in ("sha1", "sha224", "sha256", "sha512") for n in (16, 20, 24, 28, 32, 33, 48, 64, 90)], absb=True, n=5)
def h_dhkey(ss, owf, n):
    ensure_eq(PU.dh_based_mac_derive_key(S.s_hash(owf, ss), n, owf), dh_key(owf, ss, n), "key of DHBasedMac, RFC 4210 5.1.3.2")


@harness("P01", "dh-based-mac", [PUF + "compute_dh_based_mac_from_alg_id", PUF + "_get_aes_length"], inputs=dict(ss=Bytes(), nonce=Bytes(lo=8, hi=20), data=Bytes()),
         cases=[dict(owf=o, m=m, v=v, enc=e) for o in ("sha1", "sha256", "sha512") for m, v in DH_MACS for e in (False, True)], absb=True, n=6)
def h_dhmac(ss, nonce, data, owf, m, v, enc):
    p = dhbm(owf, mac_alg(m, v, nonce))
    a = M.alg(rfc9480.id_DHBasedMac, univ.Any(encoder.encode(p)) if enc else p)
    want = dh_mac(owf, m, v, ss, nonce, data)
    ensure_eq(PU.compute_dh_based_mac_from_alg_id(ss, a, data), want, "DHBasedMac")
    ensure_eq(PU.compute_mac_from_alg_id(ss, a, data), want, "DHBasedMac by algorithm identifier")


def kdf_alg(k, h, salt, iters, n):
    if k == "hkdf":
        return M.alg(OIDV(HKDF[h]))
    if k == "pbkdf2":
        return M.alg(rfc9481.id_PBKDF2, pbkdf2(salt, iters, n, h))
    return M.alg(OIDV(KDF2 if k == "kdf2" else KDF3), M.alg(OIDV(SHA[h])))


def kdf_val(k, h, salt, iters, n, ss, info):
    if k == "hkdf":
        return S.s_hkdf(h, ss, None, info, n)
    if k == "pbkdf2":
        return S.s_pbkdf2(h, ss, salt, iters, n)
    return S.s_kdf23(h, ss, info, n, k == "kdf2")


@harness("P01", "kdf", [PUF + "compute_kdf_from_alg_id"], inputs=dict(ss=Bytes(), salt=Bytes(), iters=Int(1, 2000), ukm=Bytes()),
         cases=[dict(k=k, h=h, n=n, enc=e) for k, h in KDFS for n in (16, 32, 64) for e in (False, True)], absb=True, n=4)
def h_kdf(ss, salt, iters, ukm, k, h, n, enc):
    a = kdf_alg(k, h, salt, iters, n)
    if enc and k != "hkdf":
        a = M.alg(a["algorithm"], univ.Any(encoder.encode(a["parameters"])))
    ensure_eq(PU.compute_kdf_from_alg_id(a, ss, n, ukm), kdf_val(k, h, salt, iters, n, ss, ukm), "key derivation of the algorithm identifier")


class OtherInfo(univ.Sequence):
    from pyasn1.type import namedtype as _n
    componentType = _n.NamedTypes(_n.NamedType("staticString", rfc9480.PKIFreeText()), _n.NamedType("transactionID", univ.OctetString()),
                                  _n.OptionalNamedType("kemContext", univ.OctetString().subtype(implicitTag=M.ctx(0))))


def other_info(tx, kc):
    o = OtherInfo()
    o["staticString"].append("CMP-KEM")
    o["transactionID"] = univ.OctetString(tx)
    if kc is not None:
        o["kemContext"] = univ.OctetString(kc).subtype(implicitTag=M.ctx(0))
    return encoder.encode(o)


def kembm(kdf, n, mac, kc):
    from resources.asn1_structures import KemBMParameterAsn1
    p = KemBMParameterAsn1()
    p["kdf"] = kdf
    if kc is not None:
        p["kemContext"] = univ.OctetString(kc).subtype(explicitTag=M.ctx(0))
    p["len"] = n
    p["mac"] = mac
    return p


def kem_mac(k, h, m, v, n, salt, iters, kc, ss, tx, data):
    key = kdf_val(k, h, salt, iters, n, ss, other_info(tx, kc))
    return S.s_hmac(v, key, data) if m == "hmac" else S.s_kmac(v, key, data, v // 4)


KEMC = [dict(k=k, h=h, m="hmac", v=v) for k, h in KDFS for v in ("sha256", "sha512")] + [dict(k=k, h=h, m="kmac", v=v) for k, h in KDFS[:7:3] for v in (128, 256)]


@harness("P01", "kem-based-mac", [PUF + "compute_kem_based_mac_from_alg_id"],
         inputs=dict(ss=Bytes(), salt=Bytes(), iters=Int(1, 1000), tx=Bytes(), kc=Opt(Bytes(lo=1)), data=Bytes()),
         cases=[dict(c, enc=e) for c in KEMC for e in (False, True)], absb=True, n=4)
def h_kemmac(ss, salt, iters, tx, kc, data, k, h, m, v, enc):
    p = kembm(kdf_alg(k, h, salt, iters, 32), 32, mac_alg(m, v, None), kc)
    a = M.alg(OIDV("1.2.840.113533.7.66.16"), univ.Any(encoder.encode(p)) if enc else p)
    ensure_eq(PU.compute_kem_based_mac_from_alg_id(data, a, ss, tx), kem_mac(k, h, m, v, 32, salt, iters, kc, ss, tx, data),
              "KEMBasedMac of RFC 9810 5.1.3.4: key derived over KemOtherInfo(CMP-KEM, transactionID, context)")


# ---------------------------------------------------------------- on messages
def mac_case(kind, a, b, key, salt, iters, nonce, data=None):
    """(algorithm identifier, mac of data under key)"""
    if kind == "hmac":
        return M.alg(OIDV(HMAC[a])), lambda d: S.s_hmac(a, key, d)
    if kind == "kmac":
        return M.alg(OIDV(KMAC[a])), lambda d: S.s_kmac(a, key, d, a // 4)
    if kind == "gmac":
        return M.alg(OIDV(GMAC[a]), gcm(nonce)), lambda d: S.s_gmac(key, nonce, d)
    if kind == "pbm":
        return M.alg(rfc4210.id_PasswordBasedMac, pbm(salt, iters, a, b)), lambda d: S.s_hmac(b, S.s_iter(a, key + salt, iters), d)
    if kind == "pbmac1":
        return M.alg(rfc8018.id_PBMAC1, pbmac1(salt, iters, 32, a, b)), lambda d: S.s_hmac(b, S.s_pbkdf2(a, key, salt, iters, 32), d)
    if kind == "dh":
        return M.alg(rfc9480.id_DHBasedMac, dhbm(a, mac_alg(b[0], b[1], nonce))), lambda d: dh_mac(a, b[0], b[1], key, nonce, d)
    raise KeyError(kind)


MACS = [dict(kind="hmac", a=h, b=None) for h in S.HASHES] + [dict(kind="kmac", a=x, b=None) for x in (128, 256)] + \
    [dict(kind="gmac", a=x, b=None) for x in (16, 24, 32)] + \
    [dict(kind="pbm", a=o, b=m) for o in ("sha1", "sha256", "sha512") for m in ("sha1", "sha256", "sha384", "sha3_256")] + \
    [dict(kind="pbmac1", a=o, b=m) for o in ("sha1", "sha256", "sha512", "sha3_256") for m in ("sha1", "sha256", "sha384")] + \
    [dict(kind="dh", a=o, b=b) for o in ("sha1", "sha256") for b in DH_MACS]


def mac_fold(kind, a, b, **k):
    return (lambda x, n: S.iter_uf(a, x, n), lambda x: S.s_hash(a, x)) if kind == "pbm" else None


def mac_inputs(kind, a, b, **k):
    key = Bytes(a) if kind == "gmac" else Bytes(lo=32) if kind == "kmac" else Bytes(lo=1)
    return dict(key=key, salt=Bytes(lo=1, hi=128), iters=Int(1, 1000), nonce=Bytes(lo=8, hi=16), tx=Bytes(), sn=Bytes(), rn=Opt(Bytes()), skid=Opt(Bytes()))


@harness("P01", "message-mac", [PUF + "_compute_symmetric_protection", PUF + "_compute_pbmac1_from_param", PUF + "compute_mac_from_alg_id", PUF + "prepare_protected_part"],
         inputs=mac_inputs, cases=[dict(c, enc=e) for c in MACS for e in (False, True)], absb=True, fold=mac_fold, n=5)
def h_msg(key, salt, iters, nonce, tx, sn, rn, skid, kind, a, b, enc):
    al, want = mac_case(kind, a, b, key, salt, iters, nonce)
    if enc and al["parameters"].isValue:
        al = M.alg(al["algorithm"], univ.Any(encoder.encode(al["parameters"])))
    m = M.message(M.header(tx=tx, snonce=sn, rnonce=rn, skid=skid, alg=al), M.body_certconf([(salt, iters, None)]))
    d = M.protected_der(m)
    ensure_eq(PU.prepare_protected_part(m), d, "protected part is DER(header, body)")
    ensure_eq(PU._compute_symmetric_protection(m, key), want(d), "protection is the MAC of the protected part")
    ensure_eq(PU.compute_mac_from_alg_id(key, al, d), want(d), "MAC by algorithm identifier")
    ensure_eq(PU._compute_pkimessage_protection(m, password=key if kind != "dh" else None, shared_secret=key if kind == "dh" else None), want(d),
              "protection computed for a message")
