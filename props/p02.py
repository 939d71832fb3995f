"""P02: a protected message is accepted exactly if its protection is valid for DER(ProtectedPart) under the algorithm
its header names; the key has the type that algorithm is for and the parameters are the permitted ones."""
from pyvc.domains import Bytes, Enum, Int, Opt
from pyvc.harness import harness
from pyvc.intrinsics import assume, cover, ensure, ensure_eq, eq, iff, is_exc, outcome, symbolic, truth
from props import cmp as M
from props import p01 as P
from spec import mac as S
from spec import sig as G
from cryptography.exceptions import InvalidSignature
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc5280, rfc8017, rfc9480
from resources import cryptoutils as CU
from resources import protectionutils as PU
from resources.exceptions import BadAlg, BadMacProtection, BadMessageCheck, LwCMPViolation

PUF, CUF = P.PUF, P.CUF
OIDV = univ.ObjectIdentifier
NULL = "null"


def pss_params(h, mh, salt, mgf=G.MGF1):
    p = rfc8017.RSASSA_PSS_params()
    p["hashAlgorithm"]["algorithm"] = OIDV(G.SHA[h])
    p["maskGenAlgorithm"]["algorithm"] = OIDV(mgf)
    a = rfc5280.AlgorithmIdentifier()
    a["algorithm"] = OIDV(G.SHA[mh])
    p["maskGenAlgorithm"]["parameters"] = encoder.encode(a)
    p["saltLength"] = salt
    return p


# name -> (key family, oid, parameters, scheme or None = must never be accepted)
ALGS = {}
for _h, _o in G.RSA.items():
    ALGS["rsa-" + _h] = ("rsa", _o, NULL, ("rsa-pkcs1", _h))
for _h, _o in G.ECDSA.items():
    ALGS["ecdsa-" + _h] = ("ec", _o, None, ("ecdsa", _h))
for _h in ("sha224", "sha256", "sha384", "sha512"):
    for _s in (0, 20, int(_h[3:]) // 8):
        ALGS[f"pss-{_h}-{_s}"] = ("rsa", G.PSS, ("pss", _h, _h, _s), ("rsa-pss", _h, _h, _s))
ALGS["pss-mixed"] = ("rsa", G.PSS, ("pss", "sha256", "sha1", 32), None)
ALGS["pss-mgf"] = ("rsa", G.PSS, ("pss", "sha256", "sha256", 32, "1.2.840.113549.1.1.9"), None)
ALGS["pss-shake128"] = ("rsa", G.PSS_SHAKE128, None, ("rsa-pss-shake", 128))
ALGS["pss-shake256"] = ("rsa", G.PSS_SHAKE256, None, ("rsa-pss-shake", 256))
ALGS["ed25519"] = ("ed25519", "1.3.101.112", None, ("ed25519",))
ALGS["ed448"] = ("ed448", "1.3.101.113", None, ("ed448",))
for _n, _o in G.MLDSA.items():
    ALGS[_n] = (_n, _o, None, ("pq", None, b""))
    ALGS[_n + "-sha512"] = (_n, G.HASH_MLDSA[_n], None, ("pq", "sha512", b""))
for _n in ("slh-dsa-sha2-128f", "slh-dsa-shake-256s"):
    ALGS[_n] = (_n, G.SLHDSA[_n], None, ("pq", None, b""))
ALGS["rsaEncryption"] = ("rsa", "1.2.840.113549.1.1.1", NULL, None)
ALGS["ecPublicKey"] = ("ec", "1.2.840.10045.2.1", None, None)
ALGS["sha256"] = ("rsa", G.SHA["sha256"], None, None)
ALGS["unknown"] = ("rsa", "1.2.3.4.5", None, None)
KEYS = ("rsa2048", "p256", "p384", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "ml-dsa-87", "slh-dsa-sha2-128f", "slh-dsa-shake-256s")
VARIANTS = ("right", "der", "absent", "null", "octets")


def params(p):
    if p is None:
        return None
    return univ.Null("") if p == NULL else pss_params(*p[1:])


def alg_id(alg, variant):
    fam, oid, p, scheme = ALGS[alg]
    x = params(p)
    if variant == "der" and x is not None:
        x = univ.Any(encoder.encode(x))
    elif variant == "absent":
        x = None
    elif variant == "null":
        x = univ.Null("")
    elif variant == "octets":
        x = univ.OctetString(b"x")
    return M.alg(OIDV(oid), x)


def scheme(key, alg, variant):
    """the scheme that decides, or None where nothing may be accepted"""
    fam, oid, p, s = ALGS[alg]
    if fam != G.family(key):
        return None
    if variant in ("right", "der") or (variant == "absent" and p is None) or (variant == "null" and p == NULL):
        return s
    return None


def cases():
    out = []
    for k in KEYS:
        for a in ALGS:
            for v in VARIANTS if ALGS[a][0] == G.family(k) else ("right",):
                out.append(dict(key=k, alg=a, variant=v))
    return out


def native_sig(key, alg, mode, sig, data):
    """concrete runs: a valid signature, one by another scheme of the key, a damaged one, or arbitrary bytes"""
    if symbolic():
        return sig
    if mode == "arbitrary":
        return sig
    s = ALGS[alg][3]
    if s is None or ALGS[alg][0] != G.family(key) or mode == "other":
        s = dict(rsa=("rsa-pkcs1", "sha256"), ec=("ecdsa", "sha256")).get(G.family(key)) or (("pq", None, b"") if "-" in key else (key,))
    if key.startswith("slh-dsa") and mode != "arbitrary":
        assume(False)
    r = G.sign(key, s, data)
    if mode == "damaged":
        i = (sig[0] if sig else 0) % len(r)
        r = r[:i] + bytes([r[i] ^ 1]) + r[i + 1:]
    return r


MODES = Enum("valid", "damaged", "other", "arbitrary")


def stubs(**k):
    return G.pq_stubs()


@harness("P02", "sig-alg-id", [PUF + "verify_signature_with_alg_id", PUF + "_validate_sig_alg_id", PUF + "verify_rsassa_pss_from_alg_id", PUF + "verify_rsassa_pss_shake",
                               CUF + "verify_signature", CUF + "_verify_trad_signature", "resources.keyutils.check_consistency_sig_alg_id_and_key"],
         inputs=dict(sig=Bytes(), data=Bytes(), mode=MODES), cases=cases(), stubs=stubs, absb=True, n=4)
def h_sig(sig, data, mode, key, alg, variant):
    sig = native_sig(key, alg, mode, sig, data)
    s = scheme(key, alg, variant)
    o = outcome(PU.verify_signature_with_alg_id, G.pub(key), alg_id(alg, variant), data, sig)
    if s is None:
        ensure(not o.ok, f"a signature is never accepted with algorithm {alg}, {variant} parameters and a key {key}")
    else:
        ensure(iff(o.ok, G.ok(key, s, sig, data)), "accepted exactly if valid for the algorithm identifier")
        ensure(o.ok or is_exc(o, InvalidSignature), "an invalid signature is reported as InvalidSignature")


def cert(key):
    """a certificate carrying the key (only its public key matters here)"""
    c = rfc9480.CMPCertificate()
    t = c["tbsCertificate"]
    t["version"] = rfc5280.Version("v3").subtype(explicitTag=M.ctx(0, True))
    t["serialNumber"] = 7
    for x in (t["signature"], c["signatureAlgorithm"]):
        x["algorithm"] = OIDV(G.RSA["sha256"])
        x["parameters"] = univ.Null("")
    t["issuer"] = M.name("CN=CA")
    t["subject"] = M.name("CN=A")
    from pyasn1.type import useful
    for f in ("notBefore", "notAfter"):
        t["validity"][f]["utcTime"] = useful.UTCTime("250101000000Z")
    t["subjectPublicKeyInfo"] = decoder.decode(G.spki(key), asn1Spec=rfc5280.SubjectPublicKeyInfo())[0]
    c["signature"] = univ.BitString.fromOctetString(b"\1")
    return c


def sig_message(al, tx, sn, skid, sig, key, by):
    m = M.message(M.header(tx=tx, snonce=sn, skid=skid, alg=al), M.body_certconf([(tx, 0, None)]))
    d = M.protected_der(m)
    return m, d


def set_protection(m, sig, extra=None):
    full = M.message(m["header"], m["body"], protection=sig, extra=extra)
    return full


MSG_ALGS = ("rsa-sha256", "rsa-sha512", "pss-sha256-32", "pss-sha384-20", "pss-shake256", "ecdsa-sha256", "ecdsa-sha512", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65-sha512",
            "sha256", "unknown", "rsaEncryption", "slh-dsa-sha2-128f")


@harness("P02", "message-signature", [PUF + "verify_pkimessage_protection", PUF + "_verify_pki_message_sig", PUF + "prepare_protected_part", "resources.certutils.load_public_key_from_cert"],
         inputs=dict(sig=Bytes(lo=1), tx=Bytes(), sn=Bytes(), skid=Opt(Bytes()), mode=MODES),
         cases=[dict(key=k, alg=a, variant=v, by=b) for k in ("rsa2048", "p256", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "slh-dsa-sha2-128f") for a in MSG_ALGS
                for v in (("right", "der", "absent", "null") if ALGS[a][0] == G.family(k) else ("right",)) for b in ("key", "cert", "both")],
         stubs=stubs, absb=True, n=3)
def h_msgsig(sig, tx, sn, skid, mode, key, alg, variant, by):
    m = M.message(M.header(tx=tx, snonce=sn, skid=skid, alg=alg_id(alg, variant)), M.body_certconf([(tx, 0, None)]))
    d = M.protected_der(m)
    sig = native_sig(key, alg, mode, sig, d)
    other = "p384" if G.family(key) != "ec" else "rsa2048"
    full = M.message(m["header"], m["body"], protection=sig, extra=[cert(key if by == "cert" else other), cert(other)] if by != "key" else None)
    before = encoder.encode(full)
    s = scheme(key, alg, variant)
    o = outcome(PU.verify_pkimessage_protection, full, public_key=None if by == "cert" else G.pub(key))
    if s is None:
        ensure(not o.ok, f"a message is never accepted with algorithm {alg}, {variant} parameters and a key {key}")
    else:
        ensure(iff(o.ok, G.ok(key, s, sig, d)), "accepted exactly if the signature is valid over DER(ProtectedPart) under the key")
        ensure(o.ok or is_exc(o, InvalidSignature), "an invalid signature is reported as InvalidSignature")
    ensure_eq(encoder.encode(full), before, "verification leaves the message as it was")


# ---------------------------------------------------------------- MAC
def lwcmp_ok(kind, a, b):
    return kind == "dh" or (kind in ("pbm", "pbmac1") and a == b and a in ("sha224", "sha256", "sha384", "sha512"))


def mac_inputs(kind, a, b, **k):
    return dict(P.mac_inputs(kind, a, b), prot=Bytes(), mode=Enum("valid", "damaged", "short", "arbitrary"))


VMACS = [dict(c, lw=lw, enc=e) for c in P.MACS for lw, e in ((False, False), (True, True))]


@harness("P02", "message-mac", [PUF + "verify_pkimessage_protection", PUF + "_verify_dh_based_protection", PUF + "get_protection_type_from_pkimessage", PUF + "_enforce_lwcmp_protection_alg"],
         inputs=mac_inputs, cases=VMACS, absb=True, fold=P.mac_fold, n=5)
def h_msgmac(key, salt, iters, nonce, tx, sn, rn, skid, prot, mode, kind, a, b, lw, enc):
    al, want = P.mac_case(kind, a, b, key, salt, iters, nonce)
    if enc and al["parameters"].isValue:
        al = M.alg(al["algorithm"], univ.Any(encoder.encode(al["parameters"])))
    m = M.message(M.header(tx=tx, snonce=sn, rnonce=rn, skid=skid, alg=al), M.body_certconf([(salt, iters, None)]))
    mac = want(M.protected_der(m))
    if not symbolic() and mode != "arbitrary":
        prot = mac if mode == "valid" else mac[:-1] if mode == "short" else bytes([mac[0] ^ 1]) + mac[1:]
    full = M.message(m["header"], m["body"], protection=prot)
    before = encoder.encode(full)
    o = outcome(PU.verify_pkimessage_protection, full, password=key if kind != "dh" else None, shared_secret=key if kind == "dh" else None, enforce_lwcmp=lw)
    if lw and not lwcmp_ok(kind, a, b):
        ensure(is_exc(o, BadAlg, LwCMPViolation), "not permitted by the Lightweight CMP Profile")
    else:
        ensure(iff(o.ok, eq(prot, mac)), "accepted exactly if the protection is the MAC of DER(ProtectedPart)")
        ensure(o.ok or is_exc(o, BadMessageCheck if kind == "dh" else BadMacProtection), "a wrong MAC is reported as such")
    ensure_eq(encoder.encode(full), before, "verification leaves the message as it was")
    n = outcome(PU.verify_pkimessage_protection, full, enforce_lwcmp=lw)
    ensure(not n.ok, "without a secret nothing is accepted")


@harness("P02", "message-kem", [PUF + "verify_pkimessage_protection", PUF + "verify_kem_based_mac_protection"],
         inputs=dict(ss=Bytes(lo=1), salt=Bytes(), iters=Int(1, 500), tx=Opt(Bytes()), kc=Opt(Bytes(lo=1)), prot=Bytes(), mode=Enum("valid", "damaged", "short", "arbitrary")),
         cases=P.KEMC, absb=True, n=4)
def h_msgkem(ss, salt, iters, tx, kc, prot, mode, k, h, m, v):
    p = P.kembm(P.kdf_alg(k, h, salt, iters, 32), 32, P.mac_alg(m, v, None), kc)
    msg = M.message(M.header(tx=tx, alg=M.alg(OIDV("1.2.840.113533.7.66.16"), p)), M.body_certconf([(salt, iters, None)]))
    mac = P.kem_mac(k, h, m, v, 32, salt, iters, kc, ss, b"" if tx is None else tx, M.protected_der(msg))
    if not symbolic() and mode != "arbitrary":
        prot = mac if mode == "valid" else mac[:-1] if mode == "short" else bytes([mac[0] ^ 1]) + mac[1:]
    full = M.message(msg["header"], msg["body"], protection=prot)
    o = outcome(PU.verify_pkimessage_protection, full, shared_secret=ss)
    if tx is None:
        ensure(not o.ok, "KEMBasedMac requires a transactionID")
    else:
        ensure(iff(o.ok, eq(prot, mac)), "accepted exactly if the protection is the KEMBasedMac of DER(ProtectedPart)")
    ensure(o.ok or is_exc(o, BadMessageCheck), "a wrong MAC is reported as BadMessageCheck")
    ensure(not outcome(PU.verify_pkimessage_protection, full).ok, "without a secret nothing is accepted")
