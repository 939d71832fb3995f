"""A01: protection algorithms of an exchange. The checks that compare the protection of several messages, classify a
protection algorithm, or compare it with the certificate accept exactly what RFC 9483 1.6/3.2/3.3 and RFC 9481 allow."""
from pyvc.domains import Bytes, Enum, Int, Opt
from pyvc.harness import harness
from pyvc.intrinsics import all_of, any_of, assume, cover, ensure, ensure_eq, eq, iff, implies, is_exc, not_, outcome, symbolic, truth
from props import cmp as M
from props import h01 as H1
from props import p02 as P2
from props.p01 import HMAC, SHA, KMAC, GMAC, pbkdf2, gcm, dhbm, OIDV
from spec import sig as G
from cryptography.exceptions import InvalidSignature
from pyasn1.codec.der import decoder, encoder
from pyasn1.error import PyAsn1Error
from pyasn1.type import constraint, univ
from pyasn1_alt_modules import rfc5280, rfc8018, rfc9480
from resources import checkutils as C
from resources import protectionutils as PU
from resources import suiteenums as E
from resources.exceptions import BadAlg, CMPTestSuiteError, UnknownOID

F, CF = "resources.protectionutils.", "resources.checkutils."
PBM, PBMAC1 = "1.2.840.113533.7.66.13", "1.2.840.113549.1.5.14"
DHBM, KEMBM = "1.2.840.113533.7.66.30", "1.2.840.113533.7.66.16"
REJ = (CMPTestSuiteError, ValueError, PyAsn1Error)
ABSENT, NULL = "absent", "null"


def put(a, oid, p):
    a["algorithm"] = OIDV(oid)
    if p == NULL:
        a["parameters"] = univ.Null("")


def pbm(salt, iters, owf, mac, op, mp):
    p = rfc9480.PBMParameter()
    p["salt"] = univ.OctetString(salt).subtype(subtypeSpec=constraint.ValueSizeConstraint(0, 128))
    put(p["owf"], SHA[owf], op)
    p["iterationCount"] = iters
    put(p["mac"], HMAC[mac], mp)
    return p


def pbmac1(salt, iters, klen, prf, scheme, pp, sp, other=None, kdf=None):
    k = rfc8018.PBKDF2_params()
    if other is None:
        k["salt"]["specified"] = univ.OctetString(salt)
    else:
        put(k["salt"]["otherSource"], HMAC[other], ABSENT)
    k["iterationCount"] = iters
    if klen is not None:
        k["keyLength"] = klen
    a = rfc5280.AlgorithmIdentifier()
    put(a, HMAC[prf], pp)
    k["prf"] = a
    p = rfc8018.PBMAC1_params()
    p["keyDerivationFunc"]["algorithm"] = OIDV(kdf or "1.2.840.113549.1.5.12")
    p["keyDerivationFunc"]["parameters"] = k
    put(p["messageAuthScheme"], HMAC[scheme], sp)
    return p


def enc(p, e):
    return univ.Any(encoder.encode(p)) if e == "der" else p


def params_same(a, b, allow_null):
    """parameters of two algorithm identifiers: absent (or NULL when tolerated)"""
    return allow_null or (a == ABSENT and b == ABSENT)


def salts(s1, s2, same):
    return eq(s1, s2) if same else not_(eq(s1, s2))


def g_mac(rnd, i, **c):
    """mostly agreeing values, one of them different in some runs"""
    s, n, k = bytes([rnd.randrange(256) for _ in range(rnd.randrange(20))]), rnd.randrange(1, 5000), rnd.choice([None, 32])
    d = {f"{v}{j}": x for j in (1, 2, 3) for v, x in (("s", s), ("i", n), ("k", k))}
    if not c["same"]:
        d["s2"] = s + b"2"
        d["s3"] = s + b"3"
    if i % 2:
        j = rnd.choice("123")
        v = rnd.choice("sik")
        d[v + j] = {"s": rnd.choice([s, s + b"2", s + b"z"]), "i": n + 1, "k": rnd.choice([None, 16])}[v]
    return {k: v for k, v in d.items() if k in mac_in(**c)}


MAC_IN = dict(s1=Bytes(hi=128), s2=Bytes(hi=128), s3=Bytes(hi=128), i1=Int(1, 2 ** 31), i2=Int(1, 2 ** 31), i3=Int(1, 2 ** 31))
KL = dict(k1=Opt(Int(1, 2 ** 16)), k2=Opt(Int(1, 2 ** 16)), k3=Opt(Int(1, 2 ** 16)))


def mac_in(names="s1 s2 i1 i2 k1 k2", c=None, enc1=None, **_):
    """two messages, three with a pkiconf (c); PBM parameters (enc1) have no key length"""
    n = names + (" s3 i3 k3" if c else "")
    return {k: v for k, v in {**MAC_IN, **KL}.items() if k in n and (enc1 is None or k[0] != "k")}


def pair_cases():
    out = []
    for same in (True, False):
        for null in (True, False):
            for a2, b2 in (("sha256", "sha256"), ("sha512", "sha256"), ("sha256", "sha512")):
                for q in ((ABSENT,) * 4, (NULL,) * 4, (ABSENT, ABSENT, NULL, NULL), (NULL, NULL, ABSENT, ABSENT), (ABSENT, NULL, ABSENT, ABSENT), (ABSENT, ABSENT, NULL, ABSENT)):
                    out.append(dict(same=same, null=null, a2=a2, b2=b2, q=q))
    return out


@harness("A01", "pbm-parameters", [F + "_compare_pbm_parameters", F + "_compare_alg_id"], inputs=mac_in,
         cases=[dict(enc1=e, **c) for e in ("der", "asn1") for c in pair_cases()], absb=True, n=20, gen=g_mac)
def h_pbm(s1, s2, i1, i2, enc1, same, null, a2, b2, q):
    r = PU._compare_pbm_parameters(enc(pbm(s1, i1, "sha256", "sha256", q[0], q[1]), enc1), encoder.encode(pbm(s2, i2, a2, b2, q[2], q[3])), same_salt=same, allow_null=null)
    want = all_of(salts(s1, s2, same), eq(i1, i2), a2 == "sha256", b2 == "sha256", params_same(q[0], q[2], null), params_same(q[1], q[3], null))
    ensure(iff(r, want), "PBM parameters match exactly if all components do")


@harness("A01", "pbkdf2-parameters", [F + "_compare_pbkdf2_parameters"], inputs=mac_in,
         cases=[dict(src=s, **c) for s in ((None, None), ("sha256", None), (None, "sha256"), ("sha256", "sha256"), ("sha256", "sha512"))
                for c in pair_cases() if c["b2"] == "sha256" and c["q"][0] == c["q"][1] and c["q"][2] == c["q"][3]], absb=True, n=20, gen=g_mac)
def h_pbkdf2(s1, s2, i1, i2, k1, k2, src, same, null, a2, b2, q):
    def p(s, i, k, h, qq, other):
        v = pbmac1(s, i, k, h, "sha256", qq, ABSENT, other)["keyDerivationFunc"]["parameters"]
        return decoder.decode(encoder.encode(v), asn1Spec=rfc8018.PBKDF2_params())[0]
    r = PU._compare_pbkdf2_parameters(p(s1, i1, k1, "sha256", q[0], src[0]), p(s2, i2, k2, a2, q[2], src[1]), allow_null=null, same_salt=same)
    want = all_of(eq(i1, i2), kl(k1, k2), a2 == "sha256", params_same(q[0], q[2], null))
    want = all_of(want, salts(s1, s2, same)) if src == (None, None) else all_of(want, src[0] == src[1])
    ensure(iff(r, want), "PBKDF2 parameters match exactly if all components do")


def kl(a, b):
    if a is None or b is None:
        return a is None and b is None
    return eq(a, b)


@harness("A01", "pbmac1-parameters", [F + "_compare_pbmac1_parameters"], inputs=mac_in,
         cases=[dict(kdf=None, **c) for c in pair_cases()] + [dict(kdf="1.2.840.113549.1.5.13", **pair_cases()[0])], absb=True, n=20, gen=g_mac)
def h_pbmac1(s1, s2, i1, i2, k1, k2, same, null, a2, b2, q, kdf):
    o = outcome(PU._compare_pbmac1_parameters, encoder.encode(pbmac1(s1, i1, k1, "sha256", "sha256", q[0], q[1])),
                encoder.encode(pbmac1(s2, i2, k2, a2, b2, q[2], q[3], kdf=kdf)), allow_null=null, same_salt=same)
    want = all_of(salts(s1, s2, same), eq(i1, i2), kl(k1, k2), a2 == "sha256", b2 == "sha256", params_same(q[0], q[2], null), params_same(q[1], q[3], null), kdf is None)
    ensure(iff(o.ok and truth(o.value), want), "PBMAC1 parameters match exactly if all components do")
    ensure(o.ok or is_exc(o, *REJ), "a mismatch is a validation error")


# ---------------------------------------------------------------- messages
NONCE = b"\1" * 12
# name -> (oid, parameter builder from (salt, iterations, key length)); 'mac' as RFC 9483 1.6 uses it
MACS = {
    "pbm": (PBM, lambda s, i, k: pbm(s, i, "sha256", "sha256", ABSENT, ABSENT)),
    "pbm-null": (PBM, lambda s, i, k: pbm(s, i, "sha256", "sha256", NULL, NULL)),
    "pbm-sha512": (PBM, lambda s, i, k: pbm(s, i, "sha512", "sha256", ABSENT, ABSENT)),
    "pbm-mac512": (PBM, lambda s, i, k: pbm(s, i, "sha256", "sha512", ABSENT, ABSENT)),
    "pbmac1": (PBMAC1, lambda s, i, k: pbmac1(s, i, k, "sha256", "sha256", ABSENT, ABSENT)),
    "pbmac1-null": (PBMAC1, lambda s, i, k: pbmac1(s, i, k, "sha256", "sha256", NULL, NULL)),
    "pbmac1-prf512": (PBMAC1, lambda s, i, k: pbmac1(s, i, k, "sha512", "sha256", ABSENT, ABSENT)),
    "pbmac1-mac512": (PBMAC1, lambda s, i, k: pbmac1(s, i, k, "sha256", "sha512", ABSENT, ABSENT)),
    "sig": (G.ECDSA["sha256"], None),
    "mldsa": (G.MLDSA["ml-dsa-44"], None),
}


def kind(a):
    return a.split("-")[0]


def mmsg(a, s, i, k, e="der"):
    oid, b = MACS[a]
    return H1.msg(b"\7" * 16, b"\1" * 16, None, alg=M.alg(OIDV(oid), None if b is None else enc(b(s, i, k), e)))


def params_match(a, x, b, y, same, null):
    """algorithm and parameters of two messages agree as required"""
    if kind(a) != kind(b):
        return False
    (s, i, k), (s2, i2, k2) = x, y
    w = all_of(salts(s, s2, same), eq(i, i2))
    if kind(a) == "pbmac1":
        w = all_of(w, kl(k, k2))
    base = lambda n: n[:-5] if n.endswith("-null") else n
    if base(a) != base(b):
        return False
    return w if null else all_of(w, not a.endswith("-null"), not b.endswith("-null"))


def identical(a, x, b, y):
    if a != b:
        return False
    return all_of(eq(x[0], y[0]), eq(x[1], y[1]), kl(x[2], y[2]) if kind(a) == "pbmac1" else True)


def mac_cases():
    out = []
    for a in MACS:
        for b in MACS:
            if kind(a) == kind(b) or "-" not in a + b:
                for same in (True, False):
                    for null in (True, False):
                        out.append(dict(a=a, b=b, c=None, same=same, null=null, e="der"))
    for a in ("pbm", "pbmac1"):
        for same in (True, False):
            for c in MACS:
                if kind(a) == kind(c) or "-" not in c:
                    out.append(dict(a=a, b=a, c=c, same=same, null=True, e="der"))
            out.append(dict(a=a, b=a, c=a, same=same, null=False, e="asn1"))
            out.append(dict(a=a, b=a, c=None, same=same, null=True, e="asn1"))
    return out




@harness("A01", "mac-exchange", [F + "mac_protection_algorithms_must_match", F + "_compare_mac_params"], inputs=mac_in, cases=mac_cases(), absb=True, n=20, gen=g_mac)
def h_macx(s1, s2, i1, i2, k1, k2, a, b, c, same, null, e, s3=None, i3=None, k3=None):
    x, y, z = (s1, i1, k1), (s2, i2, k2), (s3, i3, k3)
    conf = None if c is None else mmsg(c, *z)
    rq, rs = mmsg(a, *x, e), mmsg(b, *y)
    before = [encoder.encode(m) for m in (rq, rs)]
    o = outcome(PU.mac_protection_algorithms_must_match, rq, rs, pkiconf=conf, same_salt=same, allow_null=null)
    if MACS[a][1] is None:
        want = False
    else:
        if same and not null:
            want = all_of(identical(a, x, b, y), not a.endswith("-null"))
        else:
            want = params_match(a, x, b, y, same, null)
        if c is not None:
            want = all_of(want, identical(b, y, c, z) if same else params_match(a, x, c, z, same, null))
    ensure(iff(o.ok, want), "MAC protection of an exchange: accepted exactly if algorithm and parameters agree and the salt is the same/fresh as required")
    ensure(o.ok or is_exc(o, *REJ), "a mismatch is a validation error")
    ensure_eq([encoder.encode(m) for m in (rq, rs)], before, "the messages are left as they were")


# ---------------------------------------------------------------- classification
SIGS = {**{f"rsa-{h}": o for h, o in G.RSA.items()}, **{f"ecdsa-{h}": o for h, o in G.ECDSA.items()}, "pss": G.PSS, "pss-shake128": G.PSS_SHAKE128, "pss-shake256": G.PSS_SHAKE256,
        "ed25519": "1.3.101.112", "ed448": "1.3.101.113", "ecdsa-shake128": "1.3.6.1.5.5.7.6.32", "ecdsa-shake256": "1.3.6.1.5.5.7.6.33"}
PQ = {**G.MLDSA, **{k + "-sha512": v for k, v in G.HASH_MLDSA.items()}, **G.SLHDSA}
HBS = {"hss": "1.2.840.113549.1.9.16.3.17", "xmss": "1.3.6.1.5.5.7.6.34", "xmssmt": "1.3.6.1.5.5.7.6.35"}
OTHER = {"rsaEncryption": "1.2.840.113549.1.1.1", "ecPublicKey": "1.2.840.10045.2.1", "sha256": G.SHA["sha256"], "unknown": "1.2.3.4.5", "ml-kem-768": "2.16.840.1.101.3.4.4.2",
         "x25519": "1.3.101.110", "aes128-wrap": "2.16.840.1.101.3.4.1.5"}
SYM = {**{f"hmac-{h}": o for h, o in HMAC.items()}, **{f"gmac{n}": o for n, o in GMAC.items()}, **{f"kmac{n}": o for n, o in KMAC.items()}}
LW_SIG = {f"{a}-sha{n}" for a in ("rsa", "ecdsa") for n in (224, 256, 384, 512)} | {"pss", "pss-shake128", "pss-shake256", "ed25519", "ed448", "ecdsa-shake128", "ecdsa-shake256"}


def classes():
    """name -> (oid, kind, permitted by RFC 9481 for lightweight CMP)"""
    out = {"pbm": (PBM, "mac", True), "pbmac1": (PBMAC1, "mac", True), "dh": (DHBM, "dh_based_mac", True), "kem": (KEMBM, "kem_based_mac", True)}
    out.update({n: (o, "mac", False) for n, o in SYM.items()})
    out.update({n: (o, "sig", n in LW_SIG) for n, o in SIGS.items()})
    out.update({n: (o, "pq-sig", False) for n, o in PQ.items()})
    out.update({n: (o, "pq-hash-stateful-sig", False) for n, o in HBS.items()})
    out.update({n: (o, None, False) for n, o in OTHER.items()})
    return out


CLASSES = classes()


@harness("A01", "classification", [F + "get_protection_type_from_pkimessage", F + "_enforce_lwcmp_protection_alg", "resources.suiteenums.ProtectedType.get_protection_type"],
         inputs=lambda **c: dict(tx=Bytes()), cases=[dict(n=n) for n in CLASSES] + [dict(n=None)], absb=True, n=2)
def h_class(tx, n):
    m = H1.msg(tx, None, None, alg=None if n is None else M.alg(OIDV(CLASSES[n][0])))
    for dh in (True, False):
        for kem in (True, False):
            for lw in (True, False):
                o = outcome(PU.get_protection_type_from_pkimessage, m, enforce_lwcmp=lw, allow_dh=dh, allow_kem=kem)
                _, k, ok = CLASSES.get(n, (None, None, False))
                ok = (k is not None and not lw) or ok
                if (k == "dh_based_mac" and not dh) or (k == "kem_based_mac" and not kem):
                    ok = False
                ensure(o.ok == ok, f"classification of {n}, lightweight={lw}, dh={dh}, kem={kem}")
                if o.ok:
                    ensure_eq(o.value, k, "kind of protection")
                else:
                    ensure(is_exc(o, *REJ), "what is refused is refused with a validation error")
    if n is not None:
        o = outcome(E.ProtectedType.get_protection_type, OIDV(CLASSES[n][0]))
        ensure(o.ok == (CLASSES[n][1] is not None), "protection type")
        if o.ok:
            ensure_eq(o.value.value, CLASSES[n][1], "protection type")


# ---------------------------------------------------------------- signature algorithm identifiers
def null_or(n):
    return "null" if n.startswith("rsa-") else "any" if n == "pss" else "absent"


SIG_ALL = {**SIGS, **PQ, **HBS}


@harness("A01", "signature-alg-id", [F + "_validate_sig_alg_id", F + "_validate_ecc_alg_id", F + "_validate_rsa_sig_alg_id", F + "_validate_pq_sig_alg_id", F + "_is_parmeters_null"],
         inputs=lambda v, **c: dict(p=Bytes()) if v == "bytes" else {}, cases=[dict(n=n, v=v) for n in list(SIG_ALL) + list(OTHER) + list(SYM) + ["pbm"] for v in ("absent", "null", "null-der", "bytes")], absb=True, n=10)
def h_sigid(n, v, p=None):
    x = {"absent": None, "null": univ.Null(""), "null-der": univ.Any(b"\5\0"), "bytes": univ.Any(p or b"x")}[v]
    if v == "bytes":
        assume(len(p) > 0)
    o = outcome(PU._validate_sig_alg_id, M.alg(OIDV(CLASSES[n][0]), x))
    if n not in SIG_ALL:
        want = False
    else:
        r = null_or(n)
        if v == "bytes":
            want = eq(p, b"\5\0") if r == "null" else r == "any"
        else:
            want = (v == "absent") == (r == "absent") if r != "null" else v != "absent"
    ensure(iff(o.ok, want), "parameters of the signature algorithm identifier are absent, NULL or present as its specification demands")
    ensure(o.ok or is_exc(o, *REJ), "refused with a validation error")


@harness("A01", "signature-consistent", [F + "check_signature_alg_is_consistent"], inputs=lambda **c: dict(tx=Bytes()),
         cases=[dict(a=a, b=b, c=c) for a in ("rsa-sha256", "pss", "ecdsa-sha256", "ed25519", "ml-dsa-44", "pbm") for b in (None, "rsa-sha256", "ecdsa-sha256", "ed25519", "ml-dsa-65", "ml-dsa-44", "pbm")
                for c in (None, "rsa-sha256", "ecdsa-sha384", "ml-dsa-44")], absb=True, n=1)
def h_sigc(tx, a, b, c):
    def m(n, v="right"):
        x = univ.Null("") if null_or(n) == "null" else P2.pss_params("sha256", "sha256", 32) if n == "pss" else None
        if v == "wrong":
            x = None if x is not None else univ.Null("")
        return H1.msg(tx, None, None, alg=M.alg(OIDV(CLASSES[n][0]), x))
    opt = lambda n, v="right": None if n is None else m(n, v)
    o = outcome(PU.check_signature_alg_is_consistent, m(a), opt(b), opt(c))
    ensure(o.ok == (a != "pbm" and b in (None, a) and c in (None, a)), "one signature algorithm in all messages")
    ensure(o.ok or is_exc(o, ValueError), "refused with ValueError")
    for w in range(3):
        if (a, b, c)[w] is not None:
            v = ["wrong" if i == w else "right" for i in range(3)]
            ensure(is_exc(outcome(PU.check_signature_alg_is_consistent, m(a, v[0]), opt(b, v[1]), opt(c, v[2])), ValueError), "wrong parameters in any message are refused")


# ---------------------------------------------------------------- algorithm and certificate
KEYALG = {"rsa": "rsaEncryption", "ec": "ecPublicKey"}


def conform(n, spki):
    """the signature algorithm n can be used with a key of algorithm spki (RFC 9481 section 3; RFC 9881/9909)"""
    if spki == "rsaEncryption":
        return n.startswith(("rsa-", "pss"))
    if spki == "ecPublicKey":
        return n.startswith("ecdsa-")
    if spki in ("ed25519", "ed448") or spki in HBS:
        return n == spki
    if spki in PQ:
        return n == spki or n == spki + "-sha512" or spki == n + "-sha512" or (n in HASH_SLH and HASH_SLH[n] == spki) or (spki in HASH_SLH and HASH_SLH[spki] == n)
    return None


HASH_SLH = {}


@harness("A01", "algorithm-conforms-to-key", [CF + "check_protection_alg_conform_to_spki", CF + "_check_pq_sig_conform_to_spki"], inputs=lambda **c: dict(key=Bytes(lo=1)),
         cases=[dict(spki=s) for s in ["rsaEncryption", "ecPublicKey", "ed25519", "ed448"] + list(PQ) + list(HBS)], absb=True, n=2)
def h_conform(key, spki):
    c = rfc9480.CMPCertificate()
    a = c["tbsCertificate"]["subjectPublicKeyInfo"]
    a["algorithm"]["algorithm"] = OIDV((OTHER if spki in OTHER else SIG_ALL)[spki])
    if spki == "ecPublicKey":
        a["algorithm"]["parameters"] = univ.ObjectIdentifier("1.2.840.10045.3.1.7")
    elif spki == "rsaEncryption":
        a["algorithm"]["parameters"] = univ.Null("")
    for n in SIG_ALL:
        if spki == "ecPublicKey" and n.startswith("ecdsa-sha3-"):
            continue
        want = conform(n, spki)
        r = outcome(C.check_protection_alg_conform_to_spki, M.alg(OIDV(SIG_ALL[n])), c)
        ensure(r.ok and truth(r.value) == want, f"{n} with a key for {spki}: {want}")


# ---------------------------------------------------------------- certificates of an exchange
CERTS = {"ee": ("EE", "CA", 1), "ee2": ("EE", "CA", 2), "ca": ("CA", "ROOT", 3), "ca2": ("CA", "ROOT", 4), "root": ("ROOT", "ROOT", 5), "self": ("EE", "EE", 6), "x": ("X", "Y", 7)}


def chain(first, lst):
    """issuers by name, nearest first in the order of the list"""
    out = [first]
    while CERTS[out[-1]][0] != CERTS[out[-1]][1]:
        n = [x for x in lst if CERTS[x][0] == CERTS[out[-1]][1]]
        if not n:
            break
        out.append(n[0])
    return out


LISTS = [("ee", "ca", "root"), ("ee", "root", "ca"), ("ee", "ca"), ("ee",), ("ee2", "ca", "root"), ("ee", "ca2", "root"), ("ca", "root"), ("self",), ("self", "ca"), ("x", "ee", "ca", "root"),
         ("ee", "ca2", "ca", "root"), ("ee", "ca", "x", "root")]


@harness("A01", "same-chain", [F + "_check_is_same_chain", "resources.certutils.build_chain_from_list"], inputs=lambda **c: {}, cases=[dict(a=a) for a in LISTS], n=1)
def h_chain(a):
    from resources import certutils as CT
    from props.h02 import patched

    def signer(cert, poss_issuer):
        return encoder.encode(cert["tbsCertificate"]["issuer"]) == encoder.encode(poss_issuer["tbsCertificate"]["subject"])

    def seq(lst):
        s = univ.SequenceOf(componentType=rfc9480.CMPCertificate())
        for x in lst:
            s.append(M.certificate("CN=" + CERTS[x][0], "CN=" + CERTS[x][1], CERTS[x][2]))
        return s

    def fits(b):
        return b is None or (b[0] == a[0] and chain(a[0], b) == chain(a[0], a))

    with patched((CT, "check_is_cert_signer", signer)):
        for b in LISTS + [None]:
            for c in (None, a, b, ("ee", "ca", "root"), ("x",)):
                o = outcome(PU._check_is_same_chain, seq(a), None if b is None else seq(b), None if c is None else seq(c))
                ensure(o.ok == (fits(b) and fits(c)), f"certificates {a}, then {b} and {c}: same protection certificate and chain, or none")
                ensure(o.ok or is_exc(o, ValueError), "a different chain is reported")


@harness("A01", "exchange-signatures", [F + "signature_protection_must_match", F + "check_signature_alg_is_consistent", F + "_verify_pki_message_sig"],
         inputs=lambda c, **k: {**{f"t{i}": Bytes() for i in (1, 2, 3)}, **{f"s{i}": Bytes(lo=1) for i in (1, 2, 3)}, "mode": P2.MODES},
         cases=[dict(key=k, alg=a, b=b, c=c) for k, a, o in (("rsa2048", "rsa-sha256", "rsa-sha512"), ("rsa2048", "pss-sha256-32", "rsa-sha256"), ("p256", "ecdsa-sha256", "ecdsa-sha512"), ("ed25519", "ed25519", "ed448"),
                                                              ("ml-dsa-44", "ml-dsa-44", "ml-dsa-65"))
                for b in (None, "same", "cert", "other-cert", o) for c in (None, "same", "cert", "other-cert", o)],
         stubs=P2.stubs, absb=True, n=2)
def h_exch(t1, t2, t3, s1, s2, s3, mode, key, alg, b, c):
    def make(tx, sig, how, i):
        if how is None:
            return None, True
        al = how if how in P2.ALGS else alg
        m = M.message(M.header(tx=tx, alg=P2.alg_id(al, "right")), M.body_certconf([(tx, 0, None)]))
        d = M.protected_der(m)
        v = sig if symbolic() else P2.native_sig(key, alg, mode if i == len(sig) % 3 + 1 else "valid", sig, d)
        extra = {"first": [P2.cert(key)], "cert": [P2.cert(key)], "other-cert": [P2.cert("p384")]}.get(how)
        return M.message(m["header"], m["body"], protection=v, extra=extra), False if how in P2.ALGS or how == "other-cert" else G.ok(key, P2.scheme(key, alg, "right"), v, d)
    m1, ok1 = make(t1, s1, "first", 1)
    m2, ok2 = make(t2, s2, b, 2)
    m3, ok3 = make(t3, s3, c, 3)
    o = outcome(PU.signature_protection_must_match, m1, m2, m3)
    ensure(iff(o.ok, all_of(ok1, ok2, ok3) if b or c else False), "accepted exactly if every message is signed with the key of the first message's certificate and one algorithm, and no other certificate is sent")
    ensure(o.ok or is_exc(o, ValueError), "otherwise ValueError")
    ensure(is_exc(outcome(PU.signature_protection_must_match, M.message(m1["header"], m1["body"], protection=s1), m2, m3), ValueError), "the first message carries the certificate")


FIELD = ["pbm", "pbmac1", "hmac-sha256", "kem", "dh", "rsa-sha256", "ecdsa-sha256", "ed25519", "ed448", "pss", "ml-dsa-44", "unknown", None]


@harness("A01", "protection-alg-field", [CF + "check_protection_alg_field", CF + "check_is_protection_present"], inputs=lambda **c: dict(tx=Bytes(), prot=Opt(Bytes(lo=1))),
         cases=[dict(n=n, key=k) for n in FIELD for k in ((None, "rsa2048", "p256", "ed25519", "ed448") if n in SIGS else (None,))], absb=True, n=3)
def h_field(tx, prot, n, key):
    m = M.message(M.header(tx=tx, alg=None if n is None else M.alg(OIDV(CLASSES[n][0]))), M.body_pkiconf(), protection=prot, extra=None if key is None else [P2.cert(key)])
    k = CLASSES[n][1] if n else None
    spki = None if key is None else {"rsa": "rsaEncryption", "ec": "ecPublicKey"}.get(G.family(key), key)
    for must in (True, False):
        for exp in (None, "sig", "mac"):
            o = outcome(C.check_protection_alg_field, m, exp, must_be_protected=must)
            if n is None:
                want = not must
            else:
                want = prot is not None and k is not None and exp in (None, k) and (k != "sig" or (key is not None and conform(n, spki)))
            ensure(iff(o.ok, want), f"protectionAlg field: expected {exp}, required {must}")
            ensure(o.ok or is_exc(o, *REJ), "refused with a validation error")
        o = outcome(C.check_is_protection_present, m, must_be_protected=must)
        if n is None and prot is None:
            want, val = not must, False
        else:
            want, val = n is not None and prot is not None, True
        ensure(o.ok == want, "protection and protectionAlg come together")
        if o.ok:
            ensure_eq(o.value, val, "tells whether the message is protected")


@harness("A01", "protection-salt", [F + "get_cmp_protection_salt"], inputs=lambda **c: dict(s=Bytes(hi=128), i=Int(1, 2 ** 31), k=Opt(Int(1, 2 ** 16))),
         cases=[dict(a=a, e=e) for a in ("pbm", "pbm-null", "pbmac1", "pbmac1-null", "sig") for e in ("der", "asn1")], absb=True, n=4)
def h_salt(s, i, k, a, e):
    o = outcome(PU.get_cmp_protection_salt, mmsg(a, s, i, k, e)["header"]["protectionAlg"])
    ensure(o.ok == (a != "sig"), "a salt only for PBM and PBMAC1")
    if o.ok:
        ensure_eq(o.value, s, "the salt of the protection")
    p = pbmac1(s, i, k, "sha256", "sha256", ABSENT, ABSENT, other="sha256")
    ensure(not outcome(PU.get_cmp_protection_salt, M.alg(OIDV(PBMAC1), enc(p, "der"))).ok, "no salt where another source is named")
