"""P03: protecting a message names the requested algorithm and parameters, leaves the rest of the message alone, and the
protection it adds is the one a verifier computes."""
from pyvc.domains import Bytes, Enum, Int, Opt
from pyvc.harness import harness
from pyvc.intrinsics import all_of, assume, cover, ensure, ensure_eq, eq, ghost, iff, is_exc, not_, outcome, symbolic, truth
from props import cmp as M
from props import p01 as P
from props import p02 as Q
from spec import mac as S
from spec import sig as G
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc4210, rfc8017, rfc8018, rfc9480
from resources import prepare_alg_ids as PA
from resources import protectionutils as PU

PUF, CUF, PAF = P.PUF, P.CUF, "resources.prepare_alg_ids."
OIDV = univ.ObjectIdentifier


def same_alg(a, b):
    """same algorithm and, where the parameters matter, same parameter values (whether a hash identifier carries NULL is
    not looked at)"""
    if a["algorithm"] != b["algorithm"]:
        return False
    x, y = a["parameters"], b["parameters"]
    if type(x) is not type(y) and y.isValue:
        return False
    if isinstance(y, rfc9480.PBMParameter):
        return all_of(eq(x["salt"].asOctets(), y["salt"].asOctets()), eq(value_of(x["iterationCount"]), value_of(y["iterationCount"])),
                      x["owf"]["algorithm"] == y["owf"]["algorithm"], x["mac"]["algorithm"] == y["mac"]["algorithm"])
    if isinstance(y, rfc8018.PBMAC1_params):
        f, g = x["keyDerivationFunc"], y["keyDerivationFunc"]
        p, q = f["parameters"], g["parameters"]
        return all_of(f["algorithm"] == g["algorithm"], eq(p["salt"]["specified"].asOctets(), q["salt"]["specified"].asOctets()),
                      eq(value_of(p["iterationCount"]), value_of(q["iterationCount"])), eq(value_of(p["keyLength"]), value_of(q["keyLength"])),
                      p["prf"]["algorithm"] == q["prf"]["algorithm"], x["messageAuthScheme"]["algorithm"] == y["messageAuthScheme"]["algorithm"])
    if isinstance(y, rfc9480.DHBMParameter):
        return all_of(x["owf"]["algorithm"] == y["owf"]["algorithm"], same_alg(x["mac"], y["mac"]))
    if isinstance(y, rfc8017.RSASSA_PSS_params):
        m, n = x["maskGenAlgorithm"], y["maskGenAlgorithm"]
        return all_of(x["hashAlgorithm"]["algorithm"] == y["hashAlgorithm"]["algorithm"], m["algorithm"] == n["algorithm"],
                      mgf_hash(m) == mgf_hash(n), eq(value_of(x["saltLength"]), value_of(y["saltLength"])))
    if not y.isValue:
        return not x.isValue
    return eq(encoder.encode(x), encoder.encode(y))


def mgf_hash(m):
    p = m["parameters"]
    from pyasn1_alt_modules import rfc5280
    return (p if not isinstance(p, univ.Any) else decoder.decode(p, asn1Spec=rfc5280.AlgorithmIdentifier())[0])["algorithm"]


def value_of(x):
    return int(x)


def same_header(a, b):
    """equal in every field but protectionAlg"""
    out = True
    for n in a:
        if n != "protectionAlg":
            if a[n].isValue != b[n].isValue:
                return False
            if a[n].isValue:
                out = all_of(out, eq(encoder.encode(a[n]), encoder.encode(b[n])))
    return out


GM = {16: "aes128_gmac", 24: "aes192_gmac", 32: "aes256_gmac"}
SHAKE = {128: "shake128", 256: "shake256"}


def request(kind, a, b, salt, iters, n):
    """(protection name, keyword parameters, the AlgorithmIdentifier they ask for)"""
    if kind == "hmac":
        return "hmac", dict(hash_alg=a), M.alg(OIDV(P.HMAC[a]))
    if kind == "kmac":
        return "kmac", dict(hash_alg=SHAKE[a]), M.alg(OIDV(P.KMAC[a]))
    if kind == "gmac":
        return GM[a], dict(salt=salt), M.alg(OIDV(P.GMAC[a]), P.gcm(salt))
    if kind == "pbm":
        return "password_based_mac", dict(salt=salt, iterations=iters, hash_alg=a), M.alg(rfc4210.id_PasswordBasedMac, P.pbm(salt, iters, a, a))
    if kind == "pbmac1":
        return "pbmac1", dict(salt=salt, iterations=iters, length=n, hash_alg=a), M.alg(rfc8018.id_PBMAC1, P.pbmac1(salt, iters, n, a, a))
    if kind == "dh":
        m, v = b
        mac = dict(hmac=lambda: "hmac-" + v, gmac=lambda: GM[v], kmac=lambda: "kmac-" + SHAKE[v])[m]()
        return "dh", dict(salt=salt, hash_alg=a, mac_alg=mac), M.alg(rfc9480.id_DHBasedMac, P.dhbm(a, P.mac_alg(m, v, salt)))
    raise KeyError(kind)


MACS = [dict(kind="hmac", a=h, b=None) for h in S.HASHES] + [dict(kind="kmac", a=x, b=None) for x in (128, 256)] + \
    [dict(kind="gmac", a=x, b=None) for x in (16, 24, 32)] + [dict(kind="pbm", a=h, b=None) for h in ("sha1", "sha256", "sha384", "sha512")] + \
    [dict(kind="pbmac1", a=h, b=None) for h in ("sha1", "sha256", "sha512")] + \
    [dict(kind="dh", a=h, b=b) for h in ("sha1", "sha256") for b in P.DH_MACS if b[1] in P.SHA or b[0] != "hmac"]


def value(kind, a, b, key, salt, iters, n, d):
    if kind == "pbmac1":
        return S.s_hmac(a, S.s_pbkdf2(a, key, salt, iters, n), d)
    if kind == "pbm":
        b = a
    return P.mac_case(kind, a, b, key, salt, iters, salt)[1](d)


def mac_inputs(kind, a, b, **k):
    x = P.mac_inputs(kind, a, b)
    x.pop("nonce")
    x["salt"] = Bytes(lo=8, hi=16)
    x["n"] = Int(1, 64)
    return x


def base(tx, sn, rn, skid, rest):
    return M.message(M.header(tx=tx, snonce=sn, rnonce=rn, skid=skid), M.body_certconf([(rest, 0, None)]))


@harness("P03", "mac", [PUF + "protect_pkimessage", PUF + "_prepare_prot_alg_id", PUF + "_compute_pkimessage_protection", PUF + "prepare_pki_protection_field",
                        PAF + "prepare_pbmac1_parameters", PAF + "prepare_password_based_mac_parameters", PAF + "prepare_dh_based_mac_params", PAF + "prepare_aes_gmac_prot_alg_id"],
         inputs=mac_inputs, cases=MACS, absb=True, fold=P.mac_fold, n=6)
def h_mac(key, salt, iters, n, tx, sn, rn, skid, kind, a, b):
    prot, kw, al = request(kind, a, b, salt, iters, n)
    m = base(tx, sn, rn, skid, salt)
    sec = dict(shared_secret=key) if kind == "dh" else dict(password=key)
    r = PU.protect_pkimessage(m, prot, **sec, **kw)
    want = M.message(M.header(tx=tx, snonce=sn, rnonce=rn, skid=skid, alg=al), M.body_certconf([(salt, 0, None)]))
    d = M.protected_der(r)
    ensure(same_alg(r["header"]["protectionAlg"], al), "the header names the requested algorithm with the requested parameters")
    ensure(same_header(r["header"], want["header"]), "the header is otherwise unchanged")
    ensure_eq(encoder.encode(r["body"]), encoder.encode(want["body"]), "the body is unchanged")
    ensure_eq(r["protection"].asOctets(), value(kind, a, b, key, salt, iters, n, d), "the protection is the MAC of DER(ProtectedPart)")
    PU.verify_pkimessage_protection(r, **sec)
    bad = PU.protect_pkimessage(base(tx, sn, rn, skid, salt), prot, bad_message_check=True, **sec, **kw)
    ensure(not outcome(PU.verify_pkimessage_protection, bad, **sec).ok, "bad_message_check makes the protection invalid")


SIGS = [dict(key="rsa2048", prot="signature", h=h) for h in ("sha256", "sha384", "sha512", "sha224")] + \
    [dict(key="rsa2048", prot="rsassa_pss", h=h) for h in ("sha256", "sha384", "sha512", "shake128", "shake256")] + \
    [dict(key=k, prot="signature", h=h) for k in ("p256", "p384") for h in ("sha256", "sha384", "sha512")] + \
    [dict(key=k, prot="signature", h=None) for k in ("ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "ml-dsa-87")] + [dict(key="rsa2048", prot="signature", h=None)]


def sig_alg(key, prot, h):
    f = G.family(key)
    if prot == "rsassa_pss":
        return f"pss-{h}" if h in SHAKE.values() else f"pss-{h}-{int(h[3:]) // 8}"
    if f == "rsa":
        return "rsa-" + (h or "sha256")
    return "ecdsa-" + h if f == "ec" else key


@harness("P03", "signature", [PUF + "protect_pkimessage", PUF + "_prepare_prot_alg_id", PUF + "_prepare_signature_prot_alg_id", PUF + "sign_data_with_alg_id",
                              PUF + "sign_rsa_pss_data_with_alg_id", CUF + "sign_data", CUF + "_sign_traditional_key", CUF + "sign_data_rsa_pss", PAF + "prepare_sig_alg_id", PAF + "prepare_rsa_pss_alg_id"],
         inputs=dict(tx=Bytes(), sn=Bytes(), rn=Opt(Bytes()), skid=Opt(Bytes())), cases=SIGS, stubs=Q.stubs, absb=True, n=6)
def h_sig(tx, sn, rn, skid, key, prot, h):
    m = base(tx, sn, rn, skid, tx)
    kw = dict(hash_alg=h) if h else {}
    r = PU.protect_pkimessage(m, prot, private_key=G.priv(key), exclude_certs=True, **kw)
    alg = sig_alg(key, prot, h)
    want = M.message(M.header(tx=tx, snonce=sn, rnonce=rn, skid=skid), M.body_certconf([(tx, 0, None)]))
    ensure(same_alg(r["header"]["protectionAlg"], Q.alg_id(alg, "right")), "the header names the requested algorithm with the requested parameters")
    ensure(same_header(r["header"], want["header"]), "the header is otherwise unchanged")
    ensure_eq(encoder.encode(r["body"]), encoder.encode(want["body"]), "the body is unchanged")
    ensure(G.ok(key, Q.ALGS[alg][3], r["protection"].asOctets(), M.protected_der(r)), "the protection is a signature of DER(ProtectedPart) by the algorithm of protectionAlg")
    PU.verify_pkimessage_protection(r, public_key=G.pub(key))


@harness("P03", "sign-alg-id", [PUF + "sign_data_with_alg_id", PUF + "sign_rsa_pss_data_with_alg_id", CUF + "sign_data", CUF + "_sign_data_rsa_pss_shake"],
         inputs=dict(data=Bytes()), cases=[dict(key=k, alg=a, variant=v) for k in ("rsa2048", "p256", "p384", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "ml-dsa-87")
                                           for a in Q.ALGS for v in ("right", "der") if Q.ALGS[a][0] == G.family(k) and Q.ALGS[a][3] is not None],
         stubs=Q.stubs, absb=True, n=3)
def h_signalg(data, key, alg, variant):
    sig = PU.sign_data_with_alg_id(G.priv(key), Q.alg_id(alg, variant), data)
    ensure(G.ok(key, Q.ALGS[alg][3], sig, data), "the signature is valid for the AlgorithmIdentifier")
