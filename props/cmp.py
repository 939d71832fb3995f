"""Building CMP messages (real pyasn1 objects) with given field values; used by the harnesses as inputs."""
import functools

from pyasn1.codec.der import decoder, encoder
from pyasn1.type import namedtype, tag, univ, useful
from pyasn1_alt_modules import rfc4210, rfc4211, rfc5280, rfc5480, rfc8018, rfc9480, rfc9481

from resources.asn1_structures import PKIBodyTMP, PKIMessageTMP, CertRepMessageTMP, CertResponseTMP


def ctx(n, constructed=False):
    return tag.Tag(tag.tagClassContext, tag.tagFormatConstructed if constructed else tag.tagFormatSimple, n)


def octets(v, n):
    return univ.OctetString(v).subtype(explicitTag=ctx(n))


@functools.lru_cache(None)
def name_der(cn):
    from resources.prepareutils import prepare_name
    return encoder.encode(prepare_name(cn))


def name(cn):
    return decoder.decode(name_der(cn), asn1Spec=rfc9480.Name())[0]


def general_name(cn):
    from resources import prepareutils
    return prepareutils.parse_to_general_name(cn)


def header(sender="CN=A", recipient="CN=B", pvno=2, tx=None, snonce=None, rnonce=None, skid=None, rkid=None, alg=None,
           infos=(), time=None, free=None):
    h = rfc9480.PKIHeader()
    h["pvno"] = univ.Integer(pvno)
    h["sender"] = general_name(sender)
    h["recipient"] = general_name(recipient)
    if time is not None:
        h["messageTime"] = useful.GeneralizedTime(time).subtype(explicitTag=ctx(0))
    if skid is not None:
        h["senderKID"] = octets(skid, 2)
    if rkid is not None:
        h["recipKID"] = octets(rkid, 3)
    if tx is not None:
        h["transactionID"] = octets(tx, 4)
    if snonce is not None:
        h["senderNonce"] = octets(snonce, 5)
    if rnonce is not None:
        h["recipNonce"] = octets(rnonce, 6)
    if infos:
        for o, v in infos:
            i = rfc9480.InfoTypeAndValue()
            i["infoType"] = o
            if v is not None:
                i["infoValue"] = v
            h["generalInfo"].append(i)
    if alg is not None:
        h["protectionAlg"] = alg.subtype(explicitTag=ctx(1, True), cloneValueFlag=True)
    return h


def pkistatus(status, text=(), fail=None):
    s = rfc9480.PKIStatusInfo()
    s["status"] = status
    for t in text:
        s["statusString"].append(t)
    if fail is not None:
        s["failInfo"] = fail
    return s


def body_error(status=2, code=None):
    b = PKIBodyTMP()
    e = rfc9480.ErrorMsgContent().subtype(explicitTag=ctx(23, True))
    e["pKIStatusInfo"]["status"] = status
    if code is not None:
        e["errorCode"] = univ.Integer(code)
    b["error"] = e
    return b


def body_pkiconf():
    b = PKIBodyTMP()
    b["pkiconf"] = rfc9480.PKIConfirmContent("").subtype(explicitTag=ctx(19, True))
    return b


def body_certconf(entries):
    """entries: (certHash, certReqId, status or None)"""
    b = PKIBodyTMP()
    c = rfc9480.CertConfirmContent().subtype(explicitTag=ctx(24, True))
    for h, i, st in entries:
        s = rfc9480.CertStatus()
        s["certHash"] = univ.OctetString(h)
        s["certReqId"] = i
        if st is not None:
            s["statusInfo"]["status"] = st
        c.append(s)
    b["certConf"] = c
    return b


def message(h, b, protection=None, extra=None):
    m = PKIMessageTMP()
    m["header"] = h
    m["body"] = b
    if protection is not None:
        m["protection"] = rfc9480.PKIProtection(univ.BitString.fromOctetString(protection)).subtype(explicitTag=ctx(0))
    if extra is not None:
        for c in extra:
            m["extraCerts"].append(c)
    return m


class Protected(univ.Sequence):
    """ProtectedPart of RFC 9810 5.1.3"""
    componentType = namedtype.NamedTypes(namedtype.NamedType("header", rfc9480.PKIHeader()), namedtype.NamedType("body", PKIBodyTMP()))


def protected_der(m):
    p = Protected()
    p["header"] = m["header"]
    p["body"] = m["body"]
    return encoder.encode(p)


def alg(oid, params=None):
    a = rfc9480.AlgorithmIdentifier()
    a["algorithm"] = oid
    if params is not None:
        a["parameters"] = params
    return a


@functools.lru_cache(None)
def certificate_der(subject, issuer, serial):
    """a certificate with a placeholder key and signature"""
    c = rfc9480.CMPCertificate()
    t = c["tbsCertificate"]
    t["version"] = 2
    t["serialNumber"] = serial
    sig = rfc5280.AlgorithmIdentifier()
    sig["algorithm"] = univ.ObjectIdentifier("1.3.101.112")
    t["signature"] = sig
    t["issuer"] = name(issuer)
    t["validity"]["notBefore"]["utcTime"] = useful.UTCTime("200101000000Z")
    t["validity"]["notAfter"]["utcTime"] = useful.UTCTime("490101000000Z")
    t["subject"] = name(subject)
    t["subjectPublicKeyInfo"]["algorithm"]["algorithm"] = univ.ObjectIdentifier("1.3.101.112")
    t["subjectPublicKeyInfo"]["subjectPublicKey"] = univ.BitString.fromOctetString(bytes(range(32)))
    c["signatureAlgorithm"] = sig
    c["signature"] = univ.BitString.fromOctetString(bytes(64))
    return encoder.encode(c)


def certificate(subject, issuer, serial):
    return decoder.decode(certificate_der(subject, issuer, serial), asn1Spec=rfc9480.CMPCertificate())[0]


def set_cert(choice, cert):
    """CertOrEncCert := certificate"""
    c = rfc9480.CMPCertificate().subtype(explicitTag=ctx(0, True))
    for f in ("tbsCertificate", "signatureAlgorithm", "signature"):
        c[f] = cert[f]
    choice["certificate"] = c


def set_enc(enc, kind):
    """EncryptedKey := EnvelopedData ("env") or EncryptedValue ("val") with placeholder content"""
    if kind == "env":
        e = enc["envelopedData"]
        e["version"] = 2
        r = e["recipientInfos"]
        r.clear()
        k = e["recipientInfos"].componentType.clone()
        k["kekri"]["version"] = 4
        k["kekri"]["kekid"]["keyIdentifier"] = b"k"
        k["kekri"]["keyEncryptionAlgorithm"]["algorithm"] = univ.ObjectIdentifier("2.16.840.1.101.3.4.1.5")
        k["kekri"]["encryptedKey"] = b"e"
        e["recipientInfos"].append(k)
        e["encryptedContentInfo"]["contentType"] = univ.ObjectIdentifier("1.2.840.113549.1.7.1")
        e["encryptedContentInfo"]["contentEncryptionAlgorithm"]["algorithm"] = univ.ObjectIdentifier("2.16.840.1.101.3.4.1.2")
    else:
        enc["encryptedValue"]["encValue"] = univ.BitString.fromOctetString(b"v")
