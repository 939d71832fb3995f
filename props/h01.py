"""H01: transaction identifiers and nonces of a response are accepted exactly when RFC 9483 3.1 / 3.5 allow them."""
import random

from pyvc.domains import Bytes, Enum, ExplicitBytes, Int, Opt, Bool
from pyvc.harness import harness
from pyvc.intrinsics import all_of, any_of, assume, cover, ensure, ensure_eq, eq, ghost, iff, implies, is_exc, not_, outcome, symbolic, truth
from props import cmp as M
from pyasn1.codec.der import encoder
from pyasn1.error import PyAsn1Error
from pyasn1.type import univ, useful
from pyasn1_alt_modules import rfc9480
from resources import checkutils as C
from resources.asn1_structures import PKIMessagesTMP
from resources.exceptions import BadRecipientNonce, BadSenderNonce, CMPTestSuiteError

F = "resources.checkutils."
REJ = (CMPTestSuiteError, ValueError, PyAsn1Error)
ID = dict(tx=Opt(Bytes()), sn=Opt(Bytes()), rn=Opt(Bytes()))


def two():
    return {f"{k}{i}": v for i in (1, 2) for k, v in ID.items()}


def msg(tx, sn, rn, body=None, **k):
    return M.message(M.header(tx=tx, snonce=sn, rnonce=rn, **k), body or M.body_pkiconf())


def same(a, b):
    """both present and equal"""
    return a is not None and b is not None and eq(a, b)


def decides(o, want, what):
    ensure(iff(o.ok, want), f"{what} is accepted exactly when the rules allow it")
    ensure(o.ok or is_exc(o, *REJ), f"{what}: what is refused is refused with a validation error")


@harness("H01", "transaction-id", [F + "validate_transaction_id"], inputs=lambda **c: two(), cases=[dict(req=True), dict(req=False)], absb=True, n=200)
def h_tx(tx1, sn1, rn1, tx2, sn2, rn2, req):
    o = outcome(C.validate_transaction_id, msg(tx1, sn1, rn1), msg(tx2, sn2, rn2) if req else None)
    want = tx1 is not None and len(tx1) == 16
    if req:
        want = all_of(want, same(tx1, tx2))
    decides(o, want, "transactionID")


def nonce_rule(sn1, rn1, sn2, sec):
    """response nonces sn1/rn1 for a request with senderNonce sn2"""
    if sn1 is None or rn1 is None or sn2 is None:
        return False
    n = 16 if sec is None or sec < 128 else sec // 8
    return all_of(len(sn1) >= n, len(rn1) >= n, eq(rn1, sn2))


@harness("H01", "nonces", [F + "validate_sender_and_recipient_nonce"], inputs=lambda **c: two(), cases=[dict(sec=s) for s in (None, 0, 64, 128, 192, 256, 100)], absb=True, n=200)
def h_nonce(tx1, sn1, rn1, tx2, sn2, rn2, sec):
    kw = {} if sec is None else dict(nonce_sec=sec)
    o = outcome(C.validate_sender_and_recipient_nonce, msg(tx1, sn1, rn1), msg(tx2, sn2, rn2), **kw)
    decides(o, nonce_rule(sn1, rn1, sn2, sec), "senderNonce and recipNonce")
    if rn1 is not None and sn1 is not None and sn2 is not None:
        ensure(implies(all_of(len(rn1) >= 64, len(sn1) >= 64, not_(eq(rn1, sn2))), is_exc(o, BadRecipientNonce)), "a wrong recipNonce is reported as such")


@harness("H01", "sender-recipient", [F + "validate_sender_and_recipient"], inputs=lambda **c: two(),
         cases=[dict(must=m, sender=s, recipient=r) for m in (True, False) for s in ("CN=A", "CN=AB") for r in ("CN=A", "CN=B", "CN=AB")], absb=True, n=100)
def h_sr(tx1, sn1, rn1, tx2, sn2, rn2, must, sender, recipient):
    o = outcome(C.validate_sender_and_recipient, msg(tx1, sn1, rn1, recipient=recipient), msg(tx2, sn2, rn2, sender=sender), must_be_eq=must)
    want = all_of(tx1 is not None and len(tx1) == 16, same(tx1, tx2), nonce_rule(sn1, rn1, sn2, None), sender == recipient or not must)
    decides(o, want, "response identifiers")


def any_body(name):
    from resources.asn1_structures import PKIBodyTMP
    if name == "certConf":
        return M.body_certconf([(b"h", 0, None)])
    if name == "pkiconf":
        return M.body_pkiconf()
    if name == "error":
        return M.body_error()
    b = PKIBodyTMP()
    b.setComponentByName(name)
    if name in ("ir", "cr", "kur", "rr", "genm"):
        b[name].clear()
    return b


REQ = ["ir", "cr", "kur", "p10cr", "rr", "genm", "pollReq", "ccr", "error"]


@harness("H01", "request-ids", [F + "validate_request_message_nonces_and_tx_id", F + "_validate_cert_conf_nonces_and_tx_id"], inputs=lambda **c: two(),
         cases=[dict(body=b) for b in REQ + ["certConf"]], absb=True, n=100)
def h_req(tx1, sn1, rn1, tx2, sn2, rn2, body):
    m = msg(tx1, sn1, rn1, any_body(body))
    o = outcome(C.validate_request_message_nonces_and_tx_id, m, msg(tx2, sn2, rn2))
    if body == "certConf":
        l16 = [x is not None and len(x) == 16 for x in (tx1, sn1, rn1)]
        want = all_of(*l16, same(tx1, tx2), same(rn1, sn2), same(sn1, rn2))
        decides(o, want, "certConf identifiers")
        ensure(not outcome(C.validate_request_message_nonces_and_tx_id, m).ok, "certConf needs the response")
        o2 = outcome(C._validate_cert_conf_nonces_and_tx_id, m, msg(tx2, sn2, rn2), check_length=False)
        decides(o2, all_of(same(tx1, tx2), same(rn1, sn2), same(sn1, rn2)), "certConf identifiers without length rule")
    else:
        want = all_of(tx1 is not None and len(tx1) == 16, sn1 is not None and len(sn1) == 16, rn1 is None)
        decides(o, want, "first request: transactionID and senderNonce of 16 bytes, no recipNonce")


def nested(inner):
    from resources.asn1_structures import PKIBodyTMP
    from pyasn1.type import tag
    b = PKIBodyTMP()
    ms = PKIMessagesTMP().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 20))
    for m in inner:
        ms.append(m)
    b["nested"] = ms
    return b


@harness("H01", "added-protection-ids", [F + "validate_add_protection_tx_id_and_nonces"], inputs=lambda **c: two(),
         cases=[dict(body=b, length=l, n=n) for b in ("ir", "certConf", "rr", "genm") for l in (True, False) for n in (0, 1, 2)], absb=True, n=100)
def h_added(tx1, sn1, rn1, tx2, sn2, rn2, body, length, n):
    inner = [msg(tx2, sn2, rn2, any_body(body)) for _ in range(n)]
    o = outcome(C.validate_add_protection_tx_id_and_nonces, msg(tx1, sn1, rn1, nested(inner)), check_length=length)
    want = all_of(n == 1, same(tx1, tx2), same(sn1, sn2))
    rn = same(rn1, rn2) if body == "certConf" else rn1 is None and rn2 is None
    want = all_of(want, rn)
    if length and tx1 is not None and sn1 is not None:
        want = all_of(want, len(tx1) == 16, len(sn1) == 16)
        if rn1 is not None:
            want = all_of(want, len(rn1) == 16)
    decides(o, want, "added protection")


def distinct(xs):
    return all_of(*[not_(eq(xs[i], xs[j])) for i in range(len(xs)) for j in range(i)])


def batch_inputs(k, **_):
    d = {}
    for i in range(k + 1):
        d[f"tx{i}"], d[f"sn{i}"] = Bytes(), Bytes()
        d[f"rn{i}"] = Opt(Bytes())
    d["missing"] = Enum(*range(-1, k + 1))
    d["which"] = Enum("tx", "sn")
    return d


@harness("H01", "batch-ids", [F + "validate_nested_message_unique_nonces_and_ids", F + "_is_unique"], inputs=batch_inputs,
         cases=[dict(k=k, ct=ct, cs=cs, cr=cr, cl=cl) for k in (1, 2, 3) for ct in (True, False) for cs in (True, False) for cr in (True, False) for cl in (True, False)
                if k < 3 or (ct and cs)], absb=True, n=40, bound="batches of at most three messages", level="bounded-proof")
def h_batch(k, ct, cs, cr, cl, missing, which, **v):
    ids = [[v[f"{x}{i}"] for x in ("tx", "sn", "rn")] for i in range(k + 1)]
    if missing >= 0:
        ids[missing][0 if which == "tx" else 1] = None
    ms = [msg(*x) for x in ids[1:]]
    o = outcome(C.validate_nested_message_unique_nonces_and_ids, msg(*ids[0], nested(ms)), check_transaction_id=ct, check_sender_nonce=cs, check_recip_nonce=cr, check_length=cl)
    txs, sns, rns = [x[0] for x in ids], [x[1] for x in ids], [x[2] for x in ids]
    want = all_of(*[x is not None for x in txs + sns])
    if truth(want):
        if ct:
            want = all_of(want, distinct(txs))
        if cs:
            want = all_of(want, distinct(sns))
        if cr:
            have = all_of(*[x is not None for x in rns])
            want = all_of(want, have, distinct(rns) if have else True)
        if cl:
            want = all_of(want, *[len(x) == 16 for x in txs + sns], *[len(x) == 16 for x in (rns if cr else rns[:1]) if x is not None])
    decides(o, want, "identifiers of the batch")


# ---- answers to a batch ----

ANS = {"p10cr": "cp", "cr": "cp", "genm": "genp", "kur": "kup", "ir": "ip"}
RESP = ["ip", "cp", "kup", "genp", "error", "pollReq", "rp", "pkiconf"]


def nested_inputs(qs, rs, **_):
    d = dict(otx=Bytes(16), osn=Bytes(16), otx2=Bytes(16), orn=Bytes(16), osn2=Bytes(16))
    for i in range(len(qs)):
        d[f"qtx{i}"], d[f"qsn{i}"] = Bytes(), Bytes()
    for i in range(len(rs)):
        d[f"rtx{i}"], d[f"rrn{i}"] = Bytes(), Bytes()
    return d


def nested_cases():
    out = [dict(qs=[q], rs=[r]) for q in ANS for r in RESP]
    out += [dict(qs=[], rs=[]), dict(qs=["ir"], rs=[]), dict(qs=["ir"], rs=["ip", "ip"]), dict(qs=["ir", "ir"], rs=["ip"])]
    out += [dict(qs=list(q), rs=list(r)) for q, r in [(("ir", "ir"), ("ip", "ip")), (("ir", "cr"), ("ip", "cp")), (("ir", "p10cr"), ("cp", "ip")), (("kur", "genm"), ("kup", "error")),
                                                      (("cr", "p10cr"), ("cp", "cp")), (("ir", "cr"), ("ip", "ip")), (("ir", "ir"), ("pollReq", "ip"))]]
    return out


@harness("H01", "batch-answer", [F + "validate_ids_and_nonces_for_nested_response"], inputs=nested_inputs, cases=nested_cases(), absb=True, n=30,
         level="bounded-proof", bound="batches of at most two messages")
def h_nested(qs, rs, otx, osn, otx2, orn, osn2, **v):
    inner_q = [msg(v[f"qtx{i}"], v[f"qsn{i}"], None, any_body(b)) for i, b in enumerate(qs)]
    inner_r = [msg(v[f"rtx{i}"], b"\x05" * 16, v[f"rrn{i}"], any_body(b)) for i, b in enumerate(rs)]
    q, r = msg(otx, osn, None, nested(inner_q)), msg(otx2, osn2, orn, nested(inner_r))
    o = outcome(C.validate_ids_and_nonces_for_nested_response, q, r)
    outer = all_of(eq(otx, otx2), eq(osn, orn))
    for p in range(len(rs)):  # identifiers of distinct answers are distinct (one answer per transaction)
        for s in range(p):
            assume(not_(all_of(eq(v[f"rtx{p}"], v[f"rtx{s}"]), eq(v[f"rrn{p}"], v[f"rrn{s}"]))))
    want = all_of(outer, len(qs) == len(rs))
    for i, qb in enumerate(qs):
        want = all_of(want, any_of(*[all_of(eq(v[f"qtx{i}"], v[f"rtx{j}"]), eq(v[f"qsn{i}"], v[f"rrn{j}"]), rb in ("error", "pollReq", ANS[qb])) for j, rb in enumerate(rs)]))
    decides(o, want, "answer to a batch")


@harness("H01", "batch-answer-type", [F + "validate_ids_and_nonces_for_nested_response"], cases=[dict(b=b) for b in RESP], n=1)
def h_nested_type(b):
    q = msg(b"t" * 16, b"s" * 16, None, nested([]))
    ensure(not outcome(C.validate_ids_and_nonces_for_nested_response, q, msg(b"t" * 16, b"r" * 16, b"s" * 16, any_body(b))).ok, "the answer to a batch is a nested message")


# ---- protection, sender, senderKID ----

PBM = "1.2.840.113533.7.66.13"
KEMBM = "1.2.840.113533.7.66.16"


@harness("H01", "protection-present", [F + "check_is_protection_present"], inputs=lambda **c: dict(p=Bytes(20), alg=Bool(), prot=Bool(), must=Bool()), n=60)
def h_prot(p, alg, prot, must):
    alg, prot, must = truth(alg), truth(prot), truth(must)
    m = M.message(M.header(alg=M.alg(univ.ObjectIdentifier(PBM)) if alg else None), M.body_pkiconf(), protection=p if prot else None)
    o = outcome(C.check_is_protection_present, m, must_be_protected=must)
    decides(o, alg == prot and (alg or not must), "protection fields")
    if o.ok:
        ensure(bool(o.value) == alg, "reports whether the message is protected")


MAC_OIDS = [PBM, "1.2.840.113549.1.5.14", KEMBM, "1.3.6.1.5.5.8.1.2", "2.16.840.1.101.3.4.2.19"]
SENDERS = ["CN=A", "CN=AB", "O=A", "O=X,CN=A", "dns:A"]


def sender_name(s):
    if s.startswith("dns:"):
        g = rfc9480.GeneralName()
        g["dNSName"] = s[4:]
        return g
    g = rfc9480.GeneralName()
    g["directoryName"]["rdnSequence"] = M.name(s)["rdnSequence"]
    return g


def mac_msg(sender, kid, oid, p=b"\x07" * 20):
    h = M.header(sender="CN=Z", skid=kid, alg=M.alg(univ.ObjectIdentifier(oid)))
    h["sender"] = sender_name(sender)
    return M.message(h, M.body_pkiconf(), protection=p)


@harness("H01", "mac-sender", [F + "check_sender_cmp_protection", F + "_verify_sender_field_for_mac"], cases=[dict(sender=s, oid=o, lax=x) for s in SENDERS for o in MAC_OIDS for x in (True, False)], n=1)
def h_mac_sender(sender, oid, lax):
    o = outcome(C.check_sender_cmp_protection, mac_msg(sender, b"A", oid), allow_failure=lax)
    decides(o, lax or "CN=" in sender, "sender of a MAC protected message")


@harness("H01", "mac-senderkid", [F + "validate_senderkid_for_cmp_protection", F + "_verify_senderkid_for_mac"],
         cases=[dict(sender=s, kid=k, oid=o, lax=x) for s in SENDERS for k in (b"A", b"CN=A", b"AB", b"", b"O=A", b"\xff\xfe", b"CN=CN=A", b"NULL-DN", None) for o in (PBM, KEMBM) for x in (True, False)], n=1)
def h_mac_kid(sender, kid, oid, lax):
    o = outcome(C.validate_senderkid_for_cmp_protection, mac_msg(sender, kid, oid), allow_mac_failure=lax, must_be_protected=True)
    cn = sender.split("CN=")[-1] if "CN=" in sender else None
    if kid is None:
        want = False
    elif lax:
        want = kid != b"\xff\xfe" or sender.startswith("dns:")
    else:
        want = cn is not None and kid in (cn.encode(), b"CN=" + cn.encode())
    decides(o, want, "senderKID of a MAC protected message")


@harness("H01", "unprotected", [F + "validate_senderkid_for_cmp_protection", F + "check_sender_cmp_protection"], cases=[dict(must=m) for m in (True, False)], n=1)
def h_unprot(must):
    m = M.message(M.header(), M.body_pkiconf())
    decides(outcome(C.validate_senderkid_for_cmp_protection, m, must_be_protected=must), not must, "unprotected message (senderKID)")
    decides(outcome(C.check_sender_cmp_protection, m, must_be_protected=must), not must, "unprotected message (sender)")


def sig_cert(ski, subject="CN=A"):
    c = rfc9480.CMPCertificate()
    t = c["tbsCertificate"]
    t["subject"] = M.name(subject).subtype(cloneValueFlag=True) if False else M.name(subject)
    t["issuer"] = M.name(subject)
    t["serialNumber"] = 1
    if ski is not None:
        e = M.rfc5280.Extension()
        e["extnID"] = M.rfc5280.id_ce_subjectKeyIdentifier
        e["extnValue"] = encoder.encode(univ.OctetString(ski))
        t["extensions"].append(e)
    return c


@harness("H01", "sig-senderkid", [F + "validate_senderkid_for_cmp_protection"], inputs=lambda **c: dict(kid=Bytes(20), ski=Opt(Bytes(20))), cases=[dict(given=g, oid=o) for g in (True, False) for o in ("1.2.840.113549.1.1.11", "1.2.840.10045.4.3.2", "1.3.101.112", "2.16.840.1.101.3.4.3.17")], n=40)
def h_sig_kid(kid, ski, given, oid):
    h = M.header(skid=kid, alg=M.alg(univ.ObjectIdentifier(oid)))
    c = sig_cert(ski)
    m = M.message(h, M.body_pkiconf(), protection=b"\x07" * 20)
    if given:
        o = outcome(C.validate_senderkid_for_cmp_protection, m, protection_cert=c)
    else:
        m["extraCerts"].append(c)
        m["extraCerts"].append(sig_cert(b"\x01" * 20))
        o = outcome(C.validate_senderkid_for_cmp_protection, m)
    decides(o, ski is None or eq(kid, ski), "senderKID against the subjectKeyIdentifier of the protection certificate")


@harness("H01", "sig-sender", [F + "check_sender_cmp_protection"], cases=[dict(sender=s, subject=t, lax=x) for s in ("CN=A", "CN=AB", "O=X,CN=A") for t in ("CN=A", "CN=AB", "O=X,CN=A", "CN=A,O=X") for x in (True, False)], n=1)
def h_sig_sender(sender, subject, lax):
    h = M.header(alg=M.alg(univ.ObjectIdentifier("1.2.840.113549.1.1.11")))
    h["sender"] = sender_name(sender)
    m = M.message(h, M.body_pkiconf(), protection=b"\x07" * 20)
    m["extraCerts"].append(sig_cert(None, subject))
    m["extraCerts"].append(sig_cert(None, "CN=Other"))
    decides(outcome(C.check_sender_cmp_protection, m, allow_failure=lax), lax or sender == subject, "sender of a signed message is the subject of the first certificate")


# ---- generalInfo ----

ALLB = ["ir", "ip", "cr", "cp", "p10cr", "kur", "kup", "rr", "rp", "genm", "genp", "error", "pkiconf", "certConf", "pollReq", "ccr"]
CONFIRM = ("ip", "cp", "kup", "ir", "cr", "kur", "p10cr")
OTHER = (univ.ObjectIdentifier("1.3.6.1.5.5.7.4.5"), univ.Any(b"\x05\x00"))


@harness("H01", "implicit-confirm", [F + "check_implicitconfirm_in_generalinfo", "resources.cmputils.get_value_from_seq_of_info_value_field"], inputs=lambda **c: dict(v=Bytes(lo=1)),
         cases=[dict(body=b, kind=k) for b in ALLB for k in ("none", "other", "null", "any", "after")], absb=True, n=20)
def h_implicit(v, body, kind):
    ic = (rfc9480.id_it_implicitConfirm, univ.Any(v if kind == "any" else b"\x05\x00"))
    infos = {"none": [], "other": [OTHER], "after": [OTHER, ic]}.get(kind, [ic])
    o = outcome(C.check_implicitconfirm_in_generalinfo, msg(None, None, None, any_body(body), infos=infos))
    if kind in ("none", "other"):
        ensure(o.ok, "without implicitConfirm there is nothing to refuse")
        return
    decides(o, all_of(body in CONFIRM, eq(v, b"\x05\x00") if kind == "any" else True), "implicitConfirm")


def profile_body(body, n):
    from resources.asn1_structures import PKIBodyTMP
    b = PKIBodyTMP()
    if body in ("ir", "cr", "kur"):
        b[body].clear()
        for i in range(n):
            r = M.rfc4211.CertReqMsg() if False else b[body].componentType.clone()
            r["certReq"]["certReqId"] = i
            b[body].append(r)
        return b
    if body == "genm":
        b[body].clear()
        for i in range(n):
            t = rfc9480.InfoTypeAndValue()
            t["infoType"] = OTHER[0]
            b[body].append(t)
        return b
    return any_body(body)


NAMES = ("", "P1", "P2", "P")


@harness("H01", "cert-profile", [F + "validate_cert_profile_for_ca", F + "_get_cert_profile_msg_size", F + "check_certprofile_in_generalinfo"],
         inputs=lambda k, **c: dict(names=Enum(*[(a, b)[:k] for a in NAMES for b in (NAMES if k > 1 else ("",))])) if 0 < k < 3 else {},
         cases=[dict(body=b, n=n, k=k, known=q) for b in ("ir", "cr", "kur", "genm", "p10cr") for n in (1, 2, 3) for k in (0, 1, 2, 3) for q in (None, "P1", "P1,P2") if n == 1 or b != "p10cr"]
         + [dict(body=b, n=1, k=1, known=None) for b in ALLB if b not in ("ir", "cr", "kur", "genm", "p10cr")], n=10)
def h_profile(body, n, k, known, names=("P1", "P1", "P1")):
    from resources.asn1_structures import CertProfileValueAsn1
    s = CertProfileValueAsn1()
    s.clear()
    names = names[:k]
    for x in names:
        s.append(x)
    m = msg(None, None, None, profile_body(body, n), infos=[OTHER, (rfc9480.id_it_certProfile, univ.Any(encoder.encode(s) if k else b"\x30\x00"))])
    ok = body in ("ir", "cr", "kur", "genm", "p10cr")
    decides(outcome(C.check_certprofile_in_generalinfo, m), ok, "certProfile in this kind of message")
    kn = None if known is None else known.split(",")
    want = ok and 1 <= k <= n and (kn is None or all(x == "" or x in kn for x in names))
    given = None if kn is None else list(kn)
    decides(outcome(C.validate_cert_profile_for_ca, m, given), want, "certProfile for the requests of the message")
    ensure(given == kn, "the list of known profiles is left as it was")
    decides(outcome(C.validate_cert_profile_for_ca, m, given), want, "certProfile, asked again")


def gt(off):
    import datetime
    return (datetime.datetime.now(datetime.timezone.utc) + datetime.timedelta(seconds=off)).strftime("%Y%m%d%H%M%SZ")


OFFS = [-100000, -3600, -400, -206, -194, -60, -10, 30, 60, 190, 210, 400, 3600, 86400]


def gen_time(rnd, i, **case):
    return dict(off=OFFS[i % len(OFFS)] if i < 2 * len(OFFS) else rnd.choice([-1, 1]) * rnd.randrange(10, 190), roff=rnd.choice(OFFS), lim=rnd.choice([0, 200, 200, 3600]), implicit=rnd.random() < 0.4,
                body=rnd.choice(ALLB), bad=rnd.randrange(6))


@harness("H01", "time", [F + "check_message_time_field", F + "_check_message_time_for_request", F + "check_confirmwaittime_in_generalinfo"], level="bounded", gen=gen_time, n=300, samples_s=20,
         bound="message times at offsets of -100000 s to 86400 s from now, outside a few seconds around each limit")
def h_time(off, roff, lim, implicit, body, bad):
    import datetime
    m = msg(None, None, None, time=gt(off))
    if abs(-off - lim) > 5:
        decides(outcome(C.check_message_time_field, m, lim), off < 0 and -off <= lim, "messageTime of a request: not in the future and not too old")
    now = datetime.datetime.now(datetime.timezone.utc)
    d = off - roff
    if abs(d - lim) > 5 and d >= 0:
        decides(outcome(C.check_message_time_field, m, lim, now + datetime.timedelta(seconds=roff)), d <= lim, "messageTime of a response: within the allowed interval of the request")
    ensure(outcome(C.check_message_time_field, m).ok, "without an interval nothing is refused")
    wait = encoder.encode(useful.GeneralizedTime(gt(off)))
    wait = {0: wait + b"\x00", 1: b"\x05\x00"}.get(bad, wait)
    infos = [(rfc9480.id_it_confirmWaitTime, univ.Any(wait))] + ([(rfc9480.id_it_implicitConfirm, univ.Any(b"\x05\x00"))] if implicit else [])
    w = msg(None, None, None, any_body(body), infos=infos)
    decides(outcome(C.check_confirmwaittime_in_generalinfo, w), off > 0 and not implicit and bad > 1, "confirmWaitTime: well-formed, in the future and without implicitConfirm")
    ensure(not outcome(C.check_message_time_field, w).ok, "confirmWaitTime needs messageTime")


# ---- the header as a whole ----

@harness("H01", "header", [F + "validate_pkimessage_header", F + "check_generalinfo_field"],
         inputs=lambda **c: dict(pvno=Int(-2, 5), tx=Bytes(16), tx2=Bytes(16), sn=Bytes(), rn=Bytes(), sn2=Bytes(), kid=Enum(b"A", b"B"), ic=Enum("no", "null", "bad"), prof=Bool(), prot=Bool()),
         cases=[dict(must=m, req=r, body=b, lax=x) for m in (True, False) for r in (True, False) for b in ("ip", "pkiconf", "ir") for x in (True, False)], absb=True, n=60)
def h_header(pvno, tx, tx2, sn, rn, sn2, kid, ic, prof, prot, must, req, body, lax):
    prot, prof = truth(prot), truth(prof)
    infos = [] if ic == "no" else [(rfc9480.id_it_implicitConfirm, univ.Any(b"\x05\x00" if ic == "null" else b"\x01\x01\xff"))]
    if prof:
        infos.append((rfc9480.id_it_certProfile, univ.Any(b"\x30\x00")))
    h = M.header(tx=tx, snonce=sn, rnonce=rn, pvno=pvno, skid=kid, alg=M.alg(univ.ObjectIdentifier(PBM)) if prot else None, infos=infos)
    h["sender"] = sender_name("CN=A")
    m = M.message(h, any_body(body), protection=b"\x07" * 20 if prot else None)
    q = msg(tx2, sn2, None) if req else None
    o = outcome(C.validate_pkimessage_header, m, q, protection=must, time_interval=None, allow_failure_sender=lax)
    want = all_of(pvno >= 2, pvno <= 3, prot or not must, (not prot) or lax or kid == b"A",
                  ic == "no" or (ic == "null" and body in CONFIRM), not prof or body == "ir")
    if req:
        want = all_of(want, eq(tx, tx2), len(sn) >= 16, len(rn) >= 16, eq(rn, sn2))
    decides(o, want, "header")
