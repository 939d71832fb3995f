"""H02: the checks of response bodies accept exactly what RFC 9483 section 4 allows."""
from pyvc.domains import Bool, Enum, Int
from pyvc.harness import harness
from pyvc.intrinsics import all_of, any_of, assume, ensure, ensure_eq, eq, iff, implies, is_exc, not_, outcome, symbolic, truth
from props import cmp as M
from props.h01 import any_body, nested, REJ
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc9480
from resources import certutils, checkutils as C, cmputils, compareutils, protectionutils, utils
from resources.asn1_structures import PKIBodyTMP

F = "resources.checkutils."
REJ = (*REJ, NotImplementedError)
TX = dict(tx=b"t" * 16, snonce=b"s" * 16, rnonce=b"r" * 16)


class patched:
    """replaces callees by recording stand-ins (their contracts are stated in the harness) while a check runs"""

    def __init__(self, *reps):
        self.reps = reps

    def __enter__(self):
        self.old = []
        for o, n, f in self.reps:
            self.old.append((o, n, getattr(o, n)))
            setattr(o, n, f)

    def __exit__(self, *a):
        for o, n, f in self.old:
            setattr(o, n, f)
        return False


def response(rid, status, fail=False, cert="none", key="none", serial=7):
    """one CertResponse"""
    r = rfc9480.CertResponse()
    r["certReqId"] = rid
    r["status"]["status"] = status
    if fail:
        r["status"]["failInfo"] = univ.BitString("100")
    if cert != "none" or key != "none":
        k = r["certifiedKeyPair"]
        if cert == "cert":
            M.set_cert(k["certOrEncCert"], M.certificate("CN=EE", "CN=CA", serial))
        elif cert != "none":
            M.set_enc(k["certOrEncCert"]["encryptedCert"], cert)
        if key != "none":
            M.set_enc(k["privateKey"], key)
    return r


def ca_message(body, resps, pvno=2, capubs=False):
    b = PKIBodyTMP()
    for r in resps:
        b[body]["response"].append(r)
    if capubs:
        b[body]["caPubs"].append(M.certificate("CN=CA", "CN=CA", 1))
    return M.message(M.header(pvno=pvno, **TX), b)


def decides(o, want, what):
    ensure(iff(o.ok, want), f"{what}: accepted exactly when the rules allow it")
    ensure(o.ok or is_exc(o, *REJ), f"{what}: what is refused is refused with a validation error")


STATUS = ["accepted", "grantedWithMods", "rejection", "waiting", "revocationWarning", "revocationNotification", "keyUpdateWarning"]


def keypair_rule(pvno, local, cert, key):
    """RFC 9483 4.1.6: the private key is there exactly for central key generation, EnvelopedData needs pvno 3"""
    if (key == "none") != local:
        return False
    env = "env" in (key, cert)
    return pvno == 3 if env else True


@harness("H02", "key-pair", [F + "validate_certified_key_pair_structure"], inputs=lambda **c: dict(pvno=Int(0, 5), cert=Enum("cert", "env", "val"), key=Enum("none", "env", "val"), local=Bool(), other=Enum("none", "env", "val")),
         cases=[dict(body=b, idx=i) for b in ("ip", "cp", "kup", "ccp") for i in (0, 1)], n=60)
def h_keypair(pvno, cert, key, local, other, body, idx):
    local = truth(local)
    rs = [response(0, 0, cert="cert", key=other), response(0, 0, cert="cert", key=other)]
    rs[idx] = response(0, 0, cert=cert, key=key)
    m = ca_message(body, rs, pvno)
    before = encoder.encode(m["body"])
    decides(outcome(C.validate_certified_key_pair_structure, m, local_key_gen=local, response_index=idx), keypair_rule(pvno, local, cert, key), "certified key pair")
    ensure_eq(encoder.encode(m["body"]), before, "the check leaves the message as it was")


@harness("H02", "cert-req-id", [F + "validate_certReqId", "resources.cmputils.get_certreqid_from_pkimessage"], inputs=lambda **c: dict(rid=Int(-3, 70000), other=Int(-1, 3)),
         cases=[dict(body=b, idx=i, p10=p) for b in ("ip", "cp", "kup", "ccp") for i in (0, 1) for p in (True, False)], n=30)
def h_rid(rid, other, body, idx, p10):
    rs = [response(other, 0), response(other, 0)]
    rs[idx] = response(rid, 0)
    decides(outcome(C.validate_certReqId, ca_message(body, rs), idx, p10), rid == (-1 if p10 else 0), "certReqId")


@harness("H02", "ca-body", [F + "validate_ca_message_body", F + "validate_ca_msg_ca_pubs_field", F + "validate_certified_key_pair_structure", F + "validate_certReqId"],
         inputs=lambda **c: dict(rid=Int(-2, 2), status=Int(0, 6), fail=Bool(), key=Enum("none", "env"), local=Bool(), pvno=Enum(2, 3)),
         cases=[dict(body=b, cert=c, idx=i, n=n, size=s, p10=p) for b in ("ip", "cp", "kup", "ccp") for c in ("none", "cert", "env") for i, n, s in ((0, 1, 1), (0, 2, 1), (1, 2, 2), (0, 1, 2)) for p in (True, False)
                if (n, i) == (2, 1) or b == "ip" or s == 1], n=40)
def h_body(rid, status, fail, key, local, pvno, body, cert, idx, n, size, p10):
    fail, local = truth(fail), truth(local)
    rs = [response(0, 2 if truth(status < 2) else 0, cert="none" if truth(status < 2) else "cert") for _ in range(n)]
    key = key if cert != "none" else "none"
    rs[idx] = response(rid, status, fail, cert, key)
    m = ca_message(body, rs, pvno)
    before = encoder.encode(m["body"])
    o = outcome(C.validate_ca_message_body, m, local_key_gen=local, used_p10cr=p10, expected_size=size, response_index=idx)
    want = all_of(n == size, rid == (-1 if p10 else 0))
    granted = all_of(status <= 1, not fail, cert == "cert", keypair_rule(pvno, local, cert, key))
    refused = all_of(status == 2, cert == "none")
    decides(o, all_of(want, any_of(granted, refused)), "certificate response")
    ensure_eq(encoder.encode(m["body"]), before, "the check leaves the message as it was")


@harness("H02", "ca-body-type", [F + "validate_ca_message_body"], cases=[dict(body=b) for b in ("ir", "cr", "p10cr", "kur", "rr", "rp", "genm", "genp", "error", "pkiconf", "certConf", "pollReq")], n=1)
def h_bodytype(body):
    ensure(not outcome(C.validate_ca_message_body, M.message(M.header(**TX), any_body(body))).ok, "only certificate responses are accepted")


@harness("H02", "ca-pubs", [F + "validate_ca_message_body", F + "validate_ca_msg_ca_pubs_field"],
         inputs=lambda **c: dict(trusted=Bool(), chain=Enum(1, 2, 3), verified=Bool(), irascr=Bool(), status=Enum(0, 1, 2)), cases=[dict(body=b, p10=p, idx=i, present=q) for b in ("ip", "cp", "kup") for p in (True, False) for i in (0, 1) for q in (True, False)], n=40)
def h_capubs(trusted, chain, verified, irascr, status, body, p10, idx, present):
    trusted, verified, irascr = truth(trusted), truth(verified), truth(irascr)
    rid = -1 if p10 else 0
    rs = [response(rid, 0, cert="cert", serial=20), response(rid, 0, cert="cert", serial=21)]
    rs[idx] = response(rid, status, cert="cert" if status < 2 else "none", serial=50)
    m = ca_message(body, rs, capubs=present)
    seen = {}

    def anchors(certs, **kw):
        seen["anchors"] = (list(certs), kw["trustanchors"])
        if not trusted:
            raise ValueError("not trust anchors")

    def build(ee_cert, certs, **kw):
        seen["build"] = (int(ee_cert["tbsCertificate"]["serialNumber"]), len(certs))
        return [ee_cert, *certs, *certs][:chain]

    def verify(cert_chain, **kw):
        seen["verify"] = len(cert_chain)
        if not verified:
            raise ValueError("chain not verified")

    with patched((certutils, "certificates_are_trustanchors", anchors), (certutils, "build_chain_from_list", build), (certutils, "verify_cert_chain_openssl", verify), (utils, "log_certificates", lambda **k: None)):
        o = outcome(C.validate_ca_message_body, m, trustanchors="anchors-dir", used_p10cr=p10, expected_size=2, response_index=idx, used_ir_as_cr=irascr)
    allowed = body != "kup" and (p10 or not (body == "cp" or irascr))
    if status == 2:
        want = not present
    else:
        want = not present or (allowed and trusted and chain > 1 and verified)
    decides(o, want, "caPubs")
    if o.ok and present:
        ensure(len(seen["anchors"][0]) == 1 and seen["anchors"][1] == "anchors-dir", "all certificates of caPubs were checked against the trust anchors")
        ensure(seen["build"][0] == 50 and seen["verify"] == chain, "the chain of the issued certificate of this response was built and verified")


@harness("H02", "revocation-response", [F + "check_rp_cmp_message_body", "resources.cmputils.get_pkistatusinfo"], inputs=lambda **c: dict(status=Int(0, 6), fail=Bool(), other=Int(0, 6), ofail=Bool()),
         cases=[dict(idx=i, k=k) for i, k in ((0, 1), (0, 2), (1, 2))], n=60)
def h_rp(status, fail, other, ofail, idx, k):
    b = PKIBodyTMP()
    for i in range(k):
        s, f = (status, fail) if i == idx else (other, ofail)
        b["rp"]["status"].append(M.pkistatus(s, fail=univ.BitString("100") if truth(f) else None))
    decides(outcome(C.check_rp_cmp_message_body, M.message(M.header(**TX), b), idx), any_of(all_of(status == 0, not truth(fail)), status == 2), "revocation response")


@harness("H02", "revocation-type", [F + "check_rp_cmp_message_body"], cases=[dict(body=b) for b in ("ip", "cp", "kup", "error", "pkiconf", "certConf", "rr", "genp")], n=1)
def h_rp_type(body):
    b = any_body(body) if body not in ("ip", "cp", "kup") else None
    m = M.message(M.header(**TX), b) if b is not None else ca_message(body, [response(0, 0)])
    ensure(not outcome(C.check_rp_cmp_message_body, m).ok, "only an rp message is a revocation response")


PAIR = {"ir": "ip", "cr": "cp", "kur": "kup", "p10cr": "cp", "genm": "genp", "ccr": "ccp", "rr": "rp"}
ALL = ["ir", "ip", "cr", "cp", "p10cr", "kur", "kup", "rr", "rp", "ccr", "ccp", "genm", "genp", "error", "pkiconf", "certConf", "pollReq", "pollRep"]


def bmsg(b):
    return M.message(M.header(**TX), any_body(b) if isinstance(b, str) else nested([bmsg(x) for x in b]))


def fits(req, resp, error):
    """does the body of the response fit the request?  a tuple is a nested message"""
    if isinstance(req, tuple):
        if len(req) == 1:
            return not isinstance(resp, tuple) and fits(req[0], resp, error)
        if resp == "error":
            return error is not False
        return isinstance(resp, tuple) and len(resp) == len(req) and all(fits(a, b, error) for a, b in zip(req, resp))
    if req not in PAIR:
        return False
    if error is None:
        return resp in (PAIR[req], "error")
    return resp == ("error" if error else PAIR[req])


NEST = [(("ir",), "ip"), (("ir",), ("ip",)), (("ir",), "error"), (("cr",), "kup"), (("ir", "cr"), ("ip", "cp")), (("ir", "cr"), ("cp", "ip")), (("ir", "cr"), ("ip", "error")), (("ir", "cr"), ("error", "error")),
        (("ir", "cr"), "error"), (("ir", "cr"), "ip"), (("ir", "cr"), ("ip",)), (("ir", "cr", "kur"), ("ip", "cp", "kup")), (("ir", "cr", "kur"), ("ip", "cp", "cp")), (("ir", "ip"), ("ip", "ip")),
        (("ir", "cr"), ("ip", "cp", "kup")), ((("ir",), "cr"), ("ip", "cp")), ("ir", ("ip",)), ("nested", "error"), ("error", "error"), (("rr", "genm"), ("rp", "genp"))]


@harness("H02", "body-types", [F + "validate_cmp_body_types", F + "_validate_body_types_nested"],
         cases=[dict(req=q, resp=r, error=e) for q in ALL for r in ALL for e in (None, True, False) if q in PAIR or r in ("ip", "error")] + [dict(req=q, resp=r, error=e) for q, r in NEST if q != "nested" for e in (None, True, False)], n=1)
def h_types(req, resp, error):
    decides(outcome(C.validate_cmp_body_types, bmsg(resp), bmsg(req), error), fits(req, resp, error), "body types")


PROT = {"1.2.840.113533.7.66.13": "mac", "1.2.840.113549.1.5.14": "mac", "1.3.6.1.5.5.8.1.2": "mac", "2.16.840.1.101.3.4.2.19": "mac", "1.2.840.113533.7.66.16": "kem", "1.2.840.113533.7.66.30": "dh",
        "1.2.840.113549.1.1.11": "sig", "1.2.840.10045.4.3.2": "sig", "1.3.101.112": "sig", "2.16.840.1.101.3.4.3.17": "sig", "1.3.6.1.5.5.7.6.37": "sig"}


@harness("H02", "wrong-integrity", [F + "validate_wrong_integrity", "resources.suiteenums.ProtectedType.get_protection_type"], cases=[dict(body=b, oid=o) for b in ALL + ["nested"] for o in (None, *PROT)], n=1)
def h_integrity(body, oid):
    b = nested([bmsg("ir")]) if body == "nested" else any_body(body)
    m = M.message(M.header(alg=M.alg(univ.ObjectIdentifier(oid)) if oid else None, **TX), b)
    o = outcome(C.validate_wrong_integrity, m)
    k = PROT.get(oid)
    want = body not in ("ccr", "kur", "rr", "nested") or (oid is not None and k != "mac" and not (body == "ccr" and k in ("kem", "dh")))
    decides(o, want, "kind of protection for this body")


@harness("H02", "pkiconf", [F + "validate_pki_confirmation_message"], inputs=lambda **c: dict(extra=Bool(), cache=Bool(), req=Bool(), match=Bool()),
         cases=[dict(conf=a, ca=b, oid=o) for a in ("pkiconf", "error", "ip") for b in ("ip", "cp", "rp", "kup", "error", "genp", "ir") for o in ("1.2.840.113533.7.66.13", "1.2.840.113549.1.1.11") if a == "pkiconf" or b == "ip"], n=30)
def h_pkiconf(extra, cache, req, match, conf, ca, oid):
    extra, cache, req, match = truth(extra), truth(cache), truth(req), truth(match)
    h = lambda: M.header(alg=M.alg(univ.ObjectIdentifier(oid)), **TX)
    pc = M.message(h(), any_body(conf), extra=[M.certificate("CN=CA", "CN=CA", 1)] if extra else None)
    cm, rq = M.message(h(), any_body(ca)), M.message(h(), any_body("ir"))
    seen = {}

    def mac(request, response, pkiconf=None, **k):
        seen["mac"] = request is rq and response is cm and pkiconf is pc
        if not match:
            raise ValueError("no match")

    def sig(response, pki_conf, *a, **k):
        seen["sig"] = response is cm and pki_conf is pc
        if not match:
            raise ValueError("no match")

    with patched((protectionutils, "mac_protection_algorithms_must_match", mac), (protectionutils, "signature_protection_must_match", sig)):
        o = outcome(C.validate_pki_confirmation_message, pc, cm, rq if req else None, allow_caching_certs=cache)
    ismac = oid.startswith("1.2.840.113533")
    decides(o, conf == "pkiconf" and ca in ("ip", "cp", "rp", "kup") and (extra or cache) and match and (req or not ismac), "confirmation")
    if o.ok:
        ensure(seen == {"mac" if ismac else "sig": True}, "the protection algorithms of these messages were compared")


@harness("H02", "granted-with-mods", [F + "check_for_granted_with_mods", "resources.cmputils.get_cert_from_pkimessage"], inputs=lambda **c: dict(status=Int(0, 6), other=Int(0, 6), same=Bool(), idx=Enum(0, 1)),
         cases=[dict(req=q, resp=r) for q in ("ir", "cr", "kur", "p10cr", "rr") for r in ("ip", "cp", "kup", "error") if q in ("ir", "cr", "kur") or r == "ip"], n=30)
def h_mods(status, other, same, idx, req, resp):
    same = truth(same)
    if resp == "error":
        m = M.message(M.header(**TX), any_body("error"))
    else:
        rs = [response(0, other, cert="cert", serial=20), response(0, other, cert="cert", serial=21)]
        rs[idx] = response(0, status, cert="cert", serial=50)
        m = ca_message(resp, rs)
    b = any_body(req)
    if req in ("ir", "cr", "kur"):
        for i in range(2):
            r = b[req].componentType.clone()
            r["certReq"]["certReqId"] = i
            r["certReq"]["certTemplate"]["version"] = 2
            b[req].append(r)
    q = M.message(M.header(**TX), b)
    seen = {}

    def cmp(template, issued_cert, **kw):
        seen["t"] = template is q["body"][req][idx]["certReq"]["certTemplate"]
        seen["c"] = int(issued_cert["tbsCertificate"]["serialNumber"])
        seen["k"] = kw
        return same

    with patched((compareutils, "compare_cert_template_and_cert", cmp)):
        o = outcome(C.check_for_granted_with_mods, m, q, response_index=idx, include_fields="subject", strict_subject_validation=True)
    decides(o, all_of(req in ("ir", "cr", "kur"), resp != "error", any_of(same, status == 1)), "issued certificate against its template")
    if o.ok:
        ensure(seen["t"] and seen["c"] == 50, "template and certificate of this request were compared")
        ensure(seen["k"] == dict(include_fields="subject", exclude_fields=None, strict_subject_validation=True), "with the options given")


@harness("H02", "cross-cert", [F + "validate_cross_certification_response"], inputs=lambda **c: dict(n=Enum(1, 2), extra=Bool(), rid=Int(-1, 1), status=Int(0, 6)), cases=[dict(oid=o) for o in PROT], n=30)
def h_cross(n, extra, rid, status, oid):
    extra = truth(extra)
    b = PKIBodyTMP()
    for _ in range(n):
        b["ccp"]["response"].append(response(rid, status, cert="cert" if truth(status < 2) else "none"))
    m = M.message(M.header(alg=M.alg(univ.ObjectIdentifier(oid)), **TX), b, protection=b"\x07" * 20, extra=[M.certificate("CN=CA", "CN=CA", 1)] if extra else None)
    decides(outcome(C.validate_cross_certification_response, m), all_of(n == 1, PROT[oid] in ("sig", "dh"), extra, rid == 0, status <= 2), "cross certification response")
