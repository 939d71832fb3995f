"""D03: ML-DSA key generation, signing and verification follow FIPS 204; signatures are bound to the context and
the pre-hash; the key objects pass exactly that on."""
import functools
import hashlib
import random

import z3

from pyvc import values as V
from pyvc.domains import Bytes, Const, Enum, Int, List, Make, Opt
from pyvc.harness import Loop, harness
from pyvc.intrinsics import all_of, any_of, assume, cover, ensure, ensure_eq, eq, ghost, iff, implies, is_exc, not_, outcome, rejects, truth
from spec import mldsa as S
from props import common as C
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from pq_logic.fips import fips204 as M
from pq_logic.keys import sig_keys as K
from resources import cryptoutils, oid_mapping

F = "pq_logic.fips.fips204.ML_DSA."
KP = "pq_logic.keys.sig_keys.MLDSAPublicKey."
KS = "pq_logic.keys.sig_keys.MLDSAPrivateKey."
NAMES = ("ml-dsa-44", "ml-dsa-65", "ml-dsa-87")
SETS = [dict(ps=p) for p in NAMES]
SIGLEN = {"ml-dsa-44": 2420, "ml-dsa-65": 3309, "ml-dsa-87": 4627}
PKLEN = {"ml-dsa-44": 1312, "ml-dsa-65": 1952, "ml-dsa-87": 2592}
SKLEN = {"ml-dsa-44": 2560, "ml-dsa-65": 4032, "ml-dsa-87": 4896}


def obj(ps):
    return M.ML_DSA(ps)


def poly(name, *args):
    """a polynomial that depends on the arguments only: 256 unknown coefficients"""
    c = V.ctx()
    p = c.uf(name, "Poly", list(args))
    key = ("poly", p.t.get_id())
    if key not in c.memo:
        f = z3.Function("coef", p.t.sort(), z3.IntSort(), z3.IntSort())
        co = [V.SInt(e=f(p.t, z3.IntVal(i))) for i in range(256)]
        c.memo[key] = (p, co)
        c.list_terms[tuple(x.e.get_id() for x in co)] = p.t
    return list(c.memo[key][1])


def stubs(ps):
    """contracts of the callees: each result is a function of the arguments (their values are the
    subject of D01, D02 and D04)"""
    k, ell = S.params(ps)[4], S.params(ps)[5]

    def p1(name):
        return lambda self, *a: poly(name, *a)

    def rows(name, n):
        return lambda self, *a: [poly(f"{name}{i}", *a) for i in range(n)]

    def rows_like(name):
        return lambda self, *a: [poly(f"{name}{i}", *a) for i in range(len(a[0]))]

    def scal(name, out="int"):
        return lambda self, *a: V.ctx().uf(name, out, list(a))

    def by(name, n=None):
        return lambda self, *a: V.ctx().uf(name, ("bytes", n), list(a))

    def h(self, s, n):
        return V.ctx().uf("H", ("bytes", n), [s, n])

    def sigdec(self, sig):
        c = V.ctx()
        hint = None if truth(c.uf("badhint", "bool", [sig])) else [poly(f"hint{i}", sig) for i in range(k)]
        return (c.uf("ct", ("bytes", S.params(ps)[1] // 4), [sig]), [poly(f"z{i}", sig) for i in range(ell)], hint)

    def pkdec(self, pk):
        return (V.ctx().uf("rho", ("bytes", 32), [pk]), [poly(f"t1.{i}", pk) for i in range(k)])

    def skdec(self, sk):
        c = V.ctx()
        return (c.uf("srho", ("bytes", 32), [sk]), c.uf("kk", ("bytes", 32), [sk]), c.uf("tr", ("bytes", 64), [sk]),
                [poly(f"s1.{i}", sk) for i in range(ell)], [poly(f"s2.{i}", sk) for i in range(k)], [poly(f"t0.{i}", sk) for i in range(k)])

    def p2r(self, t):
        return ([poly(f"p2r1.{i}", t) for i in range(k)], [poly(f"p2r0.{i}", t) for i in range(k)])

    def exps(self, rho):
        return ([poly(f"es1.{i}", rho) for i in range(ell)], [poly(f"es2.{i}", rho) for i in range(k)])
    D = M.ML_DSA
    return {D.ntt: p1("ntt"), D.ntt_inverse: p1("intt"), D.mul_ntt: p1("mul"), D.add: p1("add"), D.sub: p1("sub"), D.neg: p1("neg"),
            D.matrix_vector_ntt: rows("mv", k), D.expand_a: scal("expA", "Matrix"), D.expand_mask: rows("mask", ell),
            D.expand_s: exps, D.sample_in_ball: p1("ball"), D.high_bits: rows_like("hb"), D.low_bits: rows_like("lb"),
            D.use_hint: rows("uh", k), D.make_hint: rows("mh", k), D.weight: scal("weight"), D.inf_norm: scal("norm"),
            D.w1_encode: by("w1e"), D.h: h, D.sig_decode: sigdec, D.pk_decode: pkdec, D.sk_decode: skdec, D.sig_encode: by("sige"),
            D.pk_encode: by("pke"), D.sk_encode: by("ske"), D.power2round: p2r}


# ---------------------------------------------------------------- key generation
@harness("D03", "keygen", [F + "keygen_internal"], cases=SETS, stubs=stubs, absb=True, inputs=dict(xi=Bytes(32)), n=2)
def h_keygen(xi, ps):
    o = obj(ps)
    k, ell = S.params(ps)[4], S.params(ps)[5]
    pk, sk = obj(ps).keygen_internal(xi)
    seed = o.h(xi + bytes([k, ell]), 128)
    rho, rhop, kk = seed[0:32], seed[32:96], seed[96:128]
    s1, s2 = o.expand_s(rhop)
    t = o.matrix_vector_ntt(o.expand_a(rho), [o.ntt(p) for p in s1])
    t = [o.add(o.ntt_inverse(t[i]), s2[i]) for i in range(k)]
    t1, t0 = o.power2round(t)
    want = o.pk_encode(rho, t1)
    ensure_eq(pk, want, "public key as specified")
    ensure_eq(sk, o.sk_encode(rho, kk, o.h(want, 64), s1, s2, t0), "private key as specified")


# ---------------------------------------------------------------- verification
@functools.lru_cache(None)
def keypair(ps, n):
    return obj(ps).keygen_internal(hashlib.sha256(f"{ps}{n}".encode()).digest())


@functools.lru_cache(None)
def signed(ps, n, mp):
    return obj(ps).sign_internal(keypair(ps, n)[1], mp, bytes(32))


@functools.lru_cache(None)
def overlong(ps):
    """a signature over b"m" that fits in every respect except that its response reaches the bound"""
    o, p = obj(ps), S.params(ps)
    kappa = 0
    while True:
        rho, kk, tr, s1, s2, t0 = o.sk_decode(keypair(ps, 0)[1])
        c = candidate(o, keypair(ps, 0)[1], b"m", bytes(32), kappa, ps)
        z = [[S.modpm(x, S.Q) for x in q] for q in c[2]]
        norm = max(abs(x) for q in z for x in q)
        if p[2] - p[0] * p[6] <= norm < p[2] and sum(x for q in c[3] for x in q) <= p[7]:
            sig = o.sig_encode(c[1], z, c[3])
            mu = o.h(tr + b"m", 64)
            ch = o.ntt(o.sample_in_ball(c[1]))
            az = o.matrix_vector_ntt(o.expand_a(rho), [o.ntt(q) for q in z])
            t1 = o.pk_decode(keypair(ps, 0)[0])[1]
            w = [o.ntt_inverse(o.sub(az[i], o.mul_ntt(ch, o.ntt([8192 * x for x in t1[i]])))) for i in range(p[4])]
            if o.h(mu + o.w1_encode(o.use_hint(c[3], w)), p[1] // 4) == c[1]:
                return sig
        kappa += p[5]


def gen_verify(rnd, i, ps):
    if i % 12 == 11:
        return dict(pk=keypair(ps, 0)[0], mp=b"m", sig=overlong(ps))
    n = rnd.randrange(2)
    mp = rnd.choice([b"", b"\0\0abc", b"m" * 40])
    pk, sig = keypair(ps, n)[0], bytearray(signed(ps, n, mp))
    m = i % 12
    p = S.params(ps)
    ctl, zl = p[1] // 4, 32 * p[5] * (18 if p[2] == 2 ** 17 else 20)
    if m == 1:
        sig[rnd.randrange(len(sig))] ^= 1 << rnd.randrange(8)
    elif m == 2:
        sig += b"\0"
    elif m == 3:
        del sig[-1]
    elif m == 4:
        mp = mp + b"x"
    elif m == 5:
        pk = keypair(ps, 1 - n)[0]
    elif m == 6:
        sig[ctl + zl + rnd.randrange(p[7] + p[4])] ^= 1 << rnd.randrange(8)
    elif m == 7:
        sig[rnd.randrange(ctl)] ^= 1
    elif m == 8:
        pk = pk + b"\0" if rnd.random() < 0.5 else pk[:-1]
    elif m == 9:
        sig = sig[:rnd.randrange(len(sig))]
    elif m == 10:
        pk = bytearray(pk)
        pk[rnd.randrange(len(pk))] ^= 1 << rnd.randrange(8)
        pk = bytes(pk)
    return dict(pk=pk, mp=mp, sig=bytes(sig))


def accepts(o, pk, mp, sig, ps):
    """FIPS 204 algorithm 8 and section 3.6.2"""
    tau, lam, g1, g2, k, ell, eta, omega = S.params(ps)
    if len(pk) != PKLEN[ps] or len(sig) != SIGLEN[ps]:
        return False
    rho, t1 = o.pk_decode(pk)
    ct, z, h = o.sig_decode(sig)
    if h is None:
        return False
    mu = o.h(o.h(pk, 64) + mp, 64)
    ch = o.ntt(o.sample_in_ball(ct))
    az = o.matrix_vector_ntt(o.expand_a(rho), [o.ntt(p) for p in z])
    w = []
    for i in range(k):
        w.append(o.ntt_inverse(o.sub(az[i], o.mul_ntt(ch, o.ntt([8192 * x for x in t1[i]])))))
    c2 = o.h(mu + o.w1_encode(o.use_hint(h, w)), lam // 4)
    return all_of(o.inf_norm(z) < g1 - tau * eta, eq(ct, c2))


@harness("D03", "verify_internal", [F + "verify_internal"], cases=SETS, stubs=stubs, absb=True, gen=gen_verify, n=24,
         inputs=dict(pk=Bytes(seq=True), mp=Bytes(), sig=Bytes(seq=True)), covers=["accept", "refuse"])
def h_verify(pk, mp, sig, ps):
    got = obj(ps).verify_internal(pk, mp, sig)
    want = accepts(obj(ps), pk, mp, sig, ps)
    ensure(iff(got, want), "accepts exactly when the hint is well formed, z is short and the challenge matches")
    if truth(want):
        cover("accept")
    else:
        cover("refuse")


# ---------------------------------------------------------------- signing
def candidate(o, sk, mp, rnd, kappa, ps):
    """FIPS 204 algorithm 7, one round at counter kappa -> (accepted, signature)"""
    tau, lam, g1, g2, k, ell, eta, omega = S.params(ps)
    beta = tau * eta
    rho, kk, tr, s1, s2, t0 = o.sk_decode(sk)
    mu = o.h(tr + mp, 64)
    y = o.expand_mask(o.h(kk + rnd + mu, 64), kappa)
    w = [o.ntt_inverse(p) for p in o.matrix_vector_ntt(o.expand_a(rho), [o.ntt(p) for p in y])]
    ct = o.h(mu + o.w1_encode(o.high_bits(w)), lam // 4)
    ch = o.ntt(o.sample_in_ball(ct))
    z = [o.add(y[i], o.ntt_inverse(o.mul_ntt(ch, o.ntt(s1[i])))) for i in range(ell)]
    r = [o.sub(w[i], o.ntt_inverse(o.mul_ntt(ch, o.ntt(s2[i])))) for i in range(k)]
    r0 = o.low_bits(r)
    ct0 = [o.ntt_inverse(o.mul_ntt(ch, o.ntt(p))) for p in t0]
    h = o.make_hint([o.neg(p) for p in ct0], [o.add(r[i], ct0[i]) for i in range(k)])
    ok = all_of(o.inf_norm(z) < g1 - beta, o.inf_norm(r0) < g2 - beta, o.inf_norm(ct0) < g2, o.weight(h) <= omega)
    zc = [[o.modpm(x, S.Q) for x in p] for p in z]
    return ok, ct, zc, h


class SignLoop(Loop):
    """rejection loop of Sign_internal: every earlier round was rejected; the counter of round i is l*i"""

    def __init__(self, ps):
        self.ps = ps

    def inv(self, interp, env, entry):
        if entry:
            return all_of(eq(env["kappa"], 0), env["z"] is None, env["h"] is None)
        return all_of(env["z"] is None, env["h"] is None)

    def havoc(self, interp, env):
        c = V.ctx()
        k = c.fresh_int("kappa", 0, 60000)
        c.ghost["kappa"] = k
        c.ghost["o"] = env["self"]
        return {"kappa": k, "z": None, "h": None}

    def step(self, interp, before, after):
        c = V.ctx()
        k = c.ghost["kappa"]
        ok = interp.call(candidate, (after["self"], after["sk"], after["mp"], after["rnd"], k, self.ps))[0]
        c.prove(V.snot(ok), "a round is repeated only when its candidate must be rejected")
        c.prove(eq(after["kappa"], k + S.params(self.ps)[5]), "the counter moves on by l")


def conc_sign(sk, mp, rnd, ps):
    o = obj(ps)
    kappa = 0
    while True:
        ok, ct, z, h = candidate(o, sk, mp, rnd, kappa, ps)
        if ok:
            break
        kappa += S.params(ps)[5]
    ensure_eq(obj(ps).sign_internal(sk, mp, rnd), o.sig_encode(ct, z, h), "signature is the first acceptable candidate")
    n = [n for n in range(3) if keypair(ps, n)[1] == sk][0]
    ensure(obj(ps).verify_internal(keypair(ps, n)[0], mp, o.sig_encode(ct, z, h)), "own signatures verify")


def sign_stubs_i(ps):
    d = dict(stubs(ps))

    def modpm(self, a, m):  # contract of D01: the centered residue
        x = V.ctx().uf("modpm", "int", [a, m])
        return x
    d[M.ML_DSA.modpm] = modpm
    return d


@harness("D03", "sign_internal", [F + "sign_internal"], cases=SETS, stubs=sign_stubs_i, absb=True, n=3, conc=conc_sign,
         loops=lambda ps: {M.ML_DSA.sign_internal: {0: SignLoop(ps)}},
         gen=lambda rnd, i, ps: dict(sk=keypair(ps, rnd.randrange(3))[1], mp=rnd.randbytes(rnd.randrange(60)), rnd=rnd.choice([bytes(32), rnd.randbytes(32)])),
         inputs=lambda ps: dict(sk=Bytes(SKLEN[ps]), mp=Bytes(), rnd=Bytes(32)))
def h_sign(sk, mp, rnd, ps):
    o = obj(ps)
    sig = o.sign_internal(sk, mp, rnd)
    ok, ct, z, h = candidate(o, sk, mp, rnd, ghost("kappa"), ps)
    ensure(ok, "the returned candidate meets every bound")
    ensure_eq(sig, o.sig_encode(ct, z, h), "the signature encodes that candidate")


# ---------------------------------------------------------------- context and pre-hash framing
OIDS = {"SHA-256": "0609608648016503040201", "SHA-512": "0609608648016503040203", "SHAKE128": "060960864801650304020b"}


def frame_stubs(**case):
    def si(self, sk, mp, rnd, param=None):
        V.ctx().ghost["calls"] = V.ctx().ghost.get("calls", 0) + 1
        return V.ctx().uf("SignI", ("bytes", None), [self.k, sk, mp, rnd])

    def vi(self, pk, mp, sig, param=None):
        return V.ctx().uf("VerI", "bool", [self.k, pk, mp, sig])

    def ch(algorithm, data):
        return V.ctx().uf("hash:" + algorithm, ("bytes", {"sha256": 32, "sha512": 64}.get(algorithm)), [data])

    def sh(algorithm, data, length):
        return V.ctx().uf("shake:" + algorithm, ("bytes", length), [data])

    def ck(alg, data):
        n = {"sha256": 32, "sha512": 64, "sha384": 48, "shake128": 32, "shake256": 64}
        return V.ctx().uf("hash:" + alg, ("bytes", n.get(alg)), [data])
    return {M.ML_DSA.sign_internal: si, M.ML_DSA.verify_internal: vi, M._compute_hash: ch, M._compute_shake: sh, K.compute_hash: ck}


def spy(o, **kw):
    """the concrete counterpart of frame_stubs: record what reaches the internal routines"""
    calls = []

    def si(sk, mp, rnd, param=None):
        calls.append(("sign", bytes(sk), bytes(mp), bytes(rnd)))
        return b"SIG" + bytes(mp)

    def vi(pk, mp, sig, param=None):
        calls.append(("verify", bytes(pk), bytes(mp), bytes(sig)))
        return bytes(sig) == b"SIG" + bytes(mp)
    o.sign_internal, o.verify_internal = si, vi
    return calls


CTX = Bytes(lo=0, hi=300)


def conc_frame(sk, m, ctx, rnd, sig, ps):
    o = obj(ps)
    calls = spy(o)
    r = o.sign(sk, m, ctx, rnd)
    if len(ctx) > 255:
        ensure(r is None and not calls, "over-long context is refused")
        ensure(is_exc(outcome(o.verify, sk, m, sig, ctx), ValueError) and not calls, "over-long context is refused")
        return
    mp = b"\0" + bytes([len(ctx)]) + ctx + m
    ensure_eq(calls, [("sign", sk, mp, rnd if rnd is not None else bytes(32))], "signs 0 || len || ctx || M")
    del calls[:]
    ensure_eq(o.verify(sk, m, sig, ctx), sig == b"SIG" + mp, "verifies 0 || len || ctx || M")
    ensure_eq(calls, [("verify", sk, mp, sig)], "verifies 0 || len || ctx || M")


@harness("D03", "pure_framing", [F + "sign", F + "verify"], cases=SETS, stubs=frame_stubs, absb=True, conc=conc_frame,
         inputs=dict(sk=Bytes(), m=Bytes(), ctx=CTX, rnd=Opt(Bytes(32)), sig=Bytes()), covers=["long", "ok"])
def h_frame(sk, m, ctx, rnd, sig, ps):
    o = obj(ps)
    r = o.sign(sk, m, ctx, rnd)
    v = outcome(o.verify, sk, m, sig, ctx)
    if truth(len(ctx) > 255):
        cover("long")
        ensure(r is None, "over-long context is refused")
        ensure(is_exc(v, ValueError), "over-long context is refused")
    else:
        cover("ok")
        mp = b"\0" + bytes([len(ctx)]) + ctx + m
        ensure_eq(r, o.sign_internal(sk, mp, bytes(32) if rnd is None else rnd), "signs 0 || len || ctx || M")
        ensure(v.ok, "no exception")
        ensure(iff(v.value, o.verify_internal(sk, mp, sig)), "verifies 0 || len || ctx || M")


def ph_native(ph, m):
    return hashlib.sha256(m).digest() if ph == "SHA-256" else hashlib.sha512(m).digest() if ph == "SHA-512" else hashlib.shake_128(m).digest(32)


def conc_hframe(sk, m, ctx, rnd, sig, ph, ps):
    o = obj(ps)
    calls = spy(o)
    r = o.hash_ml_dsa_sign(sk, m, ctx, ph, rnd)
    v = None
    if len(ctx) > 255 or ph not in OIDS:
        ensure(r is None and not calls, "refused")
        ensure(not o.hash_ml_dsa_verify(sk, m, sig, ctx, ph) and not calls, "refused")
        return
    mp = b"\1" + bytes([len(ctx)]) + ctx + bytes.fromhex(OIDS[ph]) + ph_native(ph, m)
    ensure_eq(calls, [("sign", sk, mp, rnd if rnd is not None else bytes(32))], "signs 1 || len || ctx || OID || PH(M)")
    del calls[:]
    ensure_eq(o.hash_ml_dsa_verify(sk, m, sig, ctx, ph), sig == b"SIG" + mp, "verifies 1 || len || ctx || OID || PH(M)")
    ensure_eq(calls, [("verify", sk, mp, sig)], "verifies 1 || len || ctx || OID || PH(M)")


@harness("D03", "hash_framing", [F + "hash_ml_dsa_sign", F + "hash_ml_dsa_verify"], stubs=frame_stubs, absb=True, conc=conc_hframe,
         cases=[dict(ps=p, ph=h) for p in NAMES for h in ("SHA-256", "SHA-512", "SHAKE128", "MD5")],
         inputs=dict(sk=Bytes(), m=Bytes(), ctx=CTX, rnd=Opt(Bytes(32)), sig=Bytes()))
def h_hframe(sk, m, ctx, rnd, sig, ph, ps):
    o = obj(ps)
    r = o.hash_ml_dsa_sign(sk, m, ctx, ph, rnd)
    v = o.hash_ml_dsa_verify(sk, m, sig, ctx, ph)
    if ph not in OIDS or truth(len(ctx) > 255):
        ensure(r is None, "refused")
        ensure(v is None or v is False, "refused")
    else:
        d = M._compute_shake("shake128", m, 32) if ph == "SHAKE128" else M._compute_hash("sha256" if ph == "SHA-256" else "sha512", m)
        mp = b"\1" + bytes([len(ctx)]) + ctx + bytes.fromhex(OIDS[ph]) + d
        ensure_eq(r, o.sign_internal(sk, mp, bytes(32) if rnd is None else rnd), "signs 1 || len || ctx || OID || PH(M)")
        ensure(iff(v, o.verify_internal(sk, mp, sig)), "verifies 1 || len || ctx || OID || PH(M)")


@harness("D03", "hashes", ["pq_logic.fips._fips_utils._compute_hash", "pq_logic.fips._fips_utils._compute_shake", "resources.cryptoutils.compute_hash"],
         level="bounded", bound="random messages", n=60,
         gen=lambda rnd, i: dict(m=rnd.randbytes(rnd.randrange(200)), n=rnd.choice([0, 1, 32, 64, 500])))
def h_hashes(m, n):
    for a in ("sha256", "sha512", "sha3_256", "sha3_512"):
        ensure_eq(M._compute_hash(a, m), hashlib.new(a, m).digest(), a)
    for a in ("sha256", "sha384", "sha512"):
        ensure_eq(K.compute_hash(a, m), hashlib.new(a, m).digest(), a)
    for a in ("shake128", "shake256"):
        if n:
            ensure_eq(M._compute_shake(a, m, n), C.shake(a, m, n), a)


# ---------------------------------------------------------------- key objects
def pub(ps, pk):
    return K.MLDSAPublicKey(alg_name=ps, public_key=pk)


def priv(ps, sk, pk):
    return K.MLDSAPrivateKey(alg_name=ps, private_bytes=sk, public_key=pk)


HASH = [None, "sha512", "obj", "sha256"]


def hash_arg(ha):
    return hashes.SHA512() if ha == "obj" else ha


WCASES = [dict(ps=p, ha=h, pre=b) for p in NAMES for h in HASH for b in (False, True)]


def wrap_mp(ha, pre, ctx, data, dig):
    if ha is None:
        return b"\0" + bytes([len(ctx)]) + ctx + data
    return b"\1" + bytes([len(ctx)]) + ctx + bytes.fromhex("0609608648016503040203") + (data if pre else dig)


def conc_wverify(pk, data, ctx, sig, ps, ha, pre):
    calls = []
    old = M.ML_DSA.verify_internal

    def vi(self, pk, mp, sig, param=None):
        calls.append((self.k, bytes(pk), bytes(mp), bytes(sig)))
        return bytes(sig)[:1] == b"S"
    M.ML_DSA.verify_internal = vi
    try:
        v = outcome(pub(ps, pk).verify, sig, data, hash_arg(ha), pre, ctx)
    finally:
        M.ML_DSA.verify_internal = old
    if len(ctx) > 255 or ha == "sha256":
        ensure(is_exc(v, ValueError) and not calls, "over-long context or unknown hash is refused")
        return
    mp = wrap_mp(ha, pre, ctx, data, hashlib.sha512(data).digest())
    ensure_eq(calls, [(S.params(ps)[4], pk, mp, sig)], "the framed message is verified under this key and parameter set")
    ensure_eq(v.ok, sig[:1] == b"S", "returns exactly when the signature verifies")
    ensure(v.ok or isinstance(v.exc, InvalidSignature), "otherwise InvalidSignature")


def encode_stub():
    return {}


@harness("D03", "key_verify", [KP + "verify", KP + "check_hash_alg", KP + "public_bytes_raw", F + "verify"], cases=WCASES, stubs=frame_stubs, absb=True, conc=conc_wverify,
         inputs=lambda ps, ha, pre: dict(pk=Bytes(PKLEN[ps]), data=Bytes(), ctx=CTX, sig=Bytes()))
def h_wverify(pk, data, ctx, sig, ps, ha, pre):
    v = outcome(pub(ps, pk).verify, sig, data, hash_arg(ha), pre, ctx)
    if ha == "sha256" or truth(len(ctx) > 255):
        ensure(is_exc(v, ValueError), "over-long context or unknown hash is refused")
    else:
        mp = wrap_mp(ha, pre, ctx, data, K.compute_hash("sha512", data))
        good = obj(ps).verify_internal(pk, mp, sig)
        ensure(iff(v.ok, good), "returns exactly when the signature verifies over the framed message")
        ensure(v.ok or is_exc(v, InvalidSignature), "otherwise InvalidSignature")


def conc_wsign(sk, pk, data, ctx, ps, ha, pre):
    calls = []
    old = M.ML_DSA.sign_internal

    def si(self, sk, mp, rnd, param=None):
        calls.append((self.k, bytes(sk), bytes(mp)))
        return b"S" + bytes(mp)
    M.ML_DSA.sign_internal = si
    try:
        v = outcome(priv(ps, sk, pk).sign, data, hash_arg(ha), ctx, pre)
    finally:
        M.ML_DSA.sign_internal = old
    if len(ctx) > 255:
        ensure(is_exc(v, ValueError) and not calls, "over-long context is refused")
        return
    mp = wrap_mp(ha, pre, ctx, data, hashlib.sha512(data).digest())
    ensure_eq(calls, [(S.params(ps)[4], sk, mp)], "the framed message is signed with this key and parameter set")
    ensure_eq(v.value, b"S" + mp, "the signature is returned")


def sign_stubs(**case):
    d = frame_stubs()

    def si(self, sk, mp, rnd, param=None):
        V.ctx().ghost["rnd"] = rnd
        return V.ctx().uf("SignI", ("bytes", SIGLEN[case["ps"]]), [self.k, sk, mp, rnd])
    d[M.ML_DSA.sign_internal] = si
    return d


@harness("D03", "key_sign", [KS + "sign", KP + "check_hash_alg", F + "sign"], cases=[c for c in WCASES if c["ha"] != "sha256"], stubs=sign_stubs, absb=True, conc=conc_wsign,
         inputs=lambda ps, ha, pre: dict(sk=Bytes(SKLEN[ps]), pk=Bytes(PKLEN[ps]), data=Bytes(), ctx=CTX))
def h_wsign(sk, pk, data, ctx, ps, ha, pre):
    v = outcome(priv(ps, sk, pk).sign, data, hash_arg(ha), ctx, pre)
    if truth(len(ctx) > 255):
        ensure(is_exc(v, ValueError), "over-long context is refused")
    else:
        ensure(v.ok, "signs")
        mp = wrap_mp(ha, pre, ctx, data, K.compute_hash("sha512", data))
        ensure_eq(v.value, obj(ps).sign_internal(sk, mp, ghost("rnd")), "the framed message is signed with this key")


@harness("D03", "roundtrip", [KS + "sign", KP + "verify", KS + "from_private_bytes", KP + "from_public_bytes", KS + "_derive_public_key"], level="bounded",
         bound="random seeds, messages, contexts; all three parameter sets; single changes of each argument", cases=SETS, n=4,
         gen=lambda rnd, i, ps: dict(seed=rnd.randbytes(32), m=rnd.randbytes(rnd.randrange(50)), ctx=rnd.choice([b"", b"c", rnd.randbytes(255)]),
                                     ha=rnd.choice([None, "sha512"]), r=rnd.randrange(2 ** 30)))
def h_round(seed, m, ctx, ha, r, ps):
    rnd = random.Random(r)
    k = K.MLDSAPrivateKey.from_seed(ps, seed)
    p = k.public_key()
    sig = k.sign(m, hash_alg=ha, ctx=ctx)
    ensure(len(sig) == SIGLEN[ps], "signature length")
    ensure(outcome(p.verify, sig, m, ha, False, ctx).ok, "own signature verifies")
    ensure(outcome(K.MLDSAPublicKey.from_public_bytes(p.public_bytes_raw(), ps).verify, sig, m, ha, False, ctx).ok, "and under the re-loaded key")
    k2 = K.MLDSAPrivateKey.from_private_bytes(k.private_bytes_raw(), ps)
    ensure_eq(k2.public_key().public_bytes_raw(), p.public_bytes_raw(), "re-loaded private key has the same public key")
    k3 = K.MLDSAPrivateKey.from_private_bytes(seed, ps)
    ensure_eq(k3.private_bytes_raw(), k.private_bytes_raw(), "seed gives the same key")
    k4 = K.MLDSAPrivateKey.from_private_bytes(seed + k.private_bytes_raw(), ps)
    ensure_eq(k4.private_bytes_raw(), k.private_bytes_raw(), "seed with expanded key gives the same key")
    for bad in (seed[:-1], seed + k.private_bytes_raw()[:-1], bytes(32) + k.private_bytes_raw()):
        ensure(not outcome(K.MLDSAPrivateKey.from_private_bytes, bad, ps).ok, "malformed private key is refused")
    for bad in (b"", p.public_bytes_raw()[:-1], p.public_bytes_raw() + b"\0"):
        ensure(not outcome(K.MLDSAPublicKey.from_public_bytes, bad, ps).ok, "malformed public key is refused")
    s2 = bytearray(sig)
    s2[rnd.randrange(len(sig))] ^= 1 << rnd.randrange(8)
    for a in ((bytes(s2), m, ha, False, ctx), (sig + b"\0", m, ha, False, ctx), (sig[:-1], m, ha, False, ctx), (sig, m + b"\0", ha, False, ctx),
              (sig, m, ha, False, ctx[:-1] if ctx else b"x"), (sig, m, "sha512" if ha is None else None, False, ctx)):
        ensure(is_exc(outcome(p.verify, *a), InvalidSignature), "changed signature, message, context or mode is refused")
    if ctx and m:
        ensure(is_exc(outcome(p.verify, sig, ctx[-1:] + m, ha, False, ctx[:-1]), InvalidSignature), "context and message bytes are not interchangeable")
