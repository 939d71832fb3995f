"""K02: ML-KEM key generation, encapsulation and decapsulation follow FIPS 203, with implicit rejection; the key
objects pass exactly that on."""
import functools
import hashlib

from pyvc import values as V
from pyvc.domains import Bytes, Const, Enum, Int, List, Make
from pyvc.harness import harness
from pyvc.intrinsics import assume, cover, ensure, ensure_eq, eq, ghost, is_exc, not_, outcome, truth
from props import common as C
from pq_logic.fips import fips203 as M
from pq_logic.keys import kem_keys as K
from resources.exceptions import InvalidKeyData

F = "pq_logic.fips.fips203.ML_KEM."
KP = "pq_logic.keys.kem_keys.MLKEMPublicKey."
KS = "pq_logic.keys.kem_keys.MLKEMPrivateKey."
# name: k, eta1, eta2, du, dv (FIPS 203 table 2)
PAR = {"ml-kem-512": (2, 3, 2, 10, 4), "ml-kem-768": (3, 2, 2, 10, 4), "ml-kem-1024": (4, 2, 2, 11, 5)}
EK = {"ml-kem-512": 800, "ml-kem-768": 1184, "ml-kem-1024": 1568}
DK = {"ml-kem-512": 1632, "ml-kem-768": 2400, "ml-kem-1024": 3168}
CT = {"ml-kem-512": 768, "ml-kem-768": 1088, "ml-kem-1024": 1568}
SETS = [dict(ps=p) for p in PAR]


def obj(ps):
    return M.ML_KEM(ps)


@harness("K02", "parameters", [F + "__init__"], cases=SETS, n=1)
def h_par(ps):
    for nm in (ps, ps.upper()):
        o = obj(nm)
        ensure_eq((o.k, o.eta1, o.eta2, o.du, o.dv, o.q, o.n), PAR[ps] + (3329, 256), "parameter set of FIPS 203")
    ensure(is_exc(outcome(obj, "ml-kem-640"), ValueError), "unknown parameter set is refused")


# ---------------------------------------------------------------- K-PKE over the contracts of its parts
def part_stubs(ps):
    """results are functions of the arguments; sums are kept in a normal form (addition of reduced polynomials is
    commutative and associative: K01 proves it coefficientwise)"""
    def p1(name):
        return lambda self, *a: V.ctx().uf(name, "Poly", list(a))

    def lin(x):
        if isinstance(x, V.SOpaque):
            return V.ctx().memo.get(("lin", x.t.get_id()), (x, [(1, x)]))[1]
        return [] if all(isinstance(c, int) and c == 0 for c in x) else [(1, V.ctx().uf("const", "Poly", [x]))]

    def total(ts):
        c = V.ctx()
        acc = {}
        for s, t in ts:
            acc[t.t.get_id()] = (acc.get(t.t.get_id(), (0, t))[0] + s, t)
        ts = sorted([(s, t) for s, t in acc.values() if s], key=lambda x: x[1].t.get_id())
        if not ts:
            return [0] * 256
        if len(ts) == 1 and ts[0][0] == 1:
            return ts[0][1]
        r = c.uf("sum", "Poly", [z for s, t in ts for z in (s, t)])
        c.memo[("lin", r.t.get_id())] = (r, ts)
        return r

    def add(self, f, g):
        return total(lin(f) + lin(g))

    def sub(self, f, g):
        return total(lin(f) + [(-s, t) for s, t in lin(g)])

    def mul(self, f, g):  # products modulo the 128 quadratics commute (K01)
        return V.ctx().uf("mul", "Poly", sorted([f, g], key=lambda x: x.t.get_id()) if isinstance(f, V.SOpaque) and isinstance(g, V.SOpaque) else [f, g])

    def enc(self, d, f):
        if isinstance(f, list) and (isinstance(f[0], (list, V.SOpaque))):
            out = b""
            for x in f:
                out = out + enc(self, d, x)
            return out
        return V.ctx().uf(f"enc{d}", ("bytes", 32 * d), [f])

    def dec(self, d, b):
        return V.ctx().uf(f"dec{d}", "Poly", [b])

    def g(self, x):
        return (V.ctx().uf("G0", ("bytes", 32), [x]), V.ctx().uf("G1", ("bytes", 32), [x]))

    def prf(self, eta, s, b):
        return V.ctx().uf("PRF", ("bytes", 64 * eta), [eta, s, b])
    D = M.ML_KEM
    return {D.ntt: p1("ntt"), D.ntt_inverse: p1("intt"), D.multiply_ntts: mul, D.poly_add: add, D.poly_sub: sub,
            D.sample_ntt: p1("sample"), D.sample_poly_cbd: p1("cbd"), D.compress: p1("comp"), D.decompress: p1("decomp"),
            D.byte_encode: enc, D.byte_decode: dec, D.g: g, D.prf: prf,
            D.h: lambda self, x: V.ctx().uf("H", ("bytes", 32), [x]), D.j: lambda self, x: V.ctx().uf("J", ("bytes", 32), [x])}


def spec_matrix(o, rho, k):
    """A[i][j] from rho || j || i"""
    return [[o.sample_ntt(rho + bytes([j, i])) for j in range(k)] for i in range(k)]


def dot(o, rows, vec):
    t = [0] * 256
    for i in range(len(vec)):
        t = o.poly_add(t, o.multiply_ntts(rows[i], vec[i]))
    return t


def spec_keygen(o, d, ps):
    k, eta1 = PAR[ps][0], PAR[ps][1]
    rho, sig = o.g(d + bytes([k]))
    a = spec_matrix(o, rho, k)
    s = [o.ntt(o.sample_poly_cbd(eta1, o.prf(eta1, sig, n))) for n in range(k)]
    e = [o.ntt(o.sample_poly_cbd(eta1, o.prf(eta1, sig, k + n))) for n in range(k)]
    t = [o.poly_add(dot(o, a[i], s), e[i]) for i in range(k)]
    ek, dk = b"", b""
    for i in range(k):
        ek = ek + o.byte_encode(12, t[i])
        dk = dk + o.byte_encode(12, s[i])
    return ek + rho, dk


@harness("K02", "k_pke_keygen", [F + "k_pke_keygen"], cases=SETS, stubs=part_stubs, absb=True, inputs=dict(d=Bytes(32)), n=2)
def h_pkekg(d, ps):
    ek, dk = obj(ps).k_pke_keygen(d)
    e2, d2 = spec_keygen(obj(ps), d, ps)
    ensure_eq(ek, e2, "encryption key as specified")
    ensure_eq(dk, d2, "decryption key as specified")
    ensure(len(ek) == EK[ps], "encryption key length")


def spec_encrypt(o, ek, m, r, ps):
    k, eta1, eta2, du, dv = PAR[ps]
    t = [o.byte_decode(12, ek[384 * i:384 * i + 384]) for i in range(k)]
    a = spec_matrix(o, ek[384 * k:384 * k + 32], k)
    y = [o.ntt(o.sample_poly_cbd(eta1, o.prf(eta1, r, n))) for n in range(k)]
    e1 = [o.sample_poly_cbd(eta2, o.prf(eta2, r, k + n)) for n in range(k)]
    e2 = o.sample_poly_cbd(eta2, o.prf(eta2, r, 2 * k))
    c = b""
    for i in range(k):
        u = o.poly_add(o.ntt_inverse(dot(o, [a[j][i] for j in range(k)], y)), e1[i])
        c = c + o.byte_encode(du, o.compress(du, u))
    mu = o.decompress(1, o.byte_decode(1, m))
    v = o.poly_add(o.poly_add(o.ntt_inverse(dot(o, t, y)), e2), mu)
    return c + o.byte_encode(dv, o.compress(dv, v))


@harness("K02", "k_pke_encrypt", [F + "k_pke_encrypt"], cases=SETS, stubs=part_stubs, absb=True, n=2,
         inputs=lambda ps: dict(ek=Bytes(EK[ps]), m=Bytes(32), r=Bytes(32)))
def h_pkeenc(ek, m, r, ps):
    c = obj(ps).k_pke_encrypt(ek, m, r)
    ensure_eq(c, spec_encrypt(obj(ps), ek, m, r, ps), "ciphertext as specified")
    ensure(len(c) == CT[ps], "ciphertext length")


@harness("K02", "k_pke_decrypt", [F + "k_pke_decrypt"], cases=SETS, stubs=part_stubs, absb=True, n=2,
         inputs=lambda ps: dict(dk=Bytes(384 * PAR[ps][0]), c=Bytes(CT[ps])))
def h_pkedec(dk, c, ps):
    o = obj(ps)
    k, _, _, du, dv = PAR[ps]
    got = obj(ps).k_pke_decrypt(dk, c)
    u = [o.ntt(o.decompress(du, o.byte_decode(du, c[32 * du * i:32 * du * (i + 1)]))) for i in range(k)]
    v = o.decompress(dv, o.byte_decode(dv, c[32 * du * k:]))
    s = [o.byte_decode(12, dk[384 * i:384 * i + 384]) for i in range(k)]
    w = o.poly_sub(v, o.ntt_inverse(dot(o, s, u)))
    ensure_eq(got, o.byte_encode(1, o.compress(1, w)), "message as specified")


# ---------------------------------------------------------------- ML-KEM over the contract of K-PKE
def pke_stubs(ps):
    k = PAR[ps][0]
    d = dict(part_stubs(ps))
    d[M.ML_KEM.k_pke_keygen] = lambda self, dd: (V.ctx().uf("ek", ("bytes", EK[ps]), [self.k, dd]), V.ctx().uf("dkp", ("bytes", 384 * k), [self.k, dd]))
    d[M.ML_KEM.k_pke_encrypt] = lambda self, ek, m, r: V.ctx().uf("encr", ("bytes", CT[ps]), [self.k, ek, m, r])
    d[M.ML_KEM.k_pke_decrypt] = lambda self, dk, c: V.ctx().uf("decr", ("bytes", 32), [self.k, dk, c])
    return d


def decaps_spec(o, dk, c, ps):
    k = PAR[ps][0]
    dkp, ek, h, z = dk[:384 * k], dk[384 * k:768 * k + 32], dk[768 * k + 32:768 * k + 64], dk[768 * k + 64:768 * k + 96]
    m = o.k_pke_decrypt(dkp, c)
    kk, r = o.g(m + h)
    if truth(eq(c, o.k_pke_encrypt(ek, m, r))):
        cover("accept")
        return kk
    cover("reject")
    return o.j(z + c)


@functools.lru_cache(None)
def keypair(ps, n):
    return obj(ps).keygen_internal(hashlib.sha256(f"{ps}{n}".encode()).digest(), hashlib.sha256(f"z{n}".encode()).digest())


@harness("K02", "keygen", [F + "keygen_internal"], cases=SETS, stubs=pke_stubs, absb=True, inputs=dict(d=Bytes(32), z=Bytes(32)), n=2)
def h_kg(d, z, ps):
    o = obj(ps)
    ek, dk = obj(ps).keygen_internal(d, z)
    ep, dp = o.k_pke_keygen(d)
    ensure_eq(ek, ep, "encapsulation key is the encryption key")
    ensure_eq(dk, dp + ep + o.h(ep) + z, "decapsulation key is dk || ek || H(ek) || z")
    ensure(len(dk) == DK[ps], "decapsulation key length")
    ensure_eq(obj(ps).get_public_key(dk), ek, "public key is read back from the private key")


@harness("K02", "encaps", [F + "encaps_internal"], cases=SETS, stubs=pke_stubs, absb=True, n=3,
         gen=lambda rnd, i, ps: dict(ek=keypair(ps, i % 2)[0], m=rnd.randbytes(32)), inputs=lambda ps: dict(ek=Bytes(EK[ps]), m=Bytes(32)))
def h_enc(ek, m, ps):
    o = obj(ps)
    kk, r = o.g(m + o.h(ek))
    ensure_eq(obj(ps).encaps_internal(ek, m), (kk, o.k_pke_encrypt(ek, m, r)), "(K, r) = G(m || H(ek)), ciphertext is Encrypt(ek, m, r)")


def gen_decaps(rnd, i, ps):
    ek, dk = keypair(ps, rnd.randrange(2))
    c = bytearray(obj(ps).encaps_internal(ek, rnd.randbytes(32))[1])
    if i % 3 == 1:
        c[rnd.choice([0, len(c) - 1, rnd.randrange(len(c))])] ^= 1 << rnd.randrange(8)
    elif i % 3 == 2:
        c = rnd.randbytes(len(c))
    return dict(dk=dk, c=bytes(c))


@harness("K02", "decaps", [F + "decaps_internal"], cases=SETS, stubs=pke_stubs, absb=True, n=9, gen=gen_decaps, covers=["accept", "reject"],
         inputs=lambda ps: dict(dk=Bytes(DK[ps]), c=Bytes(CT[ps])))
def h_dec(dk, c, ps):
    ensure_eq(obj(ps).decaps_internal(dk, c), decaps_spec(obj(ps), dk, c, ps), "G(m' || h) when re-encryption gives c, otherwise J(z || c)")


@harness("K02", "agreement", [F + "keygen_internal", F + "encaps_internal", F + "decaps_internal"], cases=SETS, stubs=pke_stubs, absb=True, n=4,
         inputs=dict(d=Bytes(32), z=Bytes(32), m=Bytes(32)))
def h_agree(d, z, m, ps):
    """FIPS 203 bounds the probability that decryption does not recover the message by 2^-138"""
    o = obj(ps)
    ek, dk = o.keygen_internal(d, z)
    kk, c = o.encaps_internal(ek, m)
    assume(eq(o.k_pke_decrypt(dk[:384 * PAR[ps][0]], c), m))
    ensure_eq(o.decaps_internal(dk, c), kk, "decapsulation gives the encapsulated key")


# ---------------------------------------------------------------- key objects
def key_stubs(ps):
    d = {}
    d[M.ML_KEM.keygen_internal] = lambda self, d, z, param=None: (V.ctx().uf("KEK", ("bytes", EK[ps]), [self.name, d, z]), V.ctx().uf("KDK", ("bytes", DK[ps]), [self.name, d, z]))
    d[M.ML_KEM.encaps_internal] = lambda self, ek, m, param=None: (V.ctx().uf("EK", ("bytes", 32), [self.name, ek, m]), V.ctx().uf("EC", ("bytes", CT[ps]), [self.name, ek, m]))
    d[M.ML_KEM.decaps_internal] = lambda self, dk, c, param=None: V.ctx().uf("DE", ("bytes", 32), [self.name, dk, c])
    return d


def gen_keys(rnd, i, ps):
    return dict(seed=rnd.randbytes(64))


@harness("K02", "key_from_seed", [KS + "from_seed", KS + "_from_seed", KS + "_initialize_key", KS + "from_private_bytes", KS + "public_key", KS + "private_numbers"], cases=SETS, stubs=key_stubs, absb=True, n=2,
         inputs=dict(seed=Bytes(64), dk=Bytes(64)))
def h_seed(seed, dk, ps):
    ek, sk = obj(ps).keygen_internal(seed[:32], seed[32:])
    for k in (K.MLKEMPrivateKey.from_seed(ps, seed), K.MLKEMPrivateKey.from_private_bytes(seed, ps), K.MLKEMPrivateKey(ps, seed=seed)):
        ensure_eq(k.private_bytes_raw(), sk, "private key from d || z")
        ensure_eq(k.public_key().public_bytes_raw(), ek, "public key from d || z")
        ensure_eq(k.private_numbers(), seed, "the seed is kept")
        ensure_eq(k.name, ps, "parameter set")


@harness("K02", "key_generate", [KS + "generate", KS + "_initialize_key"], cases=SETS, stubs=key_stubs, absb=True, n=2)
def h_gen(ps):
    k = K.MLKEMPrivateKey.generate(ps)
    seed = ghost("urandom")[-1]
    ek, sk = obj(ps).keygen_internal(seed[:32], seed[32:])
    ensure_eq(k.private_bytes_raw(), sk, "private key from fresh randomness")
    ensure_eq(k.public_key().public_bytes_raw(), ek, "matching public key")


@harness("K02", "key_load", [KS + "from_private_bytes", KS + "public_key", KP + "from_public_bytes"], cases=SETS, stubs=key_stubs, absb=True, n=3,
         inputs=lambda ps: dict(seed=Bytes(64), dk=Bytes(DK[ps]), ek=Bytes(EK[ps]), other=Bytes(seq=True)))
def h_load(seed, dk, ek, other, ps):
    k = PAR[ps][0]
    key = K.MLKEMPrivateKey.from_private_bytes(dk, ps)
    ensure_eq(key.private_bytes_raw(), dk, "expanded private key is taken as is")
    ensure_eq(key.public_key().public_bytes_raw(), dk[384 * k:768 * k + 32], "public key is the one inside the private key")
    r = outcome(K.MLKEMPrivateKey.from_private_bytes, seed + dk, ps)
    ok = eq(obj(ps).keygen_internal(seed[:32], seed[32:])[1], dk)
    if truth(ok):
        ensure(r.ok, "seed with its expanded key is accepted")
        ensure_eq(r.value.private_bytes_raw(), dk, "seed with its expanded key gives that key")
    else:
        ensure(is_exc(r, InvalidKeyData), "seed with another expanded key is refused")
    ensure_eq(K.MLKEMPublicKey.from_public_bytes(ek, ps).public_bytes_raw(), ek, "public key is taken as is")
    n = len(other)
    if truth(n != EK[ps]):
        ensure(is_exc(outcome(K.MLKEMPublicKey.from_public_bytes, other, ps), InvalidKeyData), "public key of the wrong length is refused")
    if truth(n != DK[ps]) and truth(n != 64) and truth(n != DK[ps] + 64):
        ensure(is_exc(outcome(K.MLKEMPrivateKey.from_private_bytes, other, ps), InvalidKeyData), "private key of the wrong length is refused")


@harness("K02", "key_encaps", [KP + "encaps"], cases=SETS, stubs=key_stubs, absb=True, n=3, gen=lambda rnd, i, ps: dict(ek=keypair(ps, i % 2)[0]),
         inputs=lambda ps: dict(ek=Bytes(EK[ps])))
def h_kenc(ek, ps):
    ss, ct = K.MLKEMPublicKey.from_public_bytes(ek, ps).encaps()
    m = ghost("urandom")[-1]
    ensure(len(m) == 32, "32 random bytes")
    ensure_eq((ss, ct), obj(ps).encaps_internal(ek, m), "(secret, ciphertext) of encapsulation with fresh randomness under this key")


@harness("K02", "key_decaps", [KS + "decaps"], cases=SETS, stubs=key_stubs, absb=True, n=6, gen=gen_decaps, inputs=lambda ps: dict(dk=Bytes(DK[ps]), c=Bytes(CT[ps])))
def h_kdec(dk, c, ps):
    ensure_eq(K.MLKEMPrivateKey.from_private_bytes(dk, ps).decaps(c), obj(ps).decaps_internal(dk, c), "decapsulation with this key")


@harness("K02", "roundtrip", [KP + "encaps", KS + "decaps", KP + "ct_length", KP + "key_size", KS + "key_size"], cases=SETS, level="bounded", n=4,
         bound="random keys; valid, changed, shortened and extended ciphertexts",
         gen=lambda rnd, i, ps: dict(seed=rnd.randbytes(64), pos=rnd.randrange(CT[ps]), bit=rnd.randrange(8), cut=rnd.randrange(CT[ps])))
def h_round(seed, pos, bit, cut, ps):
    k = K.MLKEMPrivateKey.from_seed(ps, seed)
    p = k.public_key()
    ss, ct = p.encaps()
    ensure_eq((len(ss), len(ct), len(p.public_bytes_raw()), len(k.private_bytes_raw())), (32, CT[ps], EK[ps], DK[ps]), "lengths")
    ensure_eq((p.ct_length, k.ct_length, p.key_size, k.key_size), (CT[ps], CT[ps], EK[ps], DK[ps]), "advertised lengths")
    ensure_eq(k.decaps(ct), ss, "decapsulation gives the encapsulated key")
    bad = bytearray(ct)
    bad[pos] ^= 1 << bit
    ensure_eq(k.decaps(bytes(bad)), C.shake("shake256", seed[32:] + bytes(bad), 32), "a changed ciphertext gives J(z || c)")
    for c2 in (ct + b"\0", ct[:cut], ct[:-1]):
        r = outcome(k.decaps, c2)
        ensure(is_exc(r, ValueError) or (r.ok and r.value != ss), "a ciphertext of the wrong length never gives the key")
    ss2, ct2 = p.encaps()
    ensure(ct2 != ct and ss2 != ss, "every encapsulation is fresh")
