"""K01: ML-KEM arithmetic: compression, encodings, samplers and the NTT are exactly those of FIPS 203."""
from pyvc import values as V
from pyvc.domains import Bytes, ExplicitBytes, Int, List, Ring
from pyvc.harness import Loop, harness
from pyvc.intrinsics import all_of, any_of, ensure, ensure_eq, eq, ghost, is_exc, outcome, truth
from props import common as C
from spec import bits as B
from pq_logic.fips import fips203 as M

F = "pq_logic.fips.fips203.ML_KEM."
Q = 3329
DS = [dict(d=d) for d in (1, 4, 5, 10, 11)]
R = Ring(Q, -2 ** 40, 2 ** 40)
W = List(R, 256)


def obj(ps="ml-kem-768"):
    return M.ML_KEM(ps)


# ---------------------------------------------------------------- compression
def compress(x, d):
    """round(2^d/q * x) mod 2^d, ties up (there are none: q is odd)"""
    return ((2 ** (d + 1) * x + Q) // (2 * Q)) % 2 ** d


def decompress(y, d):
    """round(q/2^d * y), ties up"""
    return (2 * Q * y + 2 ** d) // 2 ** (d + 1)


@harness("K01", "compress", [F + "compress"], cases=DS, inputs=dict(x=Int(0, Q - 1)), n=400)
def h_compress(x, d):
    ensure_eq(obj().compress(d, [x]), [compress(x, d)], "Compress_d as specified")


@harness("K01", "decompress", [F + "decompress", F + "compress"], cases=DS, inputs=lambda d: dict(y=Int(0, 2 ** d - 1)), n=400)
def h_decompress(y, d):
    x = obj().decompress(d, [y])
    ensure_eq(x, [decompress(y, d)], "Decompress_d as specified")
    ensure_eq(obj().compress(d, x), [y], "Compress_d inverts Decompress_d")


@harness("K01", "compress_all", [F + "compress", F + "decompress"], cases=DS, n=1)
def h_comp_all(d):
    """every value of every position of a full vector"""
    o = obj()
    for s in range(0, Q, 256):
        v = [(s + i) % Q for i in range(256)]
        ensure_eq(o.compress(d, v), [compress(x, d) for x in v], "Compress_d of a vector is coefficientwise")
    for s in range(0, 2 ** d, 256):
        v = [(s + i) % 2 ** d for i in range(256)]
        ensure_eq(o.decompress(d, v), [decompress(x, d) for x in v], "Decompress_d of a vector is coefficientwise")
    for x in range(Q):
        e = (o.decompress(d, o.compress(d, [x]))[0] - x) % Q
        ensure(min(e, Q - e) * 2 ** (d + 1) <= Q + 2 ** d, "compression loses at most round(q/2^(d+1))")


# ---------------------------------------------------------------- byte encodings
ED = [dict(d=d) for d in (1, 4, 5, 10, 11, 12)]


@harness("K01", "byte_encode", [F + "byte_encode", F + "byte_decode", F + "bits_to_bytes", F + "bytes_to_bits"], cases=ED,
         inputs=lambda d: dict(f=List(Int(0, Q - 1 if d == 12 else 2 ** d - 1), 256)), n=10)
def h_enc(f, d):
    o = obj()
    keep = list(f)
    b = o.byte_encode(d, f)
    ensure(len(b) == 32 * d, "length is 32 d")
    ensure_eq(bytes(b), B.pack(keep, d), "ByteEncode_d as specified")
    ensure_eq(o.byte_decode(d, b), keep, "ByteDecode_d inverts ByteEncode_d")


@harness("K01", "byte_decode", [F + "byte_decode", F + "bytes_to_bits"], cases=ED, inputs=lambda d: dict(b=ExplicitBytes(32 * d)), n=10)
def h_dec(b, d):
    o = obj()
    m = Q if d == 12 else 2 ** d
    ensure_eq(o.byte_decode(d, b), [x % m for x in B.unpack(b, d, 256)], "ByteDecode_d as specified, for every byte string")


@harness("K01", "byte_encode_rows", [F + "byte_encode"], cases=[dict(k=2), dict(k=3), dict(k=4)],
         inputs=lambda k: dict(f=List(List(Int(0, Q - 1), 256), k)), n=4)
def h_rows(f, k):
    want = b""
    for r in f:
        want = want + B.pack(r, 12)
    ensure_eq(bytes(obj().byte_encode(12, f)), want, "a vector is encoded row after row")


# ---------------------------------------------------------------- samplers
@harness("K01", "sample_poly_cbd", [F + "sample_poly_cbd", F + "bytes_to_bits"], cases=[dict(eta=2), dict(eta=3)],
         inputs=lambda eta: dict(b=ExplicitBytes(64 * eta)), n=10)
def h_cbd(b, eta):
    got = obj().sample_poly_cbd(eta, b)
    bs = B.bytes_bits(b)
    ensure(len(got) == 256, "256 coefficients")
    for i in range(256):
        t = 0
        for j in range(eta):
            t = t + bs[2 * i * eta + j] - bs[2 * i * eta + eta + j]
        ensure_eq(got[i], t % Q, "SamplePolyCBD as specified")


class SampleLoop(Loop):
    """head of the rejection loop: j coefficients found, all from earlier stream bytes"""

    def __init__(self, part):
        self.part = part

    def inv(self, interp, env, entry):
        j, a, g = env["j"], env["a"], env["xof"]
        if entry:
            V.ctx().ghost["absorbed"] = g._absorbed
            return all_of(eq(j, 0), eq(g._pos, 0), eq(len(a), 0))
        return all_of(j >= 0, j <= 255, eq(len(a), j))

    def havoc(self, interp, env):
        c = V.ctx()
        jj = c.fresh_int("j", 0, 255)
        c.assume(all_of(jj >= 64 * self.part, jj < 64 * self.part + 64))
        j = c.concretize(jj)
        g, a = env["xof"], env["a"]
        del a[:]
        for _ in range(j):
            a.append(c.fresh_int("a", 0, Q - 1))
        g._pos = c.fresh_int("pos", 0, 2 ** 20)
        c.ghost["before"] = (j, list(a), g._pos)
        return {"j": j, "a": a}

    def check(self, interp, env):
        c = V.ctx()
        j, a, p = c.ghost["before"]
        c.prove(eq(env["xof"]._pos, p + 3), "each round consumes the next three bytes of the stream")
        b = C.xof_bytes(env["xof"], p, 3)
        d1, d2 = b[0] + 256 * (b[1] % 16), b[1] // 16 + 16 * b[2]
        new = []
        if truth(d1 < Q):
            new.append(d1)
        if truth(d2 < Q) and j + len(new) < 256:
            new.append(d2)
        c.prove(eq(env["j"], j + len(new)), "number of coefficients found")
        c.prove(V.deep_eq(env["a"], a + new), "coefficients below q in stream order, earlier ones kept")

    def step(self, interp, before, after):
        self.check(interp, after)

    def exit(self, interp, env):
        self.check(interp, env)


def sample_spec(rho):
    st = C.shake("shake128", rho, 4000)
    a, i = [], 0
    while len(a) < 256:
        for d in (st[i] + 256 * (st[i + 1] % 16), st[i + 1] // 16 + 16 * st[i + 2]):
            if d < Q and len(a) < 256:
                a.append(d)
        i += 3
    return a


def conc_sample(rho, part):
    ensure_eq(obj().sample_ntt(rho), sample_spec(rho), "SampleNTT as specified")


@harness("K01", "sample_ntt", [F + "sample_ntt"], cases=[dict(part=p) for p in range(4)], inputs=lambda part: dict(rho=ExplicitBytes(34)),
         stubs=lambda part: C.xof_stubs(), loops=lambda part: {M.ML_KEM.sample_ntt: {0: SampleLoop(part)}}, conc=conc_sample, n=10)
def h_sample(rho, part):
    r = obj().sample_ntt(rho)
    ensure_eq(len(r), 256, "256 coefficients")
    ensure_eq(ghost("absorbed"), rho, "the stream is keyed by exactly the given seed")


# ---------------------------------------------------------------- NTT
def brv7(i):
    r = 0
    for _ in range(7):
        r = 2 * r + i % 2
        i = i // 2
    return r


def gammas():
    return [pow(17, 2 * brv7(i) + 1, Q) for i in range(128)]


@harness("K01", "zetas", ["pq_logic.fips.fips203.ML_KEM_ZETA_NTT", "pq_logic.fips.fips203.ML_KEM_ZETA_MUL"], n=1)
def h_zetas():
    g = gammas()
    for i in range(128):
        ensure_eq(M.ML_KEM_ZETA_NTT[i], pow(17, brv7(i), Q), "zeta table entry")
        ensure_eq(M.ML_KEM_ZETA_MUL[i] % Q, g[i], "gamma table entry")


@harness("K01", "moduli", ["(lemma)"], n=1)
def h_moduli():
    """lemma: X^256+1 is the product of the 128 polynomials X^2-gamma_i, pairwise coprime, so reduction modulo each of
    them is a ring isomorphism (Chinese remainder theorem) and products of transforms are transforms of products"""
    g = gammas()
    ensure(len(set(g)) == 128, "moduli pairwise distinct")
    for x in g:
        ensure(pow(x, 128, Q) == Q - 1, "X^2 - gamma divides X^256 + 1")


@harness("K01", "ntt", [F + "ntt"], inputs=dict(f=W), n=6)
def h_ntt(f):
    keep = list(f)
    got = obj().ntt(f)
    ensure_eq(f, keep, "argument unchanged")
    ensure(len(got) == 256, "256 coefficients")
    i = 0
    for r in gammas():
        t = 0
        u = 0
        x = 1
        for j in range(128):
            t = t + keep[2 * j] * x
            u = u + keep[2 * j + 1] * x
            x = x * r % Q
        ensure_eq(got[2 * i], t % Q, "pair i is the remainder modulo X^2 - gamma_i")
        ensure_eq(got[2 * i + 1], u % Q, "pair i is the remainder modulo X^2 - gamma_i")
        i = i + 1


@harness("K01", "intt", [F + "ntt_inverse", F + "ntt"], inputs=dict(f=W), n=10)
def h_intt(f):
    o = obj()
    keep = list(f)
    ensure_eq(o.ntt_inverse(o.ntt(f)), [c % Q for c in keep], "inverse transform undoes the transform")
    u = o.ntt_inverse(f)
    ensure_eq(f, keep, "argument unchanged")
    ensure_eq(o.ntt(u), [c % Q for c in keep], "transform undoes the inverse transform")


@harness("K01", "multiply_ntts", [F + "multiply_ntts", F + "best_case_multiply"], inputs=dict(f=W, g=W), n=20)
def h_mul(f, g):
    got = obj().multiply_ntts(f, g)
    ensure(len(got) == 256, "256 coefficients")
    i = 0
    for r in gammas():
        a0, a1, b0, b1 = f[2 * i], f[2 * i + 1], g[2 * i], g[2 * i + 1]
        ensure_eq(got[2 * i], (a0 * b0 + a1 * b1 * r) % Q, "product modulo X^2 - gamma_i")
        ensure_eq(got[2 * i + 1], (a0 * b1 + a1 * b0) % Q, "product modulo X^2 - gamma_i")
        i = i + 1


@harness("K01", "add_sub", [F + "poly_add", F + "poly_sub"], inputs=dict(f=W, g=W), n=20)
def h_addsub(f, g):
    ensure_eq(obj().poly_add(f, g), [(f[i] + g[i]) % Q for i in range(256)], "sum")
    ensure_eq(obj().poly_sub(f, g), [(f[i] - g[i]) % Q for i in range(256)], "difference")


@harness("K01", "product", [F + "ntt", F + "ntt_inverse", F + "multiply_ntts"], level="bounded", bound="random and boundary polynomials",
         gen=lambda rnd, i: dict(a=[rnd.choice([0, 1, Q - 1, rnd.randrange(Q)]) for _ in range(256)],
                                 b=[rnd.choice([0, 1, Q - 1, rnd.randrange(Q)]) for _ in range(256)]), n=15)
def h_product(a, b):
    o = obj()
    c = [0] * 512
    for i in range(256):
        for j in range(256):
            c[i + j] += a[i] * b[j]
    ensure_eq(o.ntt_inverse(o.multiply_ntts(o.ntt(a), o.ntt(b))), [(c[i] - c[i + 256]) % Q for i in range(256)], "negacyclic product")


# ---------------------------------------------------------------- hash functions
@harness("K01", "hashes", [F + "h", F + "g", F + "j", F + "prf"], level="bounded", bound="random strings", n=60,
         gen=lambda rnd, i: dict(x=rnd.randbytes(rnd.randrange(1200)), s=rnd.randbytes(32), b=rnd.randrange(256), eta=rnd.choice([2, 3])))
def h_hashes(x, s, b, eta):
    import hashlib
    o = obj()
    ensure_eq(o.h(x), hashlib.sha3_256(x).digest(), "H is SHA3-256")
    d = hashlib.sha3_512(x).digest()
    ensure_eq(o.g(x), (d[:32], d[32:]), "G is SHA3-512, split in halves")
    ensure_eq(o.j(x), C.shake("shake256", x, 32), "J is SHAKE256")
    ensure_eq(o.prf(eta, s, b), C.shake("shake256", s + bytes([b]), 64 * eta), "PRF is SHAKE256(s || b)")
