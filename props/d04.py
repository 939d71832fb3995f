"""D04: ML-DSA polynomial arithmetic: the transform is the negacyclic NTT of FIPS 204, its inverse undoes it."""
from pyvc.domains import Int, List, Ring
from pyvc.harness import harness
from pyvc.intrinsics import ensure, ensure_eq
from spec import mldsa as S
from pq_logic.fips import fips204 as M

F = "pq_logic.fips.fips204.ML_DSA."
R = Ring(S.Q, -2 ** 40, 2 ** 40)  # any integers, not only reduced ones
W = List(R, 256)


def brv8(i):
    r = 0
    for _ in range(8):
        r = 2 * r + i % 2
        i = i // 2
    return r


def roots():
    """the points at which output index i evaluates the polynomial: zeta^(2*BitRev8(i)+1)"""
    return [pow(1753, 2 * brv8(i) + 1, S.Q) for i in range(256)]


@harness("D04", "zetas", ["pq_logic.fips.fips204.ML_DSA_ZETAS"], n=1)
def h_zetas():
    for k in range(1, 256):
        ensure_eq(M.ML_DSA_ZETAS[k], pow(1753, brv8(k), S.Q), "zetas table entry")


@harness("D04", "points", ["(lemma)"], n=1)
def h_points():
    """lemma: the 256 points are distinct roots of X^256+1, so evaluation at them is a ring isomorphism
    Z_q[X]/(X^256+1) -> Z_q^256 (Chinese remainder theorem) and pointwise multiplication is the product"""
    rs = roots()
    ensure(len(set(rs)) == 256, "points are pairwise distinct")
    for r in rs:
        ensure(pow(r, 256, S.Q) == S.Q - 1, "point is a root of X^256+1")


@harness("D04", "ntt", [F + "ntt"], inputs=dict(w=W), n=6)
def h_ntt(w):
    o = M.ML_DSA("ml-dsa-65")
    keep = list(w)
    got = o.ntt(w)
    ensure_eq(w, keep, "argument unchanged")
    i = 0
    for r in roots():
        t = 0
        x = 1
        for c in keep:
            t = t + c * x
            x = x * r % S.Q
        ensure_eq(got[i], t % S.Q, "coefficient i is the value at zeta^(2*BitRev8(i)+1)")
        i = i + 1


@harness("D04", "intt", [F + "ntt_inverse", F + "ntt"], inputs=dict(w=W), n=10)
def h_intt(w):
    o = M.ML_DSA("ml-dsa-65")
    keep = list(w)
    ensure_eq(o.ntt_inverse(o.ntt(w)), [c % S.Q for c in keep], "inverse transform undoes the transform")
    v = list(keep)
    u = o.ntt_inverse(w)
    ensure_eq(w, keep, "argument unchanged")
    ensure_eq(o.ntt(u), [c % S.Q for c in v], "transform undoes the inverse transform")


@harness("D04", "mul_ntt", [F + "mul_ntt"], inputs=dict(a=W, b=W), n=20)
def h_mul(a, b):
    o = M.ML_DSA("ml-dsa-65")
    ensure_eq(o.mul_ntt(a, b), [a[i] * b[i] % S.Q for i in range(256)], "pointwise product")


@harness("D04", "matrix_vector", [F + "matrix_vector_ntt", F + "add", F + "mul_ntt"],
         cases=[dict(ps=p) for p in ("ml-dsa-44", "ml-dsa-65", "ml-dsa-87")],
         inputs=lambda ps: dict(m=List(List(W, M.ML_DSA(ps).ell), M.ML_DSA(ps).k), v=List(W, M.ML_DSA(ps).ell)), n=4)
def h_matvec(m, v, ps):
    o = M.ML_DSA(ps)
    got = o.matrix_vector_ntt(m, v)
    ensure(len(got) == o.k, "k rows")
    for i in range(o.k):
        want = []
        for c in range(256):
            t = 0
            for j in range(o.ell):
                t = t + m[i][j][c] * v[j][c]
            want.append(t % S.Q)
        ensure_eq(got[i], want, "row i is the sum of products")


@harness("D04", "product", [F + "ntt", F + "ntt_inverse", F + "mul_ntt"], level="bounded", bound="random and boundary polynomials",
         gen=lambda rnd, i: dict(a=[rnd.choice([0, 1, S.Q - 1, rnd.randrange(S.Q)]) for _ in range(256)],
                                 b=[rnd.choice([0, 1, S.Q - 1, rnd.randrange(S.Q)]) for _ in range(256)]), n=15)
def h_product(a, b):
    o = M.ML_DSA("ml-dsa-44")
    c = [0] * 512
    for i in range(256):
        for j in range(256):
            c[i + j] += a[i] * b[j]
    ensure_eq(o.ntt_inverse(o.mul_ntt(o.ntt(a), o.ntt(b))), [(c[i] - c[i + 256]) % S.Q for i in range(256)], "negacyclic product")


@harness("D04", "bitrev8", [F + "bitrev8", F + "integer_to_bits", F + "bits_to_integer"], inputs=dict(m=Int(0, 255)), n=256)
def h_bitrev(m):
    want = 0
    t = m
    for _ in range(8):
        want = 2 * want + t % 2
        t = t // 2
    ensure_eq(M.ML_DSA("ml-dsa-44").bitrev8(m), want, "bit reversal")
