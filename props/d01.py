"""D01: ML-DSA rounding, decomposition and hints obey FIPS 204 for every coefficient."""
from pyvc.domains import Bool, Int, List, Ring
from pyvc.harness import harness
from pyvc.intrinsics import all_of, any_of, assume, cover, ensure, ensure_eq, eq, iff, implies, not_, truth
from spec import mldsa as S
from pq_logic.fips import fips204 as M

SETS = [dict(ps=p) for p in ("ml-dsa-44", "ml-dsa-65", "ml-dsa-87")]
F = "pq_logic.fips.fips204.ML_DSA."
Z = Int(None, None, math=True)


def obj(ps):
    return M.ML_DSA(ps)


@harness("D01", "modpm", [F + "modpm"], inputs=dict(m=Z), cases=[dict(alpha=a) for a in (2, 8192, 190464, 523776, S.Q, 3, 7)])
def h_modpm(m, alpha):
    r = obj("ml-dsa-44").modpm(m, alpha)
    ensure((r - m) % alpha == 0, "congruent modulo alpha")
    ensure(all_of(2 * r > -alpha - alpha % 2, 2 * r <= alpha), "in the centred range")
    ensure_eq(r, S.modpm(m, alpha), "equals mod+-")


@harness("D01", "decompose", [F + "decompose", F + "modpm"], inputs=dict(r=Z), cases=SETS)
def h_decompose(r, ps):
    o = obj(ps)
    g2 = S.params(ps)[3]
    r1, r0 = o.decompose(r)
    ensure_eq((r1, r0), S.decompose(r, g2), "Decompose as specified")
    ensure((r1 * 2 * g2 + r0 - r) % S.Q == 0, "r = r1*2*gamma2 + r0 (mod q)")
    ensure(all_of(r1 >= 0, r1 < (S.Q - 1) // (2 * g2)), "r1 in range")
    ensure(all_of(r0 >= -g2, r0 <= g2), "r0 in range")
    cover("end")


@harness("D01", "power2round", [F + "power2round", F + "modpm"], inputs=dict(a=Z, b=Z, c=Z))
def h_p2r(a, b, c):
    o = obj("ml-dsa-44")
    t1, t0 = o.power2round([[a, b], [c]])
    ensure_eq(t1, [[S.power2round(a)[0], S.power2round(b)[0]], [S.power2round(c)[0]]], "t1 as specified, position by position")
    ensure_eq(t0, [[S.power2round(a)[1], S.power2round(b)[1]], [S.power2round(c)[1]]], "t0 as specified, position by position")
    ensure((t1[0][0] * 2 ** S.D + t0[0][0] - a) % S.Q == 0, "r = r1*2^d + r0 (mod q)")
    ensure(all_of(t1[0][0] >= 0, t1[0][0] < 1024, t0[0][0] > -4096, t0[0][0] <= 4096), "ranges")


def dec_stub(ps):
    from pyvc import values as V

    def decompose(self, r):
        c = V.ctx()
        return (c.uf("dec1", "int", [r]), c.uf("dec0", "int", [r]))
    return {M.ML_DSA.decompose: decompose}


CO = Int(0, S.Q - 1, math=True)


@harness("D01", "use_hint", [F + "use_hint"], inputs=lambda ps: dict(r=List(List(CO, 256), 2), h=List(List(Int(0, 1), 256), 2)),
         cases=SETS, stubs=dec_stub)
def h_use_hint(r, h, ps):
    o = obj(ps)
    g2 = S.params(ps)[3]
    m = (S.Q - 1) // (2 * g2)
    got = o.use_hint(h, r)
    want = []
    for i in range(2):
        row = []
        for j in range(256):
            r1, r0 = o.decompose(r[i][j])
            v = r1
            if h[i][j] == 1 and r0 > 0:
                v = (r1 + 1) % m
            if h[i][j] == 1 and r0 <= 0:
                v = (r1 - 1) % m
            row.append(v)
        want.append(row)
    ensure_eq(got, want, "UseHint as specified on every coefficient")


@harness("D01", "use_hint_lemma", [F + "use_hint", F + "decompose", F + "modpm"], inputs=dict(r=CO, z=Int(None, None, math=True)), cases=SETS)
def h_hint_lemma(r, z, ps):
    """UseHint(MakeHint(z, r), r) = HighBits(r + z) for |z| <= gamma2 (FIPS 204, lemma 1 of the design)"""
    o = obj(ps)
    g2 = S.params(ps)[3]
    assume(all_of(z >= -g2, z <= g2))
    h1, _ = o.decompose(r)
    v1, _ = o.decompose(r + z)
    hint = 0 if truth(h1 == v1) else 1
    m = (S.Q - 1) // (2 * g2)
    r1, r0 = o.decompose(r)
    u = r1
    if hint == 1 and r0 > 0:
        u = (r1 + 1) % m
    if hint == 1 and r0 <= 0:
        u = (r1 - 1) % m
    ensure_eq(u, v1, "hint recovers the high bits of r + z")


@harness("D01", "low_norm_lemma", [F + "decompose", F + "modpm"], inputs=dict(r=CO, s=Z), cases=SETS)
def h_low_lemma(r, s, ps):
    """adding a small s does not change the high bits of a coefficient with small low bits"""
    o = obj(ps)
    p = S.params(ps)
    beta = p[0] * p[6]
    assume(all_of(s >= -beta, s <= beta))
    r1, r0 = o.decompose(r)
    assume(all_of(r0 > -(p[3] - beta), r0 < p[3] - beta))
    ensure_eq(o.decompose(r + s)[0], r1, "HighBits(r + s) = HighBits(r)")


ROWS = List(List(CO, 256), 2)


@harness("D01", "bits_maps", [F + "high_bits", F + "low_bits"], inputs=dict(r=ROWS), cases=SETS, stubs=dec_stub)
def h_bits(r, ps):
    o = obj(ps)
    ensure_eq(o.high_bits(r), [[o.decompose(x)[0] for x in p] for p in r], "HighBits of every coefficient")
    ensure_eq(o.low_bits(r), [[o.decompose(x)[1] for x in p] for p in r], "LowBits of every coefficient")


def add_mod(a, b):
    return (a + b) % S.Q


@harness("D01", "make_hint", [F + "make_hint", F + "neq", F + "weight"], inputs=dict(z=ROWS, r=ROWS), cases=SETS, stubs=dec_stub, n=30)
def h_make_hint(z, r, ps):
    o = obj(ps)
    h = o.make_hint(z, r)
    want = []
    cnt = 0
    for i in range(2):
        row = []
        for j in range(256):
            row.append(1 if o.decompose(r[i][j])[0] != o.decompose(add_mod(r[i][j], z[i][j]))[0] else 0)
        want.append(row)
    ensure_eq(h, want, "hint bit set exactly where the high bits change")


@harness("D01", "weight", [F + "weight"], inputs=dict(h=List(List(CO, 256), 3)), n=30, intmode=True)
def h_weight(h):
    t = 0
    for row in h:
        for x in row:
            t = t + (0 if x == 0 else 1)
    ensure_eq(obj("ml-dsa-65").weight(h), t, "weight counts the non-zero entries")


@harness("D01", "ring_ops", [F + "add", F + "sub", F + "neg", F + "neq"], inputs=dict(a=List(List(Z, 3), 2), b=List(List(Z, 3), 2)), n=100)
def h_ops(a, b):
    o = obj("ml-dsa-65")
    ensure_eq(o.add(a, b), [[(x + y) % S.Q for x, y in zip(p, q)] for p, q in zip(a, b)], "add mod q")
    ensure_eq(o.sub(a, b), [[(x - y) % S.Q for x, y in zip(p, q)] for p, q in zip(a, b)], "sub mod q")
    ensure_eq(o.neg(a), [[(0 - x) % S.Q for x in p] for p in a], "neg mod q")
    ensure_eq(o.neq(a, b), [[0 if x == y else 1 for x, y in zip(p, q)] for p, q in zip(a, b)], "neq positionwise")


@harness("D01", "inf_norm", [F + "inf_norm", F + "modpm"], inputs=dict(a=List(List(Z, 3), 2)), n=200)
def h_norm(a):
    """inf_norm is the largest absolute centred residue over every polynomial and coefficient"""
    v = obj("ml-dsa-65").inf_norm(a)
    hit = []
    for p in a:
        for x in p:
            m = x % S.Q
            c = m if m <= S.Q // 2 else S.Q - m
            ensure(v >= c, "an upper bound of every coefficient")
            hit.append(eq(v, c))
    ensure(any_of(*hit), "attained by some coefficient")


@harness("D01", "norm_scalar", [F + "inf_norm"], inputs=dict(x=Z))
def h_norm1(x):
    v = obj("ml-dsa-65").inf_norm(x)
    m = x % S.Q
    ensure_eq(v, m if m <= S.Q // 2 else S.Q - m, "absolute centred residue")


@harness("D01", "parameters", ["pq_logic.fips.fips204.ML_DSA.__init__"], cases=SETS, n=1)
def h_params(ps):
    o = obj(ps)
    tau, lam, g1, g2, k, ell, eta, omega = S.params(ps)
    ensure_eq((o.q, o.n, o.d, o.tau, o.lam, o.gam1, o.gam2, o.k, o.ell, o.eta, o.beta, o.omega),
              (S.Q, 256, 13, tau, lam, g1, g2, k, ell, eta, tau * eta, omega), "FIPS 204 table 1")
