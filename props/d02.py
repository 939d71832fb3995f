"""D02: ML-DSA encodings: key, signature and hint encodings are exact inverses and match FIPS 204;
malformed hints are rejected."""
from pyvc import values as V
from pyvc.domains import Bytes, ExplicitBytes, Int, List, Make, Opaque
from pyvc.harness import Loop, harness
from pyvc.intrinsics import all_of, any_of, assume, cover, ensure, ensure_eq, eq, ghost, iff, implies, is_exc, not_, outcome, truth
from props import common as C
from pq_logic.fips import _fips_utils as U
from spec import bits as B
from spec import mldsa as S
from pq_logic.fips import fips204 as M

F = "pq_logic.fips.fips204.ML_DSA."
SETS = [dict(ps=p) for p in ("ml-dsa-44", "ml-dsa-65", "ml-dsa-87")]

# (bound b) used by the standard: t1 (10 bits), w1 for 88 and 32
SIMPLE = [dict(b=1023), dict(b=43), dict(b=15)]
# (a, b) used: eta=2, eta=4, t0, z for both gamma1
PACK = [dict(a=2, b=2), dict(a=4, b=4), dict(a=4095, b=4096), dict(a=2 ** 17 - 1, b=2 ** 17), dict(a=2 ** 19 - 1, b=2 ** 19)]


def obj(ps="ml-dsa-65"):
    return M.ML_DSA(ps)


@harness("D02", "simple_bit_pack", [F + "simple_bit_pack", F + "simple_bit_unpack", F + "integer_to_bits", F + "bits_to_bytes"],
         cases=SIMPLE, inputs=lambda b: dict(w=List(Int(0, b), 256)), n=20)
def h_sbp(w, b):
    o = obj()
    keep = list(w)
    p = o.simple_bit_pack(w, b)
    n = b.bit_length()
    ensure(len(p) == 32 * n, "length is 32*bitlen(b)")
    ensure_eq(bytes(p), B.pack(keep, n), "SimpleBitPack as specified")
    ensure_eq(o.simple_bit_unpack(p, b), keep, "SimpleBitUnpack inverts SimpleBitPack")


@harness("D02", "simple_bit_unpack", [F + "simple_bit_unpack", F + "bytes_to_bits", F + "bits_to_integer"],
         cases=SIMPLE, inputs=lambda b: dict(v=ExplicitBytes(32 * b.bit_length())), n=20)
def h_sbu(v, b):
    o = obj()
    n = b.bit_length()
    ensure_eq(o.simple_bit_unpack(v, b), B.unpack(v, n, 256), "SimpleBitUnpack as specified")


@harness("D02", "bit_pack", [F + "bit_pack", F + "bit_unpack", F + "integer_to_bits", F + "bits_to_bytes"],
         cases=PACK, inputs=lambda a, b: dict(u=List(Int(0, a + b), 256)), n=20)
def h_bp(u, a, b):
    """u = b - w ranges over everything w in [-a, b] gives"""
    o = obj()
    n = (a + b).bit_length()
    w = [b - x for x in u]
    p = o.bit_pack(w, a, b)
    ensure(len(p) == 32 * n, "length is 32*bitlen(a+b)")
    ensure_eq(bytes(p), B.pack(u, n), "BitPack as specified")
    ensure_eq(o.bit_unpack(p, a, b), [b - x for x in u], "BitUnpack inverts BitPack")


@harness("D02", "bit_unpack", [F + "bit_unpack", F + "bytes_to_bits", F + "bits_to_integer"],
         cases=PACK, inputs=lambda a, b: dict(v=ExplicitBytes(32 * (a + b).bit_length())), n=20)
def h_bu(v, a, b):
    o = obj()
    n = (a + b).bit_length()
    ensure_eq(o.bit_unpack(v, a, b), [b - x for x in B.unpack(v, n, 256)], "BitUnpack as specified")


@harness("D02", "coeff_from_three_bytes", [F + "coeff_from_three_bytes"], inputs=dict(b=ExplicitBytes(3)), n=300)
def h_c3(b):
    z = b[0] + 256 * b[1] + 65536 * (b[2] % 128)
    r = obj().coeff_from_three_bytes(b[0], b[1], b[2])
    if truth(z < S.Q):
        ensure_eq(r, z, "23-bit value below q is accepted")
    else:
        ensure(r is None, "value >= q is rejected")


@harness("D02", "coeff_from_half_byte", [F + "coeff_from_half_byte"], cases=SETS, inputs=dict(b=Int(0, 15)), n=64)
def h_ch(b, ps):
    o = obj(ps)
    eta = S.params(ps)[6]
    r = o.coeff_from_half_byte(b)
    if eta == 2:
        if truth(b < 15):
            ensure_eq(r, 2 - b % 5, "eta=2")
        else:
            ensure(r is None, "15 rejected")
    else:
        if truth(b < 9):
            ensure_eq(r, 4 - b, "eta=4")
        else:
            ensure(r is None, "9..15 rejected")


# ---------------------------------------------------------------- hints
def hint_ok(y, omega, k):
    """canonical hint encodings (FIPS 204 algorithm 21)"""
    cnt = [y[omega + i] for i in range(k)]
    conds = [cnt[i] <= omega for i in range(k)]
    conds += [cnt[i] <= cnt[i + 1] for i in range(k - 1)]
    for j in range(omega):
        # position j is padding, or strictly above its predecessor when both are in the same group
        conds.append(implies(cnt[k - 1] <= j, y[j] == 0))
        if j > 0:
            for i in range(k):
                lo = cnt[i - 1] if i else 0
                conds.append(implies(all_of(lo < j, j < cnt[i]), y[j - 1] < y[j]))
    return all_of(*conds)


@harness("D02", "hint_unpack_small", [F + "hint_bit_unpack"], level="bounded-proof",
         bound="every hint string for omega=4, k=2 and omega=3, k=3 (the routine takes both from the object)",
         cases=[dict(omega=4, k=2), dict(omega=3, k=3), dict(omega=2, k=1)],
         inputs=lambda omega, k: dict(y=Make(lambda p, c: p + c, p=ExplicitBytes(omega), c=ExplicitBytes(k))),
         gen=lambda rnd, i, omega, k: dict(y=bytes([rnd.choice([0, 1, 2, 3, 255, rnd.randrange(256)]) for _ in range(omega)] +
                                                   sorted(rnd.randrange(omega + 2) for _ in range(k)))), n=2000)
def h_hint_small(y, omega, k):
    o = obj()
    o.omega = omega
    o.k = k
    h = o.hint_bit_unpack(y)
    if truth(hint_ok(y, omega, k)):
        ensure(h is not None, "canonical hint is accepted")
        ensure(len(h) == k, "k rows")
        for i in range(k):
            for v in (0, 1, 77, 255):
                want = any_of(*[all_of(y[j] == v, (y[omega + i - 1] if i else 0) <= j, j < y[omega + i]) for j in range(omega)])
                ensure_eq(h[i][v] == 1, want, "bit set exactly at the listed positions")
                ensure(any_of(h[i][v] == 0, h[i][v] == 1), "hint bits are 0 or 1")
    else:
        ensure(h is None, "anything else is refused")


def hint_spec(h, omega, k):
    y = []
    cnt = []
    for i in range(k):
        y += [j for j in range(256) if h[i][j]]
        cnt.append(len(y))
    return bytes(y + [0] * (omega - len(y)) + cnt)


def rand_hint(rnd, omega, k):
    w = rnd.choice([0, 1, omega, omega - 1, rnd.randint(0, omega)])
    h = [[0] * 256 for _ in range(k)]
    rows = rnd.choice([[rnd.randrange(k)], list(range(k))])
    n = 0
    while n < w:
        i, j = rnd.choice(rows), rnd.choice([rnd.randrange(256), rnd.choice([0, 1, 254, 255])])
        if not h[i][j]:
            h[i][j] = 1
            n += 1
    return h


def spoil(rnd, y, omega, k):
    """hint strings near the canonical ones"""
    y = bytearray(y)
    for _ in range(rnd.randint(1, 2)):
        m = rnd.randrange(8)
        if m == 0:
            y[rnd.randrange(len(y))] = rnd.randrange(256)
        elif m == 1:
            y[omega + rnd.randrange(k)] = rnd.choice([0, omega, omega + 1, 255, rnd.randrange(omega + 1)])
        elif m == 2 and omega > 1:
            a = rnd.randrange(omega - 1)
            y[a], y[a + 1] = y[a + 1], y[a]
        elif m == 3 and omega > 1:
            a = rnd.randrange(omega - 1)
            y[a + 1] = y[a]
        elif m == 4:
            y[omega - 1] = rnd.choice([0, 1, 255])
        elif m == 5:
            i = rnd.randrange(k)
            y[omega + i] = max(0, min(255, y[omega + i] + rnd.choice([-1, 1])))
        elif m == 6:
            i = y[omega + k - 1]
            if i < omega:
                y[i] = rnd.randrange(1, 256)
        else:
            i = rnd.randrange(k)
            y[omega + i] = y[omega + k - 1]
    return bytes(y)


@harness("D02", "hint_pack", [F + "hint_bit_pack", F + "hint_bit_unpack"], level="bounded",
         bound="random and boundary hints of weight 0..omega for the three parameter sets", cases=SETS,
         gen=lambda rnd, i, ps: dict(h=rand_hint(rnd, S.params(ps)[7], S.params(ps)[4])), n=300)
def h_hint_pack(h, ps):
    o = obj(ps)
    keep = [list(r) for r in h]
    y = o.hint_bit_pack(h)
    ensure_eq(bytes(y), hint_spec(keep, o.omega, o.k), "HintBitPack as specified")
    ensure_eq(o.hint_bit_unpack(bytes(y)), keep, "unpacking gives the hint back")


@harness("D02", "hint_refused", [F + "hint_bit_unpack"], level="bounded",
         bound="random strings near canonical hint encodings for the three parameter sets", cases=SETS,
         gen=lambda rnd, i, ps: dict(y=spoil(rnd, hint_spec(rand_hint(rnd, S.params(ps)[7], S.params(ps)[4]), S.params(ps)[7], S.params(ps)[4]),
                                             S.params(ps)[7], S.params(ps)[4])), n=1500)
def h_hint_refused(y, ps):
    o = obj(ps)
    h = o.hint_bit_unpack(y)
    if hint_ok(y, o.omega, o.k):
        ensure(h is not None, "canonical hint is accepted")
        ensure_eq(hint_spec(h, o.omega, o.k), y, "decoded hint re-encodes to the same string")
    else:
        ensure(h is None, "anything else is refused")


@harness("D02", "hint_pack_rows", [F + "hint_bit_pack"], level="bounded-proof",
         bound="rows with at most the given candidate positions, every combination of set bits",
         cases=[dict(pos=((0, 5), (255,))), dict(pos=((), (0, 1, 2))), dict(pos=((254, 255), ()))],
         inputs=lambda pos: dict(b=List(Int(0, 1), sum(len(p) for p in pos))), n=8)
def h_hint_rows(b, pos):
    o = obj()
    o.k = len(pos)
    o.omega = 4
    h = []
    n = 0
    conc = []
    for p in pos:
        row = [0] * 256
        for j in p:
            if truth(b[n] == 1):
                row[j] = 1
            n = n + 1
        h.append(row)
    ensure_eq(o.hint_bit_pack(h), hint_spec(h, o.omega, o.k), "HintBitPack as specified")


# ---------------------------------------------------------------- composite encodings
def pk_stub(ps):
    def sbp(self, w, b):
        return V.MBytes(V.ctx().uf(f"sbp{b}", ("bytes", 32 * b.bit_length()), [w])) if False else V.ctx().uf(f"sbp{b}", ("bytes", 32 * b.bit_length()), [w])

    def sbu(self, v, b):
        return V.ctx().uf(f"sbu{b}", "Poly", [v])

    def bp(self, w, a, b):
        return V.ctx().uf(f"bp{a},{b}", ("bytes", 32 * (a + b).bit_length()), [w])

    def bu(self, v, a, b):
        return V.ctx().uf(f"bu{a},{b}", "Poly", [v])

    def hp(self, h):
        return V.ctx().uf("hbp", ("bytes", self.omega + self.k), [h])

    def hu(self, y):
        return V.ctx().uf("hbu", "Hint", [y])
    return {M.ML_DSA.simple_bit_pack: sbp, M.ML_DSA.simple_bit_unpack: sbu, M.ML_DSA.bit_pack: bp, M.ML_DSA.bit_unpack: bu,
            M.ML_DSA.hint_bit_pack: hp, M.ML_DSA.hint_bit_unpack: hu}


def poly(lo, hi):
    return Opaque("Poly", lambda rnd: [rnd.choice([lo, hi, rnd.randint(lo, hi)]) for _ in range(256)])


def widths(ps):
    """from FIPS 204: (t1 bits, eta bits, t0 bits, z bits, w1 bits)"""
    p = S.params(ps)
    return 10, (3 if p[6] == 2 else 4), 13, (18 if p[2] == 2 ** 17 else 20), (6 if ps == "ml-dsa-44" else 4)


@harness("D02", "pk", [F + "pk_encode", F + "pk_decode"], cases=SETS, stubs=pk_stub,
         inputs=lambda ps: dict(rho=Bytes(32), t1=List(poly(0, 1023), S.params(ps)[4])), n=4)
def h_pk(rho, t1, ps):
    o = obj(ps)
    k = S.params(ps)[4]
    pk = o.pk_encode(rho, t1)
    want = rho
    for i in range(k):
        want = want + bytes_(o.simple_bit_pack(t1[i], 1023))
    ensure_eq(pk, want, "public key layout")
    ensure(len(pk) == 32 + 320 * k, "public key length")
    r2, t2 = o.pk_decode(pk)
    ensure_eq(r2, rho, "rho comes back")
    ensure_eq(t2, [o.simple_bit_unpack(o.simple_bit_pack(t1[i], 1023), 1023) for i in range(k)], "each t1 polynomial is read from its own block")


@harness("D02", "sk", [F + "sk_encode", F + "sk_decode"], cases=SETS, stubs=pk_stub,
         inputs=lambda ps: dict(rho=Bytes(32), kk=Bytes(32), tr=Bytes(64), s1=List(poly(-S.params(ps)[6], S.params(ps)[6]), S.params(ps)[5]),
                                s2=List(poly(-S.params(ps)[6], S.params(ps)[6]), S.params(ps)[4]), t0=List(poly(-4095, 4096), S.params(ps)[4])), n=4)
def h_sk(rho, kk, tr, s1, s2, t0, ps):
    o = obj(ps)
    eta = S.params(ps)[6]
    sk = o.sk_encode(rho, kk, tr, s1, s2, t0)
    want = rho + kk + tr
    for p in s1 + s2:
        want = want + bytes_(o.bit_pack(p, eta, eta))
    for p in t0:
        want = want + bytes_(o.bit_pack(p, 4095, 4096))
    ensure_eq(sk, want, "private key layout")
    ensure(len(sk) == {"ml-dsa-44": 2560, "ml-dsa-65": 4032, "ml-dsa-87": 4896}[ps], "private key length")
    got = o.sk_decode(sk)
    ensure_eq(got[0:3], (rho, kk, tr), "seeds come back")
    ensure_eq(got[3], [o.bit_unpack(o.bit_pack(p, eta, eta), eta, eta) for p in s1], "s1 blocks")
    ensure_eq(got[4], [o.bit_unpack(o.bit_pack(p, eta, eta), eta, eta) for p in s2], "s2 blocks")
    ensure_eq(got[5], [o.bit_unpack(o.bit_pack(p, 4095, 4096), 4095, 4096) for p in t0], "t0 blocks")


def bytes_(x):
    return bytes(x)


@harness("D02", "sig", [F + "sig_encode", F + "sig_decode"], cases=SETS, stubs=pk_stub,
         inputs=lambda ps: dict(ct=Bytes(S.params(ps)[1] // 4), z=List(poly(-S.params(ps)[2] + 1, S.params(ps)[2]), S.params(ps)[5]),
                                h=Opaque("Hint", lambda rnd: rand_hint(rnd, S.params(ps)[7], S.params(ps)[4]))), n=4)
def h_sig(ct, z, h, ps):
    o = obj(ps)
    g1 = S.params(ps)[2]
    sig = o.sig_encode(ct, z, h)
    want = ct
    for p in z:
        want = want + bytes_(o.bit_pack(p, g1 - 1, g1))
    want = want + bytes_(o.hint_bit_pack(h))
    ensure_eq(sig, want, "signature layout")
    ensure(len(sig) == {"ml-dsa-44": 2420, "ml-dsa-65": 3309, "ml-dsa-87": 4627}[ps], "signature length")
    c2, z2, h2 = o.sig_decode(sig)
    ensure_eq(c2, ct, "challenge comes back")
    ensure_eq(z2, [o.bit_unpack(o.bit_pack(p, g1 - 1, g1), g1 - 1, g1) for p in z], "z blocks")
    ensure_eq(h2, o.hint_bit_unpack(o.hint_bit_pack(h)), "hint block")


@harness("D02", "w1_encode", [F + "w1_encode"], cases=SETS, stubs=pk_stub,
         inputs=lambda ps: dict(w1=List(poly(0, 15), S.params(ps)[4])), n=4)
def h_w1(w1, ps):
    o = obj(ps)
    b = 43 if ps == "ml-dsa-44" else 15
    want = b""
    for p in w1:
        want = want + bytes_(o.simple_bit_pack(p, b))
    ensure_eq(o.w1_encode(w1), want, "w1 layout")


@harness("D02", "integer_to_bytes", [F + "integer_to_bytes"], cases=[dict(n=1), dict(n=2), dict(n=4)],
         inputs=lambda n: dict(x=Int(0, 2 ** (8 * n + 3))))
def h_i2b(x, n):
    y = obj().integer_to_bytes(x, n)
    ensure(len(y) == n, "length")
    for i in range(n):
        ensure_eq(y[i], (x >> (8 * i)) % 256, "little endian")


# ---------------------------------------------------------------- samplers
class RejLoop(Loop):
    """state at the head of a rejection loop: j coefficients found, stream position anywhere"""

    def __init__(self, xofname, listname="a", per=3, part=0):
        self.x, self.l, self.per, self.part = xofname, listname, per, part

    def inv(self, interp, env, entry):
        j, a, g = env["j"], env[self.l], env[self.x]
        if entry:
            V.ctx().ghost["absorbed"] = g._absorbed
            return all_of(eq(j, 0), eq(g._pos, 0), eq(len(a), 256))
        return all_of(j >= 0, j < 256, eq(len(a), 256))

    def havoc(self, interp, env):
        c = V.ctx()
        jj = c.fresh_int("j", 0, 255)
        c.assume(all_of(jj >= 64 * self.part, jj < 64 * self.part + 64))
        j = c.concretize(jj)
        g = env[self.x]
        a = env[self.l]
        for i in range(256):
            a[i] = c.fresh_int("a") if i < j else None
        g._pos = c.fresh_int("pos", 0, 2 ** 20)
        c.ghost["before"] = (j, list(a), g._pos)
        return {"j": j}

    def check(self, interp, env):
        c = V.ctx()
        j, a, p = c.ghost["before"]
        g = env[self.x]
        c.prove(eq(g._pos, p + self.per), "each round consumes the next bytes of the stream, none skipped or reused")
        new = self.spec(interp, env, p)
        new = new[:256 - j]
        c.prove(eq(env["j"], j + len(new)), "number of coefficients found")
        c.prove(V.deep_eq(env[self.l][:j + len(new)], a[:j] + new), "found coefficients in stream order, earlier ones kept")

    def step(self, interp, before, after):
        self.check(interp, after)

    def exit(self, interp, env):
        self.check(interp, env)


class NttLoop(RejLoop):
    def spec(self, interp, env, p):
        b = C.xof_bytes(env[self.x], p, 3)
        z = b[0] + 256 * b[1] + 65536 * (b[2] % 128)
        return [z] if truth(z < S.Q) else []


class BndLoop(RejLoop):
    def __init__(self, eta, part):
        super().__init__("h", "a", 1, part)
        self.eta = eta

    def half(self, v):
        if self.eta == 2:
            return [2 - v % 5] if truth(v < 15) else []
        return [4 - v] if truth(v < 9) else []

    def spec(self, interp, env, p):
        b = C.xof_bytes(env[self.x], p, 1)[0]
        return self.half(b % 16) + self.half(b // 16)


PARTS = (0, 1, 2, 3)  # the 256 values of j are split over four proof tasks


def conc_ntt_poly(rho, part):
    st = C.shake("shake128", rho, 3000)
    want = []
    i = 0
    while len(want) < 256:
        z = st[i] + 256 * st[i + 1] + 65536 * (st[i + 2] % 128)
        i += 3
        if z < S.Q:
            want.append(z)
    ensure_eq(obj().rej_ntt_poly(rho), want, "RejNTTPoly as specified")


@harness("D02", "rej_ntt_poly", [F + "rej_ntt_poly", F + "coeff_from_three_bytes"], inputs=lambda part: dict(rho=ExplicitBytes(34)), cases=[dict(part=p) for p in PARTS],
         stubs=lambda part: C.xof_stubs(), loops=lambda part: {M.ML_DSA.rej_ntt_poly: {0: NttLoop("g", "a", 3, part)}}, conc=conc_ntt_poly, n=6)
def h_rejntt(rho, part):
    r = obj().rej_ntt_poly(rho)
    ensure_eq(len(r), 256, "256 coefficients")
    ensure_eq(ghost("absorbed"), rho, "the stream is keyed by exactly the given seed")


def conc_bounded(rho, ps, part):
    eta = S.params(ps)[6]
    st = C.shake("shake256", rho, 2000)
    want = []
    for z in st:
        for v in (z % 16, z // 16):
            if eta == 2 and v < 15:
                want.append(2 - v % 5)
            if eta == 4 and v < 9:
                want.append(4 - v)
    ensure_eq(obj(ps).rej_bounded_poly(rho), want[:256], "RejBoundedPoly as specified")


@harness("D02", "rej_bounded_poly", [F + "rej_bounded_poly", F + "coeff_from_half_byte"], inputs=lambda ps, part: dict(rho=ExplicitBytes(66)),
         cases=[dict(ps=p, part=t) for p in ("ml-dsa-44", "ml-dsa-65") for t in PARTS],
         stubs=lambda ps, part: C.xof_stubs(), loops=lambda ps, part: {M.ML_DSA.rej_bounded_poly: {0: BndLoop(S.params(ps)[6], part)}},
         conc=conc_bounded, n=6)
def h_rejb(rho, ps, part):
    r = obj(ps).rej_bounded_poly(rho)
    ensure_eq(len(r), 256, "256 coefficients")
    ensure_eq(ghost("absorbed"), rho, "the stream is keyed by exactly the given seed")


class BallOuter(Loop):
    """for i = 256-tau .. 255: arbitrary c and stream position at the head"""

    def __init__(self, tau):
        self.tau = tau

    def inv(self, interp, env, k, items):
        c = V.ctx()
        if k == 0:
            c.prove(V.deep_eq(env["c"], [0] * 256), "all coefficients start at zero")
            c.prove(V.deep_eq(list(items), list(range(256 - self.tau, 256))), "one step for each of the last tau positions")
            c.prove(eq(env["xof"]._pos, 8), "the first eight bytes give the signs")
        return all_of(eq(len(env["c"]), 256), env["xof"]._pos >= 8)

    def havoc(self, interp, env, k, items):
        c = V.ctx()
        for i in range(256):
            env["c"][i] = c.fresh_int("c")
        c.ghost["c"] = list(env["c"])
        c.ghost["p"] = env["xof"]._pos = c.fresh_int("pos", 8, 2 ** 20)
        return {}

    def step(self, interp, before, env, k, items):
        c = V.ctx()
        want = list(c.ghost["c"])
        i, j = items[k], c.ghost["j"]
        s = C.xof_bytes(env["xof"], 0, 8)
        n = i + self.tau - 256
        sign = 1 - 2 * ((s[n // 8] >> (n % 8)) % 2)
        want[i] = interp.index_list(want, j)
        interp.setitem(want, j, sign)
        c.prove(V.deep_eq(env["c"], want), "c[i] = c[j], c[j] = sign bit i+tau-256")


class BallInner(Loop):
    """rejection: leaves with a stream byte j <= i, every discarded byte is > i"""
    exit_at_head = True

    def inv(self, interp, env, entry):
        c = V.ctx()
        if entry:
            c.prove(eq(env["xof"]._pos, c.ghost["p"] + 1), "the next candidate is the next byte of the stream")
        c.prove(eq(env["j"], C.xof_bytes(env["xof"], env["xof"]._pos - 1, 1)[0]), "candidate is the last byte read")
        return all_of(env["j"] >= 0, env["j"] <= 255)

    def havoc(self, interp, env):
        c = V.ctx()
        c.ghost["q"] = env["xof"]._pos = c.fresh_int("pos", 9, 2 ** 20)
        c.ghost["j"] = j = C.xof_bytes(env["xof"], env["xof"]._pos - 1, 1)[0]
        return {"j": j}

    def step(self, interp, before, after):
        c = V.ctx()
        c.prove(eq(after["xof"]._pos, c.ghost["q"] + 1), "one byte per round")
        c.prove(before["j"] > before["i"], "only candidates above i are discarded")

    def exit(self, interp, env):
        V.ctx().prove(env["j"] <= env["i"], "accepted candidate is at most i")


def ball_spec(js, bits, tau):
    c = [0] * 256
    for n in range(len(js)):
        i, j = js[n]
        c[i] = c[j]
        c[j] = 1 - 2 * bits[i + tau - 256]
    return c


def conc_ball(ps, rho):
    tau = S.params(ps)[0]
    st = C.shake("shake256", rho, 3000)
    bits = [(st[i // 8] >> (i % 8)) & 1 for i in range(64)]
    js = []
    p = 8
    for i in range(256 - tau, 256):
        while st[p] > i:
            p += 1
        js.append((i, st[p]))
        p += 1
    got = obj(ps).sample_in_ball(rho)
    ensure_eq(got, ball_spec(js, bits, tau), "SampleInBall as specified")
    ensure(sum(abs(x) for x in got) == tau, "exactly tau coefficients are non-zero")


@harness("D02", "sample_in_ball", [F + "sample_in_ball", F + "bytes_to_bits"], inputs=lambda ps: dict(rho=ExplicitBytes(S.params(ps)[1] // 4)),
         cases=SETS, stubs=lambda ps: C.xof_stubs(), loops=lambda ps: {M.ML_DSA.sample_in_ball: {0: BallOuter(S.params(ps)[0]), 1: BallInner()}}, conc=conc_ball, n=30)
def h_ball(rho, ps):
    c = obj(ps).sample_in_ball(rho)
    ensure_eq(ghost("reads")[0], (0, 8), "the first eight bytes give the signs")
    ensure_eq(c, ghost("c"), "the result is the array after the last step")


# ---------------------------------------------------------------- expansion of seeds
def exp_stub(ps):
    def poly_(name):
        return lambda self, rho: V.ctx().uf(name, "Poly", [rho])

    def h(self, s, n):
        return V.ctx().uf("H", ("bytes", n), [s, n])

    def bu(self, v, a, b):
        return V.ctx().uf(f"bu{a},{b}", "Poly", [v])
    return {M.ML_DSA.rej_ntt_poly: poly_("rejntt"), M.ML_DSA.rej_bounded_poly: poly_("rejb"), M.ML_DSA.h: h, M.ML_DSA.bit_unpack: bu}


@harness("D02", "expand_a", [F + "expand_a"], cases=SETS, stubs=exp_stub, inputs=dict(rho=Bytes(32)), n=1)
def h_exa(rho, ps):
    o = obj(ps)
    a = o.expand_a(rho)
    k, ell = S.params(ps)[4], S.params(ps)[5]
    ensure_eq(a, [[o.rej_ntt_poly(rho + bytes([s]) + bytes([r])) for s in range(ell)] for r in range(k)], "A[r][s] from rho || s || r")


@harness("D02", "expand_s", [F + "expand_s"], cases=SETS, stubs=exp_stub, inputs=dict(rho=Bytes(64)), n=3)
def h_exs(rho, ps):
    o = obj(ps)
    k, ell = S.params(ps)[4], S.params(ps)[5]
    s1, s2 = o.expand_s(rho)
    ensure_eq(s1, [o.rej_bounded_poly(rho + bytes([r, 0])) for r in range(ell)], "s1[r] from rho' || r")
    ensure_eq(s2, [o.rej_bounded_poly(rho + bytes([r + ell, 0])) for r in range(k)], "s2[r] from rho' || r + l")


@harness("D02", "expand_mask", [F + "expand_mask", F + "integer_to_bytes"], cases=SETS, stubs=exp_stub, inputs=dict(rho=Bytes(64), mu=Int(0, 60000)), n=3)
def h_exm(rho, mu, ps):
    o = obj(ps)
    ell, g1 = S.params(ps)[5], S.params(ps)[2]
    n = 32 * (18 if g1 == 2 ** 17 else 20)
    want = []
    for r in range(ell):
        v = mu + r
        want.append(o.bit_unpack(o.h(rho + bytes([v % 256, v // 256]), n), g1 - 1, g1))
    ensure_eq(o.expand_mask(rho, mu), want, "y[r] from rho'' || (mu + r)")


def conc_h(s, n):
    ensure_eq(obj().h(s, n), C.shake("shake256", s, n), "H is SHAKE256")


@harness("D02", "h", [F + "h"], level="bounded", bound="random strings and lengths", n=60, conc=conc_h,
         gen=lambda rnd, i: dict(s=rnd.randbytes(rnd.randrange(300)), n=rnd.choice([1, 32, 64, 128, 640])))
def h_h(s, n):
    pass


def conc_xof(alg, parts, reads):
    x = U.XOFHash(alg)
    for p in parts:
        x.update(p)
    st = C.shake(alg, b"".join(parts), 100000)
    p = 0
    for r in reads:
        ensure_eq(bytes(x.read(r)), st[p:p + r], "consecutive reads give consecutive bytes of the stream")
        p += r
    ensure(is_exc(outcome(x.update, b"x"), ValueError), "no absorbing after squeezing")


@harness("D02", "xof", ["pq_logic.fips._fips_utils.XOFHash.squeeze", "pq_logic.fips._fips_utils.XOFHash.read", "pq_logic.fips._fips_utils.XOFHash.update"],
         level="bounded", bound="random absorb/read patterns up to about 5000 bytes", n=60, conc=conc_xof,
         gen=lambda rnd, i: dict(alg=rnd.choice(["shake128", "shake256"]), parts=[rnd.randbytes(rnd.randrange(50)) for _ in range(rnd.randint(1, 3))],
                                 reads=[rnd.choice([1, 3, 8, 3, 168, rnd.randrange(600)]) for _ in range(rnd.randint(1, 12))]))
def h_xof(alg, parts, reads):
    pass
