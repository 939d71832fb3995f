"""Differential self-test of the symbolic value layer and the interpreter against CPython: every
operation is evaluated both ways on random operands and must agree.  Run by setup_cmd."""
import operator as op
import random

import z3

from . import values as V
from .domains import value_from_model
from .engine import Ctx

BIN = [op.add, op.sub, op.mul, op.mod, op.floordiv, op.and_, op.or_, op.xor, op.lshift, op.rshift,
       op.lt, op.le, op.gt, op.ge, op.eq, op.ne]


def ev(x, m):
    return value_from_model(m, x) if isinstance(x, V.Sym) else x


def test_ints(n=4000, seed=5):
    rnd = random.Random(seed)
    bad = 0
    done = 0
    for it in range(n):
        c = Ctx()
        c._reset([], [])
        V.CUR = c

        def operand():
            lo = rnd.choice([0, 0, 0, 1, -5, -300, -2 ** 20, 17])
            hi = lo + rnd.choice([0, 1, 7, 255, 1000, 2 ** 16 - 1, 2 ** 21])
            v = rnd.choice([lo, hi, rnd.randint(lo, hi)])
            k = rnd.randrange(4)
            if k == 0:
                return v, v
            if k == 1:
                e = z3.Int(f"x{rnd.random()}")
                c._add(e == v)
                return V.SInt(e=e, lo=lo, hi=hi), v
            if lo >= 0:
                s = c.fresh_int("x", lo, hi)
                c._add(s.bv == v)
                return s, v
            w = V.sbits(lo, hi)
            b = z3.BitVec(f"s{it}{rnd.random()}", w)
            c._add(b == v)
            return V.SInt(bv=b, lo=lo, hi=hi, sg=True), v

        (a, x), (b, y) = operand(), operand()
        if not isinstance(a, V.Sym) and not isinstance(b, V.Sym):
            continue
        for _ in range(rnd.randrange(1, 4)):
            f = rnd.choice(BIN)
            if f in (op.lshift, op.rshift):
                b, y = rnd.randrange(9), 0
                y = b
            try:
                want = f(x, y)
                wexc = None
            except Exception as e:  # noqa
                wexc = type(e)
            try:
                got = f(a, b)
                gexc = None
            except V.Unsupported:
                break
            except Exception as e:  # noqa
                gexc = type(e)
            if (wexc is None) != (gexc is None) or (wexc and wexc != gexc):
                print("EXC mismatch", f, x, y, wexc, gexc)
                bad += 1
                break
            if wexc:
                break
            if c.solver.check() != z3.sat:
                print("UNSAT", f, x, y)
                bad += 1
                break
            m = c.solver.model()
            g = ev(got, m)
            if g != want or isinstance(g, bool) != isinstance(want, bool):
                print("mismatch", f.__name__, x, y, "want", want, "got", g, got)
                bad += 1
                break
            if isinstance(got, V.SInt):
                if (got.lo is not None and want < got.lo) or (got.hi is not None and want > got.hi):
                    print("range wrong", f.__name__, x, y, want, got.lo, got.hi)
                    bad += 1
                    break
            done += 1
            if isinstance(want, bool):
                break
            a, x = got, want
            b, y = operand()
        V.CUR = None
    return done, bad


def test_bytes(n=400, seed=6):
    rnd = random.Random(seed)
    bad = done = 0
    for it in range(n):
        c = Ctx()
        c._reset([], [])
        V.CUR = c

        def operand():
            v = rnd.randbytes(rnd.choice([0, 1, 2, 3, 5, 9]))
            k = rnd.randrange(3)
            if k == 0:
                return v, v
            if k == 1 and v:
                s = c.fresh_bytes("b", len(v))
                for t, x in zip(s.chunks[0][1], v):
                    c._add(t.bv == x)
                return s, v
            t = z3.Const(f"t{it}{rnd.random()}", V.SEQ)
            s = c.seq_value(t, rnd.choice([None, len(v)]))
            c._add(t == V.zseq(v))
            return s, v

        a, x = operand()
        for _ in range(rnd.randrange(1, 5)):
            k = rnd.randrange(5)
            b, y = operand()
            try:
                if k == 0:
                    a, x = a + b, x + y
                elif k == 1:
                    i, j = rnd.randrange(-6, 10), rnd.randrange(-6, 10)
                    if rnd.random() < .3:
                        i = None
                    if rnd.random() < .3:
                        j = None
                    a, x = V.bslice(a, i, j) if isinstance(a, V.Sym) else a[i:j], x[i:j]
                elif k == 2:
                    g, w = V.deep_eq(a, b), x == y
                    c._check()
                    assert ev(g, c.solver.model()) == w, ("eq", x, y)
                    done += 1
                    continue
                elif k == 3 and x:
                    i = rnd.randrange(-len(x), len(x))
                    g, w = a[i], x[i]
                    c._check()
                    assert ev(g, c.solver.model()) == w, ("idx", x, i)
                    done += 1
                    continue
                else:
                    continue
                assert c._check() == z3.sat
                assert ev(a, c.solver.model()) == x, ("val", k, x)
                done += 1
            except V.Unsupported:
                break
            except AssertionError as e:
                print("BYTES mismatch", e)
                bad += 1
                break
        V.CUR = None
    return done, bad


def main():
    a = test_ints()
    b = test_bytes()
    print("selftest ints", a, "bytes", b)
    return 1 if a[1] or b[1] or a[0] < 500 or b[0] < 100 else 0
