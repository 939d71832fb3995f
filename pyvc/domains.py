"""Input domains: symbolic value, reconstruction from a model, random/boundary concrete values."""
import z3

from . import values as V
from .values import SBool, SBytes, SInt, SOpaque, SRing, SStr


def _ev(m, t):
    return m.eval(t, model_completion=True)


class Dom:
    def sym(self, ctx, tag):
        raise NotImplementedError

    def from_model(self, ctx, m, v):
        raise V.Unsupported("no model reconstruction")

    def sample(self, rnd, i):
        raise NotImplementedError


def seq_from_model(m, t):
    s = _ev(m, t)
    n = max(0, _ev(m, V.zlen(t)).as_long())
    out = []
    for i in range(min(n, 100000)):
        b = z3.simplify(_ev(m, V.ABS_AT(t, i) if t.sort().eq(V.ABS) else t[i]))
        out.append(b.as_long() if z3.is_bv_value(b) else 0)
    return bytes(out)


def value_from_model(m, v):
    """concrete counterpart of any symbolic value"""
    if isinstance(v, SBool):
        return z3.is_true(_ev(m, v.b))
    if isinstance(v, SInt):
        t = _ev(m, v.bv if v.bv is not None else v.e)
        return t.as_signed_long() if v.sg else t.as_long()
    if isinstance(v, SBytes):
        out = b""
        for c in v.chunks:
            if c[0] == "c":
                out += c[1]
            elif c[0] == "e":
                out += bytes(value_from_model(m, x) for x in c[1])
            else:
                n = c[3] if isinstance(c[3], int) else value_from_model(m, c[3])
                o = c[2] if isinstance(c[2], int) else value_from_model(m, c[2])
                out += seq_from_model(m, c[1])[o:o + n]
        return out
    if isinstance(v, V.MBytes):
        return bytearray(value_from_model(m, x) for x in v.a)
    if isinstance(v, SStr):
        return _ev(m, v.t).as_string()
    if isinstance(v, list):
        return [value_from_model(m, x) for x in v]
    if isinstance(v, tuple):
        return tuple(value_from_model(m, x) for x in v)
    if isinstance(v, dict):
        return {k: value_from_model(m, x) for k, x in v.items()}
    if isinstance(v, V.Sym):
        raise V.Unsupported(f"no concrete counterpart for {type(v).__name__}")
    return v


class Int(Dom):
    """lo..hi (None = unbounded).  math=True: mathematical z3 Int instead of a bit-vector"""

    def __init__(self, lo=0, hi=None, math=False):
        self.lo, self.hi, self.math = lo, hi, math

    def sym(self, ctx, tag):
        if self.math:
            e = z3.Int(ctx.name(tag))
            if self.lo is not None:
                ctx._add(e >= self.lo)
            if self.hi is not None:
                ctx._add(e <= self.hi)
            return SInt(e=e, lo=self.lo, hi=self.hi)
        return ctx.fresh_int(tag, self.lo, self.hi)

    def from_model(self, ctx, m, v):
        return value_from_model(m, v)

    def sample(self, rnd, i):
        lo = self.lo if self.lo is not None else -(1 << rnd.randrange(1, 70))
        hi = self.hi if self.hi is not None else lo + (1 << rnd.randrange(1, 70))
        if i % 4 == 0:
            k = rnd.randrange(6)
            c = [lo, hi, lo + 1, hi - 1, (lo + hi) // 2, (lo + hi) // 2 + 1][k]
            return max(lo, min(hi, c))
        if i % 4 == 1:
            b = rnd.randrange(max(1, hi.bit_length()) + 1)
            c = (1 << b) + rnd.randrange(-1, 2)
            return max(lo, min(hi, c))
        return rnd.randint(lo, hi)


class Bool(Dom):
    def sym(self, ctx, tag):
        return ctx.fresh_bool(tag)

    def from_model(self, ctx, m, v):
        return value_from_model(m, v)

    def sample(self, rnd, i):
        return rnd.random() < 0.5


class Bytes(Dom):
    """n bytes; n None: any length in lo..hi.  seq=True: always the sequence representation"""

    def __init__(self, n=None, lo=0, hi=None, seq=False, samplemax=80):
        self.n, self.lo, self.hi, self.seq, self.samplemax = n, lo, hi, seq, samplemax

    def sym(self, ctx, tag):
        if self.n is not None and (self.seq or self.n > 64) or self.n is None:
            t = z3.Const(ctx.name(tag), V.bsort())
            return ctx.seq_value(t, self.n, self.lo, self.hi)
        return ctx.fresh_bytes(tag, self.n)

    def from_model(self, ctx, m, v):
        return value_from_model(m, v)

    def sample(self, rnd, i):
        n = self.n
        if n is None:
            hi = self.hi if self.hi is not None else self.lo + self.samplemax
            n = rnd.choice([self.lo, hi, rnd.randint(self.lo, hi), rnd.randint(self.lo, min(hi, self.lo + 5))])
        k = rnd.randrange(8)
        if k == 0:
            return bytes(n)
        if k == 1:
            return b"\xff" * n
        if k == 2 and n:
            b = bytearray(n)
            b[rnd.randrange(n)] = rnd.randrange(256)
            return bytes(b)
        return rnd.randbytes(n)


class ExplicitBytes(Bytes):
    """n bytes as explicit byte terms whatever n"""

    def sym(self, ctx, tag):
        return SBytes([("e", [SInt(bv=z3.BitVec(ctx.name(tag), 8)) for _ in range(self.n)])]) if self.n else b""


class Str(Dom):
    def __init__(self, samples=("", "a", "abc")):
        self.samples = samples

    def sym(self, ctx, tag):
        return ctx.fresh_str(tag)

    def from_model(self, ctx, m, v):
        return value_from_model(m, v)

    def sample(self, rnd, i):
        return rnd.choice(list(self.samples))


class Enum(Dom):
    """one of a finite set of concrete Python values; the verifier branches over all of them"""

    def __init__(self, *vals):
        self.vals = vals

    def sym(self, ctx, tag):
        k = ctx.fresh_int(tag, 0, len(self.vals) - 1)
        for i in range(len(self.vals) - 1):
            if ctx.choose((k == i).b if isinstance(k == i, SBool) else (k == i)):
                return self.vals[i]
        return self.vals[-1]

    def from_model(self, ctx, m, v):
        return v

    def sample(self, rnd, i):
        return rnd.choice(list(self.vals))


class List(Dom):
    def __init__(self, item, n):
        self.item, self.n = item, n

    def sym(self, ctx, tag):
        return [self.item.sym(ctx, f"{tag}.{i}") for i in range(self.n)]

    def from_model(self, ctx, m, v):
        return [self.item.from_model(ctx, m, x) for x in v]

    def sample(self, rnd, i):
        k = rnd.randrange(4)
        if k == 0:
            x = self.item.sample(rnd, i)
            return [x] * self.n
        return [self.item.sample(rnd, rnd.randrange(8)) for _ in range(self.n)]


class VarList(Dom):
    """list of bounded length lo..hi (bounded stand-in for lists)"""

    def __init__(self, item, lo, hi):
        self.item, self.lo, self.hi = item, lo, hi

    def sym(self, ctx, tag):
        n = self.hi
        for k in range(self.lo, self.hi):
            if bool(ctx.fresh_bool(f"{tag}.len{k}")):
                n = k
                break
        return [self.item.sym(ctx, f"{tag}.{i}") for i in range(n)]

    def from_model(self, ctx, m, v):
        return [self.item.from_model(ctx, m, x) for x in v]

    def sample(self, rnd, i):
        return [self.item.sample(rnd, rnd.randrange(8)) for _ in range(rnd.randint(self.lo, self.hi))]


class Tup(Dom):
    def __init__(self, *items):
        self.items = items

    def sym(self, ctx, tag):
        return tuple(d.sym(ctx, f"{tag}.{i}") for i, d in enumerate(self.items))

    def from_model(self, ctx, m, v):
        return tuple(d.from_model(ctx, m, x) for d, x in zip(self.items, v))

    def sample(self, rnd, i):
        return tuple(d.sample(rnd, rnd.randrange(8)) for d in self.items)


class Opt(Dom):
    """None or a value of the inner domain"""

    def __init__(self, item):
        self.item = item

    def sym(self, ctx, tag):
        if bool(ctx.fresh_bool(tag + ".none")):
            return None
        return self.item.sym(ctx, tag)

    def from_model(self, ctx, m, v):
        return None if v is None else self.item.from_model(ctx, m, v)

    def sample(self, rnd, i):
        return None if rnd.random() < 0.3 else self.item.sample(rnd, i)


class Ring(Dom):
    """integers 0..q-1 seen as indeterminates mod q (polynomial identity proofs)"""

    def __init__(self, q, lo=0, hi=None):
        self.q = q
        self.lo, self.hi = lo, q - 1 if hi is None else hi

    def sym(self, ctx, tag):
        return SRing(self.q, {(tag,): 1}, self.lo, self.hi)

    def from_model(self, ctx, m, v):
        raise V.Unsupported("ring identity: no model")

    def sample(self, rnd, i):
        return Int(self.lo, self.hi).sample(rnd, i)


class Const(Dom):
    def __init__(self, v):
        self.v = v

    def sym(self, ctx, tag):
        return self.v() if callable(self.v) else self.v

    def from_model(self, ctx, m, v):
        return self.v() if callable(self.v) else self.v

    def sample(self, rnd, i):
        return self.v() if callable(self.v) else self.v


class Opaque(Dom):
    """element of an uninterpreted sort; concrete counterpart drawn by `gen(rnd)`"""

    def __init__(self, kind, gen):
        self.kind, self.gen = kind, gen

    def sym(self, ctx, tag):
        return SOpaque(z3.Const(ctx.name(tag), z3.DeclareSort(self.kind)), self.kind)

    def sample(self, rnd, i):
        return self.gen(rnd)


class Make(Dom):
    """a structured input built from component domains: build(**parts).  `build` runs in both modes."""

    def __init__(self, build, **parts):
        self.build, self.parts = build, parts

    def sym(self, ctx, tag):
        p = {k: d.sym(ctx, f"{tag}.{k}") for k, d in self.parts.items()}
        o = self.build(**p)
        ctx.memo[("make", id(o))] = (o, p)
        return o

    def from_model(self, ctx, m, v):
        p = ctx.memo[("make", id(v))][1]
        return self.build(**{k: d.from_model(ctx, m, p[k]) for k, d in self.parts.items()})

    def sample(self, rnd, i):
        return self.build(**{k: d.sample(rnd, rnd.randrange(8)) for k, d in self.parts.items()})
