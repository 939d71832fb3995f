"""Symbolic values.

Every value stands for *the set of all Python values of its type under the path condition*;
arithmetic is exact (Python integers are unbounded, no wrap-around).

SInt    integer, either an exact unsigned bit-vector of known width (`bv`) or a z3 Int (`e`)
SBool   z3 Bool
SBytes  byte string: concatenation of chunks (constant, list of byte terms, slice of a z3 sequence)
SStr    z3 String
SRing   integer known modulo q as a polynomial over symbolic indeterminates (own normal form)
SOpaque element of an uninterpreted sort
"""
import z3

BYTE = z3.BitVecSort(8)
SEQ = z3.SeqSort(BYTE)
# abstract byte strings: an uninterpreted sort with length/byte/concatenation/substring functions.  Every
# fact asserted about them is true of byte strings, so proofs carry over; it is weaker but fast.
ABS = z3.DeclareSort("Bytes")
ABS_LEN = z3.Function("blen", ABS, z3.IntSort())
ABS_AT = z3.Function("bat", ABS, z3.IntSort(), BYTE)
ABS_SUB = z3.Function("bsub", ABS, z3.IntSort(), z3.IntSort(), ABS)


def bsort():
    return ABS if ctx().absbytes else SEQ


def zlen(t):
    return ABS_LEN(t) if t.sort().eq(ABS) else z3.Length(t)


def byte8(x):
    """8-bit term of an integer known to be a byte on this path"""
    if isinstance(x, int):
        return bvof(x, 8)
    if x.bv is None:
        return low8(x.e)
    b = x.bv
    if b.size() > 8:
        b = z3.simplify(z3.Extract(7, 0, b))
    else:
        b = x.asbv(8)
    # one spelling for the low byte of an integer term
    t = b
    if z3.is_app_of(t, z3.Z3_OP_EXTRACT) and t.params() == [7, 0]:
        t = t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_INT2BV):
        return low8(t.arg(0))
    return b


def low8(e):
    while z3.is_app_of(e, z3.Z3_OP_MOD) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0 and e.arg(1).as_long() % 256 == 0:
        e = e.arg(0)
    return z3.Int2BV(e, 8)


def abs_explicit(items):
    """term for an explicit run of bytes"""
    c = ctx()
    if all(isinstance(x, int) for x in items):
        b = bytes(items)
        r = c.lits.get(b)
        if r is None:
            r = z3.Const("lit:" + b.hex(), ABS)
            c._add(ABS_LEN(r) == len(b))
            for o, t in c.lits.items():
                if len(o) == len(b):
                    c._add(t != r)
            c.lits[b] = r
        return r
    zs = [byte8(x) for x in items]
    r = z3.Function(f"bytes{len(zs)}", *[BYTE] * len(zs), ABS)(*zs)
    if r.get_id() not in c.abs_seen:
        c.abs_seen[r.get_id()] = r
        c._add(ABS_LEN(r) == len(zs))
    return r


def canon_chunks(cs):
    """explicit runs of bytes t[k], t[k+1], ... become slices of t; adjacent slices are merged"""
    out = []

    def put(t, i, n):
        if out and out[-1][0] == "t" and out[-1][1].eq(t) and isinstance(out[-1][2], int) and isinstance(out[-1][3], int) and isinstance(i, int) and out[-1][2] + out[-1][3] == i:
            p = out.pop()
            out.append(("t", t, p[2], p[3] + n if isinstance(n, int) else n + p[3]))
        else:
            out.append(("t", t, i, n))
    for c in cs:
        if c[0] == "t":
            put(c[1], c[2], c[3])
            continue
        if c[0] == "c":
            out.append(c)
            continue
        rest = []
        for x in c[1]:
            b = x.bv if isinstance(x, SInt) else None
            if b is not None and b.num_args() == 2 and b.decl().eq(ABS_AT) and z3.is_int_value(b.arg(1)):
                if rest:
                    out.append(("e", rest))
                    rest = []
                put(b.arg(0), b.arg(1).as_long(), 1)
            else:
                rest.append(x)
        if rest:
            out.append(("e", rest))
    return out


def abs_seq(b):
    runs = []
    for c in canon_chunks(aschunks(b)):
        if c[0] in "ce":
            if runs and isinstance(runs[-1], list):
                runs[-1] += list(c[1])
            else:
                runs.append(list(c[1]))
        else:
            runs.append(c)
    zs = []
    for r in runs:
        if isinstance(r, list):
            zs.append(abs_explicit(r))
        elif isinstance(r[2], int) and r[2] == 0 and ctx().seq_len_is(r[1], r[3]):
            zs.append(r[1])
        else:
            zs.append(ABS_SUB(r[1], z3.simplify(ze(r[2])), z3.simplify(ze(r[3]))))
    if not zs:
        return abs_explicit([])
    if len(zs) == 1:
        return zs[0]
    r = z3.Function(f"bcat{len(zs)}", *[ABS] * len(zs), ABS)(*zs)
    c = ctx()
    if r.get_id() not in c.abs_seen:
        c.abs_seen[r.get_id()] = r
        c._add(ABS_LEN(r) == ze(blen(b)))
    return r

CUR = None  # current execution context (set by engine)


class Unsupported(Exception):
    """The engine has no exact model for this construct: the proof attempt is undecided."""


class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def ctx():
    if CUR is None:
        raise Unsupported("symbolic value used outside a verification context")
    return CUR


def bits_of(n):
    return max(1, n.bit_length())


# ------------------------------------------------------------------ booleans
class SBool(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().choose(self.b)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return mkbool(self.b == o.b)
        if isinstance(o, bool):
            return mkbool(self.b if o else z3.Not(self.b))
        if isinstance(o, (int, SInt)):
            return self.asint() == o
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def asint(self):
        return SInt(e=z3.If(self.b, z3.IntVal(1), z3.IntVal(0)), lo=0, hi=1)

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(z3.And(self.b, zb(o)))
        return self.asint() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(z3.Or(self.b, zb(o)))
        return self.asint() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(z3.Xor(self.b, zb(o)))
        return self.asint() ^ o

    __rxor__ = __xor__

    def __add__(self, o):
        return self.asint() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.asint() - o

    def __rsub__(self, o):
        return o - self.asint()

    def __mul__(self, o):
        return self.asint() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.asint() < o

    def __gt__(self, o):
        return self.asint() > o

    def __le__(self, o):
        return self.asint() <= o

    def __ge__(self, o):
        return self.asint() >= o

    def __repr__(self):
        return f"SBool({self.b})"


def zb(x):
    if isinstance(x, SBool):
        return x.b
    return z3.BoolVal(bool(x))


def mkbool(b):
    if isinstance(b, bool):
        return b
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    s = z3.simplify(b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(s)


def snot(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.b))
    return not x


def sand(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            out.append(x.b)
        elif not x:
            return False
    return mkbool(z3.And(*out)) if out else True


def sor(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            out.append(x.b)
        elif x:
            return True
    return mkbool(z3.Or(*out)) if out else False


# ------------------------------------------------------------------ integers
class SInt(Sym):
    """Exact integer. bv: unsigned bit-vector term; e: z3 Int term (lazily derived from bv)."""

    __slots__ = ("_e", "bv", "lo", "hi", "sg")

    def __init__(self, e=None, bv=None, lo=None, hi=None, sg=False):
        self._e = e
        self.bv = bv
        self.sg = sg
        if bv is not None and not sg:
            m = (1 << bv.size()) - 1
            lo = 0 if lo is None else max(0, lo)
            hi = m if hi is None else min(m, hi)
        self.lo, self.hi = lo, hi

    @property
    def e(self):
        if self._e is None:
            self._e = z3.BV2Int(self.bv, self.sg)
        return self._e

    def __hash__(self):
        raise Unsupported("hash of symbolic int")

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return ctx().concretize(self)

    def __int__(self):
        return ctx().concretize(self)

    def __repr__(self):
        return f"SInt({self.bv if self.bv is not None else self._e})"

    # -- helpers
    def asbv(self, w=None):
        """bit-vector view (needs a known non-negative range)."""
        if self.bv is not None and not self.sg:
            b = self.bv
        elif self.bv is not None:
            if self.lo < 0:
                raise Unsupported("bit operation on possibly negative integer")
            b = z3.Extract(min(self.bv.size(), bits_of(self.hi)) - 1, 0, self.bv)
        else:
            if self.lo is None or self.hi is None or self.lo < 0:
                raise Unsupported("bit operation on integer of unknown range")
            b = z3.Int2BV(self._e, bits_of(self.hi))
        return ext(b, w) if w else b

    def _arith(self, o, op):
        o = toint(o)
        if o is None:
            return NotImplemented
        return op(self, o)

    def __add__(self, o):
        if isinstance(o, SRing):
            return NotImplemented
        return self._arith(o, add)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SRing):
            return NotImplemented
        return self._arith(o, sub)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes, SBytes)):
            return o * ctx().concretize(self)
        return self._arith(o, mul)

    __rmul__ = __mul__

    def __neg__(self):
        return sub(0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        return ite(self < 0, sub(0, self), self)

    def __invert__(self):
        return sub(sub(0, self), 1)

    def __mod__(self, o):
        return self._arith(o, mod)

    def __rmod__(self, o):
        return self._arith(o, lambda a, b: mod(b, a))

    def __floordiv__(self, o):
        return self._arith(o, fdiv)

    def __rfloordiv__(self, o):
        return self._arith(o, lambda a, b: fdiv(b, a))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        o = toint(o)
        if o is None:
            return NotImplemented
        return SRat(self, o)

    def __rtruediv__(self, o):
        o = toint(o)
        if o is None:
            return NotImplemented
        return SRat(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 64:
            r = 1
            for _ in range(o):
                r = r * self
            return r if m is None else r % m
        raise Unsupported("symbolic power")

    def __rpow__(self, o, m=None):
        if o == 2 and m is None:
            return shl(1, self)
        if o == -1 and m is None:
            return ite(mod(self, 2) == 0, 1, -1)
        n = ctx().concretize(self)
        return pow(o, n) if m is None else pow(o, n, m)

    def __lshift__(self, o):
        return self._arith(o, shl)

    def __rlshift__(self, o):
        return self._arith(o, lambda a, b: shl(b, a))

    def __rshift__(self, o):
        return self._arith(o, shr)

    def __rrshift__(self, o):
        return self._arith(o, lambda a, b: shr(b, a))

    def __and__(self, o):
        return self._arith(o, band)

    __rand__ = __and__

    def __or__(self, o):
        return self._arith(o, bor)

    __ror__ = __or__

    def __xor__(self, o):
        return self._arith(o, bxor)

    __rxor__ = __xor__

    def __lt__(self, o):
        return cmp_(self, o, "<")

    def __le__(self, o):
        return cmp_(self, o, "<=")

    def __gt__(self, o):
        return cmp_(self, o, ">")

    def __ge__(self, o):
        return cmp_(self, o, ">=")

    def __eq__(self, o):
        if isinstance(o, SBool):
            o = o.asint()
        if isinstance(o, (SInt, int)):
            return cmp_(self, o, "==")
        if isinstance(o, SRat):
            return o.__eq__(self)
        if isinstance(o, float):
            return cmp_(self, int(o), "==") if o.is_integer() else False
        if isinstance(o, Sym):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def bit_length(self):
        return ctx().bit_length(self)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)


class SRat(Sym):
    """exact rational num/den produced by `/`; supports only what exact code needs."""

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        if isinstance(d, int):
            if d == 0:
                raise ZeroDivisionError("division by zero")
            if d < 0:
                n, d = -n, -d
        self.n, self.d = n, d
        ctx().note("true division treated as exact rational (float rounding not modelled)")

    def __add__(self, o):
        if isinstance(o, float):
            f = o.as_integer_ratio()
            return SRat(self.n * f[1] + self.d * f[0], self.d * f[1])
        if isinstance(o, SRat):
            return SRat(self.n * o.d + o.n * self.d, self.d * o.d)
        o = toint(o)
        return NotImplemented if o is None else SRat(self.n + o * self.d, self.d)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, float):
            f = o.as_integer_ratio()
            return SRat(self.n * f[0], self.d * f[1])
        o = toint(o)
        return NotImplemented if o is None else SRat(self.n * o, self.d)

    __rmul__ = __mul__

    def floor(self):
        return fdiv(self.n, self.d)

    def ceil(self):
        return sub(0, fdiv(sub(0, self.n), self.d))

    def trunc(self):
        return ite(self.n >= 0, fdiv(self.n, self.d), sub(0, fdiv(sub(0, self.n), self.d)))

    def __eq__(self, o):
        if isinstance(o, SRat):
            return self.n * o.d == o.n * self.d
        o = toint(o)
        return False if o is None else self.n == o * self.d

    def __lt__(self, o):
        o = toint(o)
        return self.n < o * self.d

    def __gt__(self, o):
        o = toint(o)
        return self.n > o * self.d

    def __le__(self, o):
        o = toint(o)
        return self.n <= o * self.d

    def __ge__(self, o):
        o = toint(o)
        return self.n >= o * self.d

    def __hash__(self):
        raise Unsupported("hash of symbolic rational")


def ext(b, w):
    d = w - b.size()
    return z3.ZeroExt(d, b) if d > 0 else b


def toint(o):
    """SInt / python int view of a number-like operand, None if not an integer."""
    if isinstance(o, SInt):
        return o
    if isinstance(o, SBool):
        return o.asint()
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return int(o)
    return None


def ze(x):
    return x.e if isinstance(x, SInt) else z3.IntVal(x)


def rng(x):
    return (x.lo, x.hi) if isinstance(x, SInt) else (x, x)


def isbv(x):
    return (isinstance(x, SInt) and x.bv is not None and not x.sg) or (isinstance(x, int) and x >= 0)


def isb2(x):
    """bit-vector backed (possibly signed) or constant"""
    return isinstance(x, int) or x.bv is not None


def sbits(lo, hi):
    """bits of a two's complement representation covering lo..hi"""
    return max(bits_of(hi) if hi > 0 else 1, (-lo - 1).bit_length() if lo < 0 else 0) + 1


def sbv(x, w):
    """signed w-bit view"""
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if x.sg:
        d = w - x.bv.size()
        return z3.SignExt(d, x.bv) if d > 0 else (x.bv if d == 0 else z3.Extract(w - 1, 0, x.bv))
    d = w - x.bv.size()
    return z3.ZeroExt(d, x.bv) if d > 0 else (x.bv if d == 0 else z3.Extract(w - 1, 0, x.bv))


def mks(bv, lo, hi):
    """signed result known to lie in lo..hi"""
    s = z3.simplify(bv)
    if z3.is_bv_value(s):
        return s.as_signed_long()
    w = sbits(lo, hi)
    if w < s.size():
        s = z3.simplify(z3.Extract(w - 1, 0, s))
        if z3.is_bv_value(s):
            return s.as_signed_long()
    if lo >= 0:
        return mk(bv=z3.Extract(max(0, min(s.size() - 1, bits_of(hi)) - 1), 0, s), lo=lo, hi=hi)
    return SInt(bv=s, lo=lo, hi=hi, sg=True)


def bvof(x, w):
    if isinstance(x, SInt):
        return ext(x.asbv(), w)
    return z3.BitVecVal(x, w)


def width(x):
    return x.bv.size() if isinstance(x, SInt) else bits_of(x)


def mk(e=None, bv=None, lo=None, hi=None):
    """build a value, folding constants and trimming known-zero top bits."""
    if bv is not None:
        s = z3.simplify(bv)
        if z3.is_bv_value(s):
            return s.as_long()
        if hi is not None and hi >= 0 and bits_of(hi) < s.size():
            s = z3.simplify(z3.Extract(bits_of(hi) - 1, 0, s))
            if z3.is_bv_value(s):
                return s.as_long()
        # drop leading zero bits that are syntactically visible
        while s.size() > 1 and z3.is_app_of(s, z3.Z3_OP_CONCAT) and z3.is_bv_value(s.arg(0)) and s.arg(0).as_long() == 0:
            rest = [s.arg(i) for i in range(1, s.num_args())]
            s = rest[0] if len(rest) == 1 else z3.Concat(*rest)
        return SInt(bv=s, lo=lo, hi=hi)
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SInt(e=s, lo=lo, hi=hi)


def _r(f, *vals):
    return None if any(v is None for v in vals) else f(*vals)


def add(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = _r(lambda x, y: x + y, al, bl), _r(lambda x, y: x + y, ah, bh)
    if isbv(a) and isbv(b):
        r = _disjoint(a, b)
        if r is not None:
            return r
        w = bits_of(hi)
        w = max(w, width(a), width(b))
        return mk(bv=bvof(a, w) + bvof(b, w), lo=lo, hi=hi)
    if isb2(a) and isb2(b):
        w = max(sbits(lo, hi), sbits(al, ah), sbits(bl, bh))
        return mks(sbv(a, w) + sbv(b, w), lo, hi)
    return mk(e=ze(a) + ze(b), lo=lo, hi=hi)


def _lowzeros(x):
    """number of low bits that are syntactically zero"""
    if isinstance(x, int):
        return (x & -x).bit_length() - 1 if x else 10 ** 6
    t = x.bv
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        l = t.arg(t.num_args() - 1)
        if z3.is_bv_value(l):
            v = l.as_long()
            return l.size() if v == 0 else (v & -v).bit_length() - 1
    return 0


def _disjoint(a, b):
    """a + b == a | b == concatenation when the bits of one lie below those of the other"""
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    for x, y in ((a, b), (b, a)):
        k = _lowzeros(x)
        yh = rng(y)[1]
        if k and yh is not None and yh < (1 << k):
            hi = rng(x)[1] + yh
            kk = bits_of(yh)
            top = shr(x, kk)
            if isinstance(top, int):
                tb = z3.BitVecVal(top, bits_of(top))
            else:
                tb = top.bv
            return mk(bv=z3.Concat(tb, bvof(mod(y, 1 << kk), kk)), lo=0, hi=hi)
    return None


def sub(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = _r(lambda x, y: x - y, al, bh), _r(lambda x, y: x - y, ah, bl)
    if isbv(a) and isbv(b) and lo is not None and lo >= 0:
        w = max(width(a), width(b))
        return mk(bv=bvof(a, w) - bvof(b, w), lo=lo, hi=hi)
    if isb2(a) and isb2(b):
        w = max(sbits(lo, hi), sbits(al, ah), sbits(bl, bh))
        return mks(sbv(a, w) - sbv(b, w), lo, hi)
    return mk(e=ze(a) - ze(b), lo=lo, hi=hi)


def mul(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo = hi = None
    if None not in (al, ah, bl, bh):
        ps = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(ps), max(ps)
    if isbv(a) and isbv(b):
        w = max(bits_of(hi), width(a), width(b))
        return mk(bv=bvof(a, w) * bvof(b, w), lo=lo, hi=hi)
    if isb2(a) and isb2(b):
        w = max(sbits(lo, hi), sbits(al, ah), sbits(bl, bh))
        return mks(sbv(a, w) * sbv(b, w), lo, hi)
    if lo is None and al is not None and bl is not None and al >= 0 and bl >= 0:
        lo = al * bl
    return mk(e=ze(a) * ze(b), lo=lo, hi=hi)


def ispow2(n):
    return isinstance(n, int) and n > 0 and n & (n - 1) == 0


def mod(a, m):
    if isinstance(m, SInt):
        if m.lo is None or m.lo <= 0:
            if bool(m == 0):
                raise ZeroDivisionError("integer modulo by zero")
            if not bool(m > 0):
                raise Unsupported("modulo by negative symbolic")
        return mk(e=ze(a) % ze(m), lo=0, hi=_r(lambda x: x - 1, m.hi))
    if m == 0:
        raise ZeroDivisionError("integer modulo by zero")
    if m < 0:
        r = mod(a, -m)
        return ite(r == 0, 0, add(r, m))
    al, ah = rng(a)
    if al is not None and ah is not None and 0 <= al and ah < m:
        return a
    if isbv(a):
        if ispow2(m):
            k = m.bit_length() - 1
            if k == 0:
                return 0
            return mk(bv=z3.Extract(k - 1, 0, bvof(a, max(k, width(a)))))
        w = max(width(a), bits_of(m))
        return mk(bv=z3.URem(bvof(a, w), z3.BitVecVal(m, w)), lo=0, hi=m - 1)
    if isb2(a):
        if ispow2(m):
            k = m.bit_length() - 1
            return 0 if k == 0 else mk(bv=z3.Extract(k - 1, 0, sbv(a, max(k, a.bv.size()))))
        c = -(al // m)
        return mod(add(a, c * m), m)
    return mk(e=ze(a) % m, lo=0, hi=m - 1)


def fdiv(a, m):
    if isinstance(m, SInt):
        if m.lo is None or m.lo <= 0:
            if bool(m == 0):
                raise ZeroDivisionError("integer division by zero")
            if not bool(m > 0):
                raise Unsupported("division by negative symbolic")
        return mk(e=ze(a) / ze(m))
    if m == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if m < 0:
        return fdiv(sub(0, a), -m)
    al, ah = rng(a)
    lo, hi = _r(lambda x: x // m, al), _r(lambda x: x // m, ah)
    if isbv(a):
        if ispow2(m):
            k = m.bit_length() - 1
            w = width(a)
            return 0 if k >= w else mk(bv=z3.Extract(w - 1, k, bvof(a, w)), lo=lo, hi=hi)
        w = max(width(a), bits_of(m))
        return mk(bv=z3.UDiv(bvof(a, w), z3.BitVecVal(m, w)), lo=lo, hi=hi)
    if isb2(a):
        if ispow2(m):
            k = m.bit_length() - 1
            if k == 0:
                return a
            return mks(sbv(a, a.bv.size()) >> k, lo, hi)
        c = -(al // m)
        return sub(fdiv(add(a, c * m), m), c)
    return mk(e=ze(a) / m, lo=lo, hi=hi)


def shl(a, k):
    if isinstance(k, SInt):
        if k.lo is None or k.hi is None or k.lo < 0 or k.hi > 512:
            raise Unsupported("shift by unbounded symbolic amount")
        if isbv(a) and k.bv is not None and not k.sg:
            w = width(a) + k.hi
            al, ah = rng(a)
            return mk(bv=bvof(a, w) << bvof(k, max(w, width(k))) if width(k) <= w else None, lo=al << k.lo, hi=ah << k.hi)
        k = ctx().concretize(k)
    if k < 0:
        raise ValueError("negative shift count")
    al, ah = rng(a)
    lo, hi = _r(lambda x: x << k, al), _r(lambda x: x << k, ah)
    if k == 0:
        return a
    if isbv(a):
        return mk(bv=z3.Concat(bvof(a, width(a)), z3.BitVecVal(0, k)), lo=lo, hi=hi)
    if isb2(a):
        return mks(z3.Concat(a.bv, z3.BitVecVal(0, k)), lo, hi)
    return mk(e=ze(a) * (1 << k), lo=lo, hi=hi)


def shr(a, k):
    if isinstance(k, SInt):
        if isbv(a) and k.bv is not None and not k.sg:
            w = max(width(a), width(k))
            return mk(bv=z3.LShR(bvof(a, w), bvof(k, w)), lo=0, hi=rng(a)[1])
        k = ctx().concretize(k)
    if k < 0:
        raise ValueError("negative shift count")
    return fdiv(a, 1 << k)


def _bitop(a, b, f, hi):
    w = max(width(a) if isbv(a) else a.asbv().size(), width(b) if isbv(b) else b.asbv().size())
    return mk(bv=f(bvof(a, w), bvof(b, w)), lo=0, hi=hi)


def band(a, b):
    if isinstance(a, int) and isinstance(b, SInt):
        a, b = b, a
    if isinstance(b, int):
        if b >= 0 and ispow2(b + 1):
            return mod(a, b + 1)
        if b < 0:  # a & ~m  ==  a - (a & m)
            m = -b - 1
            if m == 0:
                return a
            return sub(a, band(a, m))
        if ispow2(b):
            k = b.bit_length() - 1
            return shl(mod(shr(a, k), 2), k)
        return _bitop(mod(a, 1 << b.bit_length()) if not isbv(a) else a, b, lambda x, y: x & y, b)
    if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0 and a.hi is not None and b.hi is not None:
        return _bitop(a, b, lambda x, y: x & y, min(a.hi, b.hi))
    raise Unsupported("& on integers of unknown range")


def bor(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    if None in (al, ah, bl, bh) or al < 0 or bl < 0:
        raise Unsupported("| on integers of unknown range")
    if isbv(a) and isbv(b):
        r = _disjoint(a, b)
        if r is not None:
            return r
    return _bitop(a, b, lambda x, y: x | y, (1 << max(bits_of(ah), bits_of(bh))) - 1)


def bxor(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    if None in (al, ah, bl, bh) or al < 0 or bl < 0:
        raise Unsupported("^ on integers of unknown range")
    if isbv(a) and isbv(b):
        r = _disjoint(a, b)
        if r is not None:
            return r
    return _bitop(a, b, lambda x, y: x ^ y, (1 << max(bits_of(ah), bits_of(bh))) - 1)


def cmp_(a, b, op):
    b0 = b
    b = toint(b)
    if b is None:
        if isinstance(b0, float):
            if b0 == float("inf"):
                return op in ("<", "<=")
            f = b0.as_integer_ratio()
            return cmp_(mul(a, f[1]), f[0], op)
        return NotImplemented
    (al, ah), (bl, bh) = rng(a), rng(b)
    if None not in (al, ah, bl, bh):
        if op == "<":
            if ah < bl:
                return True
            if al >= bh:
                return False
        elif op == "<=":
            if ah <= bl:
                return True
            if al > bh:
                return False
        elif op == ">":
            if al > bh:
                return True
            if ah <= bl:
                return False
        elif op == ">=":
            if al >= bh:
                return True
            if ah < bl:
                return False
        elif op == "==":
            if ah < bl or bh < al:
                return False
    if isbv(a) and isbv(b):
        w = max(width(a), width(b))
        x, y = bvof(a, w), bvof(b, w)
        r = {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE, "==": lambda p, q: p == q}[op](x, y)
        return mkbool(r)
    if isb2(a) and isb2(b):
        w = max(sbits(al, ah), sbits(bl, bh))
        x, y = sbv(a, w), sbv(b, w)
        return mkbool({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op])
    x, y = ze(a), ze(b)
    r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op]
    return mkbool(r)


def int_to_bytes(x, length, byteorder, signed):
    if isinstance(length, SInt):
        length = ctx().concretize(length)
    if signed:
        raise Unsupported("signed to_bytes")
    if isinstance(x, int):
        return x.to_bytes(length, byteorder)
    if x.lo is None or x.lo < 0:
        if bool(x < 0):
            raise OverflowError("can't convert negative int to unsigned")
    if x.hi is None or x.hi >= 1 << (8 * length):
        if bool(x >= (1 << (8 * length))):
            raise OverflowError("int too big to convert")
    out = []
    for i in range(length):
        out.append(mod(shr(x, 8 * i), 256))
    if byteorder == "big":
        out.reverse()
    return SBytes.of(out)


def int_from_bytes(bs, byteorder="big"):
    n = bs.length()
    if isinstance(n, SInt):
        raise Unsupported("int.from_bytes of unknown length")
    t = 0
    items = bs.items()
    if byteorder == "little":
        items = items[::-1]
    for b in items:
        t = (t << 8) + b
    return t


# ------------------------------------------------------------------ if-then-else
def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not (isinstance(a, bool) or isinstance(b, bool)):
        (al, ah), (bl, bh) = rng(a), rng(b)
        lo, hi = _r(min, al, bl), _r(max, ah, bh)
        if isbv(a) and isbv(b) and not (CUR is not None and CUR.intmode and isinstance(a, int) and isinstance(b, int)):
            w = max(width(a), width(b))
            return mk(bv=z3.If(c.b, bvof(a, w), bvof(b, w)), lo=lo, hi=hi)
        if isb2(a) and isb2(b) and not (isinstance(a, int) and isinstance(b, int)):
            w = sbits(lo, hi)
            return mks(z3.If(c.b, sbv(a, w), sbv(b, w)), lo, hi)
        return mk(e=z3.If(c.b, ze(a), ze(b)), lo=lo, hi=hi)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c.b, zb(a), zb(b)))
    if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        la, lb = blen(a), blen(b)
        if isinstance(la, int) and la == lb:
            ia, ib = bitems(a), bitems(b)
            if ia is not None and ib is not None:
                return SBytes.of([ite(c, x, y) for x, y in zip(ia, ib)])
        t = z3.If(c.b, zseq(a), zseq(b))
        return SBytes([("t", t, 0, ite(c, la, lb))])
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SOpaque) and isinstance(b, SOpaque) and a.t.sort() == b.t.sort():
        return SOpaque(z3.If(c.b, a.t, b.t), a.kind)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr(z3.If(c.b, zstr(a), zstr(b)))
    raise Unsupported(f"if-then-else merge of {type(a).__name__}/{type(b).__name__}")


# ------------------------------------------------------------------ bytes
def simp_len(n):
    return n


class SBytes(Sym):
    """chunks: ('c', bytes) | ('e', [byte terms]) | ('t', seq term, offset, length)"""

    __slots__ = ("chunks",)

    def __init__(self, chunks):
        out = []
        for c in chunks:
            if c[0] == "c" and not c[1]:
                continue
            if c[0] == "e":
                if not c[1]:
                    continue
                if all(isinstance(x, int) for x in c[1]):
                    c = ("c", bytes(c[1]))
            if c[0] == "t" and isinstance(c[3], int) and c[3] == 0:
                continue
            if out:
                p = out[-1]
                if p[0] == "c" and c[0] == "c":
                    out[-1] = ("c", p[1] + c[1])
                    continue
                if p[0] == "e" and c[0] == "e":
                    out[-1] = ("e", p[1] + c[1])
                    continue
                if p[0] == "t" and c[0] == "t" and p[1].eq(c[1]) and isinstance(p[2], int) and isinstance(p[3], int) and isinstance(c[2], int) and p[2] + p[3] == c[2]:
                    ln = p[3] + c[3]
                    out[-1] = ("t", p[1], p[2], ln)
                    continue
            out.append(c)
        self.chunks = out

    @staticmethod
    def of(items):
        items = list(items)
        if all(isinstance(x, int) for x in items):
            return bytes(items)
        return SBytes([("e", items)])

    def concrete(self):
        if not self.chunks:
            return b""
        if len(self.chunks) == 1 and self.chunks[0][0] == "c":
            return self.chunks[0][1]
        return None

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __bool__(self):
        n = self.length()
        return bool(n != 0)

    def __iter__(self):
        return iter(self.items())

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else ctx().concretize(n)

    def length(self):
        n = 0
        for c in self.chunks:
            n = n + (len(c[1]) if c[0] in "ce" else c[3])
        return n

    def items(self):
        out = []
        for c in self.chunks:
            if c[0] == "c":
                out += list(c[1])
            elif c[0] == "e":
                out += c[1]
            else:
                n = c[3]
                if isinstance(n, SInt):
                    n = ctx().concretize(n)
                out += [seq_byte(c[1], add(c[2], i)) for i in range(n)]
        return out

    def __add__(self, o):
        if isinstance(o, MBytes):
            o = o.frozen()
        if isinstance(o, (bytes, bytearray)):
            return norm(SBytes(self.chunks + [("c", bytes(o))]))
        if isinstance(o, SBytes):
            return norm(SBytes(self.chunks + o.chunks))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return norm(SBytes([("c", bytes(o))] + self.chunks))
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, SInt):
            n = ctx().concretize(n)
        return norm(SBytes(self.chunks * n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, MBytes):
            o = o.frozen()
        if isinstance(o, (bytes, bytearray, SBytes)):
            return beq(self, o)
        if isinstance(o, Sym):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if k.step == -1 and k.start is None and k.stop is None:
                    return SBytes.of(self.items()[::-1])
                return SBytes.of(self.items()[k])
            return bslice(self, k.start, k.stop)
        n = self.length()
        if isinstance(k, int) and isinstance(n, int):
            if k < 0:
                k += n
            if not 0 <= k < n:
                raise IndexError("index out of range")
            pos = 0
            for c in self.chunks:
                ln = len(c[1]) if c[0] in "ce" else c[3]
                if k < pos + ln:
                    if c[0] in "ce":
                        return c[1][k - pos]
                    return seq_byte(c[1], add(c[2], k - pos))
                pos += ln
        # general
        kk = k
        if isinstance(kk, int) and kk < 0:
            kk = add(n, kk) if isinstance(n, SInt) else kk + n
        elif isinstance(kk, SInt) and (kk.lo is None or kk.lo < 0):
            kk = ite(kk < 0, kk + n, kk)
        if not bool(sand(kk >= 0, kk < n)):
            raise IndexError("index out of range")
        if isinstance(kk, int) and self.chunks:
            c = self.chunks[0]
            if c[0] in "ce" and kk < len(c[1]):
                return c[1][kk]
            if c[0] == "t" and not isinstance(n, int) and len(self.chunks) == 1:
                return seq_byte(c[1], add(c[2], kk))
        return seq_byte(zseq(self), kk)

    def hex(self, *a):
        return ctx().fresh_str("hex")

    def decode(self, *a, **k):
        raise Unsupported("bytes.decode of symbolic bytes")

    def startswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.startswith(x) for x in p])
        if isinstance(p, (bytes, SBytes)):
            n = blen(p)
            return sand(self.length() >= n, beq(bslice(self, 0, n), p))
        raise Unsupported("startswith")

    def endswith(self, p):
        n = blen(p)
        ln = self.length()
        if bool(ln < n):
            return False
        return beq(bslice(self, ln - n, ln), p)

    def __repr__(self):
        return f"SBytes({self.chunks})"


def seq_byte(t, i):
    if t.sort().eq(ABS):
        return SInt(bv=ABS_AT(t, z3.simplify(ze(i))))
    return SInt(bv=z3.simplify(t[ze(i)]))


def norm(b):
    if isinstance(b, SBytes):
        c = b.concrete()
        return b if c is None else c
    return b


def blen(b):
    return b.length() if isinstance(b, SBytes) else len(b)


def bitems(b):
    """explicit byte terms if b has a form without sequence terms"""
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    out = []
    for c in b.chunks:
        if c[0] in "ce":
            out += list(c[1])
        else:
            return None
    return out


def aschunks(b):
    return b.chunks if isinstance(b, SBytes) else [("c", bytes(b))]


def zchunk(c):
    if ctx().absbytes:
        return abs_seq(SBytes([c]))
    if c[0] == "c":
        us = [z3.Unit(z3.BitVecVal(x, 8)) for x in c[1]]
        return us[0] if len(us) == 1 else z3.Concat(*us)
    if c[0] == "e":
        us = [z3.Unit(byte8(x)) for x in c[1]]
        return us[0] if len(us) == 1 else z3.Concat(*us)
    if isinstance(c[2], int) and c[2] == 0 and ctx().seq_len_is(c[1], c[3]):
        return c[1]
    return z3.Extract(c[1], ze(c[2]), ze(c[3]))


def zseq(b):
    if ctx().absbytes:
        return abs_seq(b)
    cs = [c for c in aschunks(b) if not (c[0] == "c" and not c[1])]
    if not cs:
        return z3.Empty(SEQ)
    zs = [zchunk(c) for c in cs]
    return zs[0] if len(zs) == 1 else z3.Concat(*zs)


def bslice(b, i, j):
    if isinstance(b, (bytes, bytearray)) and not isinstance(i, SInt) and not isinstance(j, SInt):
        return bytes(b[i:j])
    n = blen(b)

    def clamp(k, default):
        if k is None:
            return default
        if isinstance(k, int) and isinstance(n, int):
            return max(0, min(n, k + n if k < 0 else k))
        if isinstance(k, int) and k == 0:
            return 0
        neg = k < 0
        if neg is True or (isinstance(neg, SBool) and bool(neg)):
            k = k + n
            if bool(k < 0):
                return 0
            return k
        if bool(k > n):
            return n
        return k

    i, j = clamp(i, 0), clamp(j, n)
    if bool(j <= i):
        return b""
    out = []
    pos = 0
    for c in aschunks(b):
        ln = len(c[1]) if c[0] in "ce" else c[3]
        end = pos + ln
        # part of this chunk inside [i, j)
        if isinstance(end, int) and isinstance(i, int) and end <= i:
            pos = end
            continue
        if isinstance(pos, int) and isinstance(j, int) and pos >= j:
            break
        if bool(end <= i):
            pos = end
            continue
        if bool(pos >= j):
            break
        s = 0 if bool(i <= pos) else i - pos
        e = ln if bool(j >= end) else j - pos
        if c[0] in "ce":
            if isinstance(s, SInt) or isinstance(e, SInt):
                zs = zchunk(c)
                out.append(("t", zs, s, e - s))
            else:
                out.append((c[0], c[1][s:e]))
        else:
            out.append(("t", c[1], add(c[2], s) if not (isinstance(c[2], int) and isinstance(s, int)) else c[2] + s, e - s))
        pos = end
    return norm(SBytes(out))


DER_EQ = None


def beq(a, b):
    """single formula for equality of two byte strings"""
    ca, cb = aschunks(a), aschunks(b)
    if DER_EQ is not None and any(len(c) == 1 and c[0][0] == "t" for c in (ca, cb)):
        r = DER_EQ(a, b)
        if r is not None:
            return r
    la, lb = blen(a), blen(b)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
        # align chunk by chunk where boundaries agree
        conds = []
        qa, qb = list(ca), list(cb)
        ia = ib = 0
        pa, pb = [], []

        def ln(c):
            return len(c[1]) if c[0] in "ce" else c[3]

        while qa and qb:
            x, y = qa[0], qb[0]
            n = min(ln(x), ln(y))
            x1, x2 = split(x, n)
            y1, y2 = split(y, n)
            qa = ([x2] if x2 else []) + qa[1:]
            qb = ([y2] if y2 else []) + qb[1:]
            if x1[0] == "t" and y1[0] == "t":
                if x1[1].eq(y1[1]) and same(x1[2], y1[2]):
                    continue
                conds.append(mkbool(zchunk(x1) == zchunk(y1)))
            elif x1[0] in "ce" and y1[0] in "ce":
                if x1[0] == "c" and y1[0] == "c":
                    if x1[1] != y1[1]:
                        return False
                    continue
                for p, q in zip(x1[1], y1[1]):
                    r = p == q
                    if r is False:
                        return False
                    conds.append(r)
            else:
                t, k = (x1, y1) if x1[0] == "t" else (y1, x1)
                here = []
                for idx, p in enumerate(k[1]):
                    r = seq_byte(t[1], add(t[2], idx)) == p
                    if r is False:
                        return False
                    here.append(r)
                conds += here
                if ctx().absbytes and len(k[1]) >= 8:
                    # extensionality: equal in all bytes exactly when equal as strings
                    ctx()._add(zb(sand(*here)) == (zchunk(t) == zchunk(k)))
        return sand(*conds)
    if len(ca) == len(cb) and all(_samechunk(x, y) for x, y in zip(ca, cb)):
        return True
    if ctx().absbytes:
        i = 0
        while i < min(len(ca), len(cb)) and _samechunk(ca[i], cb[i]):
            i += 1
        ca, cb = ca[i:], cb[i:]
        i = 0
        while i < min(len(ca), len(cb)) and _samechunk(ca[-1 - i], cb[-1 - i]):
            i += 1
        ca, cb = ca[:len(ca) - i], cb[:len(cb) - i]
        a, b = SBytes(ca), SBytes(cb)
        leq = a.length() == b.length()
        if leq is False:
            return False
        if not ca and not cb:
            return True
        if not ca or not cb:
            return leq
        return sand(leq, mkbool(zseq(a) == zseq(b)))
    return mkbool(zseq(a) == zseq(b))


def _samechunk(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == "c":
        return x[1] == y[1]
    if x[0] == "e":
        return len(x[1]) == len(y[1]) and all(same(p, q) for p, q in zip(x[1], y[1]))
    return x[1].eq(y[1]) and same(x[2], y[2]) and same(x[3], y[3])


def same(p, q):
    if isinstance(p, int) or isinstance(q, int):
        return isinstance(p, int) and isinstance(q, int) and p == q
    if p.bv is not None and q.bv is not None:
        return p.sg == q.sg and p.bv.eq(q.bv)
    return p.e.eq(q.e)


def split(c, n):
    if c[0] in "ce":
        return (c[0], c[1][:n]), ((c[0], c[1][n:]) if len(c[1]) > n else None)
    if c[3] == n:
        return c, None
    return ("t", c[1], c[2], n), ("t", c[1], add(c[2], n), c[3] - n)


class MBytes(Sym):
    """mutable byte buffer (bytearray): a list of cells, or (lazily) the content of a byte string of any length"""

    __slots__ = ("_a", "src")

    def __init__(self, items=(), src=None):
        self.src = src
        self._a = None if src is not None else list(items)

    @property
    def a(self):
        if self._a is None:
            self._a, self.src = self.src.items(), None
        return self._a

    @a.setter
    def a(self, v):
        self._a, self.src = v, None

    @staticmethod
    def _chk(v):
        if isinstance(v, SInt):
            if not (v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi <= 255):
                if not bool(sand(v >= 0, v <= 255)):
                    raise ValueError("byte must be in range(0, 256)")
                v = SInt(bv=v.asbv(8) if v.bv is None and v.lo is not None and v.hi is not None and v.lo >= 0 else (z3.Int2BV(v.e, 8) if v.bv is None else (z3.Extract(7, 0, v.bv) if v.bv.size() > 8 else v.bv)))
            return v
        if isinstance(v, SBool):
            return v.asint()
        if not 0 <= int(v) <= 255:
            raise ValueError("byte must be in range(0, 256)")
        return int(v)

    def frozen(self):
        if self.src is not None:
            return self.src
        return SBytes.of(self.a)

    def length(self):
        if self.src is not None:
            return self.src.length()
        return len(self.a)

    def __len__(self):
        if self.src is not None:
            return len(self.src)
        return len(self.a)

    def __iter__(self):
        return iter(list(self.a))

    def __bool__(self):
        if self.src is not None:
            return bool(self.src)
        return bool(self.a)

    def __getitem__(self, k):
        if self.src is not None:
            x = self.src[k]
            if isinstance(k, slice):
                return MBytes(src=x) if isinstance(x, SBytes) else MBytes(x)
            return x
        if isinstance(k, slice):
            return MBytes(self.a[k])
        if isinstance(k, SInt):
            return self.frozen()[k]
        return self.a[k]

    def __setitem__(self, k, v):
        if self.src is not None and not isinstance(k, slice):
            n = self.src.length()
            if not bool(sand(k >= -n, k < n)):
                raise IndexError("bytearray index out of range")
            if not isinstance(k, int) or k < 0:
                k = ite(k < 0, k + n, k)
            v = SBytes.of([MBytes._chk(v)])
            r = self.src[:k] + v + self.src[k + 1:]
            if isinstance(r, SBytes):
                self.src = r
            else:
                self.a = list(r)
            return
        if isinstance(k, slice):
            if isinstance(v, MBytes):
                v = v.a
            elif isinstance(v, SBytes):
                v = v.items()
            self.a[k] = [MBytes._chk(x) for x in v]
            return
        if isinstance(k, SInt):
            if not bool(sand(k >= 0, k < len(self.a))):
                raise IndexError("bytearray index out of range")
            v = MBytes._chk(v)
            self.a = [ite(k == i, v, x) for i, x in enumerate(self.a)]
            return
        if not -len(self.a) <= k < len(self.a):
            raise IndexError("bytearray index out of range")
        self.a[k] = MBytes._chk(v)

    def __add__(self, o):
        if isinstance(o, SBytes) and isinstance(o.length(), SInt):
            return self.frozen() + o  # result of unknown length: immutable view
        return MBytes(self.a + list(o))

    def __radd__(self, o):
        # bytes + bytearray -> bytes
        if isinstance(o, (bytes, SBytes)):
            return o + self.frozen()
        return MBytes(list(o) + self.a)

    def __iadd__(self, o):
        if isinstance(o, SBytes) and isinstance(o.length(), SInt):
            raise Unsupported("in-place extension of a byte buffer by a string of unknown length")
        self.a += list(o)
        return self

    def __mul__(self, n):
        return MBytes(self.a * n)

    def __eq__(self, o):
        if isinstance(o, MBytes):
            o = o.frozen()
        if isinstance(o, (bytes, bytearray, SBytes)):
            return beq(self.frozen(), o)
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def append(self, v):
        self.a.append(MBytes._chk(v))

    def extend(self, v):
        self.a.extend(MBytes._chk(x) for x in v)

    def pop(self, *a):
        return self.a.pop(*a)

    def insert(self, i, v):
        self.a.insert(i, MBytes._chk(v))

    def reverse(self):
        self.a.reverse()

    def copy(self):
        return MBytes(src=self.src) if self.src is not None else MBytes(self.a)

    def hex(self, *a):
        return self.frozen().hex(*a)

    def __repr__(self):
        return f"MBytes({self.src if self.src is not None else self.a})"


# ------------------------------------------------------------------ strings
class SStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        raise Unsupported("hash of symbolic str")

    def __bool__(self):
        return bool(mkbool(z3.Length(self.t) != 0))

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return mkbool(self.t == zstr(o))
        if isinstance(o, Sym):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def length(self):
        return mk(e=z3.Length(self.t), lo=0)

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr(z3.Concat(self.t, zstr(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr(z3.Concat(zstr(o), self.t))
        return NotImplemented

    def startswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.startswith(x) for x in p])
        return mkbool(z3.PrefixOf(zstr(p), self.t))

    def endswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.endswith(x) for x in p])
        return mkbool(z3.SuffixOf(zstr(p), self.t))

    def __contains__(self, p):
        return bool(mkbool(z3.Contains(self.t, zstr(p))))

    def __repr__(self):
        return f"SStr({self.t})"


def zstr(s):
    return s.t if isinstance(s, SStr) else z3.StringVal(s)


# ------------------------------------------------------------------ opaque values
class SOpaque(Sym):
    """element of an uninterpreted sort, e.g. a polynomial seen only through contracts"""

    __slots__ = ("t", "kind")

    def __init__(self, t, kind=None):
        self.t, self.kind = t, kind

    def __eq__(self, o):
        if isinstance(o, SOpaque):
            if o.t.sort() != self.t.sort():
                return False
            return mkbool(self.t == o.t)
        if isinstance(o, Sym):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        raise Unsupported("hash of opaque value")

    def __bool__(self):
        raise Unsupported(f"truth value of opaque {self.kind}")

    def __repr__(self):
        return f"SOpaque({self.t})"


# ------------------------------------------------------------------ ring elements
class SRing(Sym):
    """An integer whose residue mod q is the polynomial `p` (dict: monomial tuple -> coeff);
    lo/hi bound the integer itself.  Exact for + - * and % q."""

    __slots__ = ("q", "p", "lo", "hi")

    def __init__(self, q, p, lo, hi):
        self.q, self.p, self.lo, self.hi = q, p, lo, hi

    def __hash__(self):
        raise Unsupported("hash of ring value")

    def _lift(self, o):
        if isinstance(o, SRing):
            if o.q != self.q:
                raise Unsupported("ring mismatch")
            return o
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SRing(self.q, {(): o % self.q} if o % self.q else {}, o, o)
        return None

    def __add__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        p = dict(self.p)
        q = self.q
        for k, v in o.p.items():
            s = (p.get(k, 0) + v) % q
            if s:
                p[k] = s
            else:
                p.pop(k, None)
        return SRing(q, p, self.lo + o.lo, self.hi + o.hi)

    __radd__ = __add__

    def __neg__(self):
        q = self.q
        return SRing(q, {k: q - v for k, v in self.p.items()}, -self.hi, -self.lo)

    def __sub__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        q = self.q
        p = {}
        for k1, v1 in self.p.items():
            for k2, v2 in o.p.items():
                k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
                s = (p.get(k, 0) + v1 * v2) % q
                if s:
                    p[k] = s
                else:
                    p.pop(k, None)
        ps = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return SRing(q, p, min(ps), max(ps))

    __rmul__ = __mul__

    def __mod__(self, m):
        if m != self.q:
            raise Unsupported(f"ring value modulo {m}")
        if self.lo >= 0 and self.hi < m:
            return self
        return SRing(self.q, self.p, 0, m - 1)

    def __pow__(self, n):
        r = 1
        for _ in range(n):
            r = r * self
        return r

    def equals(self, o):
        """provably equal as integers?  True / False(unknown)"""
        if o is self:
            return True
        o = self._lift(o)
        if o is None or o.p != self.p:
            return False
        return self.lo >= 0 and o.lo >= 0 and self.hi < self.q and o.hi < self.q or (self.lo == self.hi == o.lo == o.hi)

    def __eq__(self, o):
        raise Unsupported("comparison of ring values in code")

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __bool__(self):
        raise Unsupported("truth value of ring value")

    def __floordiv__(self, o):
        raise Unsupported("division of ring value")

    __rshift__ = __and__ = __or__ = __floordiv__

    def __repr__(self):
        return f"SRing({len(self.p)} terms)"


# ------------------------------------------------------------------ generic helpers
def has_sym(x, depth=6, seen=None):
    """does x contain a symbolic value (searching containers and instance attributes)?"""
    if isinstance(x, Sym):
        return True
    if x is None or isinstance(x, (int, str, bytes, float, bool, type)):
        return False
    if depth == 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values()) or any(has_sym(y, depth - 1) for y in x.keys())
    if type(x).__dictoffset__ and (x.__dict__.get("_readOnly") is not None) and ASN_SYM is not None:
        return ASN_SYM(x)
    return False


ASN_SYM = None  # set by pyvc.asn1


class SymKey:
    """a symbolic key of an SDict"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def unkey(k):
    return k.k if isinstance(k, SymKey) else k


class SDict(dict):
    """dict made by interpreted code: may hold symbolic keys (pairwise distinct on the current path)"""

    def __iter__(self):
        return iter([unkey(k) for k in dict.keys(self)])

    def keys(self):
        return [unkey(k) for k in dict.keys(self)] if self.symkeys() else dict.keys(self)

    def items(self):
        return [(unkey(k), v) for k, v in dict.items(self)] if self.symkeys() else dict.items(self)

    def symkeys(self):
        return any(type(k) is SymKey for k in dict.keys(self))

    def raw(self):
        return list(dict.items(self))

    def copy(self):
        return SDict(self.raw())

    def __deepcopy__(self, memo):
        import copy
        return SDict([(SymKey(copy.deepcopy(k.k, memo)) if type(k) is SymKey else copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self.raw()])

    def __reduce__(self):
        return (dict, (dict(self.raw()),))


def deep_eq(a, b):
    """one formula for structural equality"""
    if isinstance(a, MBytes):
        a = a.frozen()
    if isinstance(b, MBytes):
        b = b.frozen()
    if isinstance(a, SRing) or isinstance(b, SRing):
        r = a if isinstance(a, SRing) else b
        o = b if r is a else a
        if r.equals(o):
            return True
        ctx().fail_reason = f"ring normal forms differ: {str(r.p)[:200]} vs {str(getattr(o, 'p', o))[:200]} (bounds {r.lo}..{r.hi} / {getattr(o, 'lo', '')}..{getattr(o, 'hi', '')})"
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        return sand(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return sand(*[deep_eq(a[k], b[k]) for k in a])
    if isinstance(a, Sym):
        r = a.__eq__(b)
        if r is NotImplemented:
            r = b.__eq__(a)
        if r is NotImplemented:
            return False
        return r
    if isinstance(b, Sym):
        return deep_eq(b, a)
    return a == b
