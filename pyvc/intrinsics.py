"""Contract vocabulary used by the harness functions.  Under the verifier these act on the current
proof context; run natively (replay, bounded stand-in) they check the concrete values."""
import os

from . import values as V


class Violated(Exception):
    """a contract clause is false on a concrete run of the real code"""


class Skip(Exception):
    """concrete input outside the precondition"""


TRACE = []


def ensure(cond, label):
    """postcondition / lemma / assertion"""
    c = V.CUR
    if c is None:
        COUNTS[label] = COUNTS.get(label, 0) + 1
        if not cond:
            raise Violated(label)
        return None
    return c.prove(cond, label)


COUNTS = {}


def ensure_eq(a, b, label):
    c = V.CUR
    if c is None:
        COUNTS[label] = COUNTS.get(label, 0) + 1
        if not native_eq(a, b):
            raise Violated(f"{label}: got {short(a)}, specification gives {short(b)}")
        return None
    return c.prove(V.deep_eq(a, b), label)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def native_eq(a, b):
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(native_eq(x, y) for x, y in zip(a, b))
    return a == b


def assume(cond):
    """precondition"""
    c = V.CUR
    if c is None:
        if not cond:
            raise Skip()
        return None
    return c.assume(cond)


class Outcome:
    """result of a call: `ok` and `value`, or the exception class"""

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return f"Outcome(ok={self.ok}, value={short(self.value)}, exc={self.exc!r})"


def outcome(fn, *a, **k):
    """run fn; capture its result or the exception it raises"""
    c = V.CUR
    if c is None:
        try:
            return Outcome(True, fn(*a, **k))
        except (Violated, Skip):
            raise
        except Exception as e:  # noqa: BLE001
            return Outcome(False, None, e)
    from .interp import PyRaise
    try:
        return Outcome(True, c.interp.call(fn, a, k))
    except PyRaise as p:
        return Outcome(False, None, p.exc)


def rejects(fn, *a, **k):
    return not outcome(fn, *a, **k).ok


def is_exc(o, *types):
    """outcome o is an exception of one of these types"""
    return (not o.ok) and isinstance(o.exc, types)


def truth(x):
    """decide x on this path (branches)"""
    c = V.CUR
    if c is None:
        return bool(x)
    return c.interp.truth(x)


def all_of(*xs):
    if V.CUR is None:
        return all(bool(x) for x in xs)
    return V.sand(*xs)


def any_of(*xs):
    if V.CUR is None:
        return any(bool(x) for x in xs)
    return V.sor(*xs)


def not_(x):
    return (not x) if V.CUR is None else V.snot(x)


def implies(a, b):
    return any_of(not_(a), b)


def iff(a, b):
    if V.CUR is None:
        return bool(a) == bool(b)
    if not isinstance(a, V.SBool) and not isinstance(b, V.SBool):
        return bool(a) == bool(b)
    return V.deep_eq(a, b)


def eq(a, b):
    if V.CUR is None:
        return native_eq(a, b)
    return V.deep_eq(a, b)


def if_(c, a, b):
    if V.CUR is None:
        return a if c else b
    return V.ite(c, a, b)


def symbolic():
    """True under the verifier, False in concrete runs"""
    return V.CUR is not None


def cover(label):
    """reachability witness (vacuity guard): at least one path must get here"""
    c = V.CUR
    if c is None:
        COVERED.add(label)
        return None
    if label not in c.covers:
        import z3
        if c._check() == z3.sat:
            c.covers.add(label)
    return None


COVERED = set()


def ghost(name):
    """ghost value recorded by a contract stub, loop contract or model; natively only "urandom" (what the operating
    system's random source returned so far)"""
    g = GHOST if V.CUR is None else V.CUR.ghost
    if name == "urandom":
        return list(g.get(name, []))
    return g[name]


GHOST = {}
_urandom = os.urandom


def recording_urandom(n):
    r = _urandom(n)
    GHOST.setdefault("urandom", []).append(r)
    return r
