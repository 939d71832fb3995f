"""pyasn1 under the verifier: the containers (Sequence, Choice, SequenceOf) run as they are; the leaf types
accept symbolic octets, integers and strings.  DER encoding is an uninterpreted, deterministic function of the
structure and its leaves; decoding an encoding gives the structure back."""
import hashlib

import z3
from pyasn1 import error
from pyasn1.codec.ber import decoder as bdec
from pyasn1.codec.ber import encoder as benc
from pyasn1.codec.der import decoder as ddec
from pyasn1.codec.der import encoder as denc
from pyasn1.type import base, char, constraint, univ

from . import values as V
from .values import SBool, SBytes, SInt, SStr, Sym, Unsupported

noValue = base.noValue
DONE = []


class SymBits(Sym):
    """value of a BIT STRING of whole octets"""
    __slots__ = ("data",)

    def __init__(self, data):
        self.data = data

    def __eq__(self, o):
        if isinstance(o, SymBits):
            return V.deep_eq(self.data, o.data)
        if isinstance(o, univ.SizedInteger):
            if len(o) % 8:
                return False
            return V.deep_eq(self.data, int(o).to_bytes(len(o) // 8, "big"))
        return False

    def __ne__(self, o):
        return V.snot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic bit string")

    def __len__(self):
        n = V.blen(self.data)
        return 8 * (n if isinstance(n, int) else V.ctx().concretize(n))

    def __repr__(self):
        return "<bits>"


def is_asn(x):
    return isinstance(x, base.Asn1Item)


def asn_sym(x):
    """does the pyasn1 object contain a symbolic leaf?"""
    if isinstance(x, base.SimpleAsn1Type):
        return isinstance(x._value, Sym)
    cv = getattr(x, "_componentValues", noValue)
    if cv is noValue or not cv:
        return False
    for y in (cv.values() if isinstance(cv, dict) else cv):
        if y is not noValue and asn_sym(y):
            return True
    return False


def unwrap(x):
    if isinstance(x, base.SimpleAsn1Type) and isinstance(x._value, Sym):
        return x._value
    return x


def _wrap_cmp(cls, name):
    orig = cls.__dict__.get(name)
    if orig is None:
        return

    def f(self, other):
        if isinstance(self._value, Sym) or (isinstance(other, base.SimpleAsn1Type) and isinstance(other._value, Sym)) or isinstance(other, Sym):
            if self is other:
                return name in ("__eq__", "__le__", "__ge__")
            a = self._value
            b = other._value if isinstance(other, base.SimpleAsn1Type) else other
            if a is noValue or b is noValue:
                raise error.PyAsn1Error(f'Attempted "{name}" operation on ASN.1 schema object')
            if name == "__eq__":
                return V.deep_eq(a, b)
            if name == "__ne__":
                return V.snot(V.deep_eq(a, b))
            if isinstance(a, (SBytes, SymBits, SStr)) or isinstance(b, (SBytes, SymBits, SStr)):
                raise Unsupported("order comparison of symbolic strings")
            return {"__lt__": lambda: a < b, "__le__": lambda: a <= b, "__gt__": lambda: a > b, "__ge__": lambda: a >= b}[name]()
        return orig(self, other)
    setattr(cls, name, f)


def sym_text(v):
    """text of a symbolic leaf: an unknown string determined by the value"""
    c = V.ctx()
    if isinstance(v, SStr):
        return v
    k = ("text", repr(v))
    if k not in c.memo:
        c.memo[k] = c.fresh_str("text")
    return c.memo[k]


def named(self, v):
    """the name of an Integer / Enumerated value, if it has one: branches over the named values"""
    if isinstance(self, univ.Integer) and isinstance(v, V.SInt):
        for n, x in self.namedValues.items():
            if bool(v == int(x)):
                return n
    return None


def install():
    if DONE:
        return
    DONE.append(1)
    for cls in (base.SimpleAsn1Type, univ.Integer, univ.BitString):
        for n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
            _wrap_cmp(cls, n)

    def patch(cls, name, f, static=False):
        orig = cls.__dict__[name]
        if isinstance(orig, classmethod):
            o2 = orig.__func__
            setattr(cls, name, classmethod(lambda c, *a, **k: f(o2, c, *a, **k)))
        else:
            setattr(cls, name, lambda self, *a, **k: f(orig, self, *a, **k))

    # --- octet strings
    def oct_in(orig, self, value):
        if isinstance(value, V.MBytes):
            return V.norm(value.frozen()) if hasattr(V, "norm") else value.frozen()
        if isinstance(value, SBytes):
            return value
        if isinstance(value, Sym):
            raise Unsupported(f"OCTET STRING from {type(value).__name__}")
        if isinstance(value, base.SimpleAsn1Type) and isinstance(value._value, Sym):
            if isinstance(value, univ.OctetString):
                return value._value
            raise Unsupported("OCTET STRING from a symbolic non-octet value")
        return orig(self, value)
    patch(univ.OctetString, "prettyIn", oct_in)

    def as_octets(orig, self, *a, **k):
        return self._value if isinstance(self._value, Sym) else orig(self, *a, **k)
    patch(univ.OctetString, "asOctets", as_octets)

    def oct_contains(orig, self, x):
        if isinstance(self._value, Sym) or isinstance(x, Sym):
            raise Unsupported("membership in symbolic octet string")
        return orig(self, x)
    patch(univ.OctetString, "__contains__", oct_contains)

    # --- integers
    def int_in(orig, self, value):
        if isinstance(value, SInt):
            return value
        if isinstance(value, SBool):
            return value.asint()
        if isinstance(value, base.SimpleAsn1Type) and isinstance(value._value, SInt):
            return value._value
        if isinstance(value, Sym):
            raise Unsupported(f"INTEGER from {type(value).__name__}")
        return orig(self, value)
    patch(univ.Integer, "prettyIn", int_in)

    # --- bit strings
    def bit_in(orig, self, value):
        if isinstance(value, SymBits):
            return value
        if isinstance(value, base.SimpleAsn1Type) and isinstance(value._value, SymBits):
            return value._value
        if isinstance(value, Sym):
            raise Unsupported(f"BIT STRING from {type(value).__name__}")
        return orig(self, value)
    patch(univ.BitString, "prettyIn", bit_in)

    def bit_octets(orig, self):
        return self._value.data if isinstance(self._value, SymBits) else orig(self)
    patch(univ.BitString, "asOctets", bit_octets)

    def from_oct(orig, cls, value, internalFormat=False, prepend=None, padding=0):
        if isinstance(value, V.MBytes):
            value = value.frozen()
        value = unwrap(value)
        if isinstance(value, SBytes):
            if padding or prepend is not None:
                raise Unsupported("BIT STRING with padding")
            return SymBits(value) if internalFormat else cls(SymBits(value))
        return orig(cls, value, internalFormat, prepend, padding)
    patch(univ.BitString, "fromOctetString", from_oct)

    # --- character strings
    def chr_in(orig, self, value):
        if isinstance(value, SStr):
            return value
        if isinstance(value, base.SimpleAsn1Type) and isinstance(value._value, SStr):
            return value._value
        if isinstance(value, Sym):
            raise Unsupported(f"character string from {type(value).__name__}")
        return orig(self, value)
    patch(char.AbstractCharacterString, "prettyIn", chr_in)

    def chr_octets(orig, self, *a, **k):
        if isinstance(self._value, SStr):
            return V.ctx().uf("utf8", ("bytes", None), [self._value])
        return orig(self, *a, **k)
    patch(char.AbstractCharacterString, "asOctets", chr_octets)

    # --- text
    for cls in (base.SimpleAsn1Type, univ.OctetString, univ.Integer, univ.BitString, char.AbstractCharacterString):
        for n in ("prettyPrint", "__str__", "prettyOut"):
            if n in cls.__dict__:
                def pp(orig, self, *a, _n=n, **k):
                    v = a[0] if _n == "prettyOut" and a else self._value
                    if isinstance(v, Sym):
                        n = named(self, v)
                        if n is not None:
                            return n
                        if _n == "__str__":  # host str() must be a real string: only for messages
                            return "<sym>"
                        return sym_text(v)
                    return orig(self, *a, **k)
                patch(cls, n, pp)

    def h(orig, self):
        if isinstance(self._value, Sym):
            raise Unsupported("hash of a symbolic ASN.1 value")
        return orig(self)
    patch(base.SimpleAsn1Type, "__hash__", h)
    univ.Integer.__hash__ = base.SimpleAsn1Type.__hash__

    # --- interpreter protocol (used by the interpreter's len/int/bytes/str)
    def sym_len(self):
        v = self._value
        if isinstance(v, SymBits):
            return V.blen(v.data) * 8
        if isinstance(v, (SBytes, SStr)):
            return v.length()
        return len(self)

    def sym_int(self):
        return self._value if isinstance(self._value, SInt) else int(self)

    def sym_bytes(self):
        if isinstance(self._value, SBytes):
            return self._value
        if isinstance(self._value, Sym):
            return self.asOctets()
        return bytes(self)

    def sym_str(self):
        return (named(self, self._value) or sym_text(self._value)) if isinstance(self._value, Sym) else str(self)
    for n, f in (("sym_len", sym_len), ("sym_int", sym_int), ("sym_bytes", sym_bytes), ("sym_str", sym_str)):
        setattr(base.SimpleAsn1Type, n, f)

    # --- constraints
    def size_test(orig, self, value, idx):
        if isinstance(value, (SBytes, SStr)):
            n = value.length()
            if bool(V.sor(n < self.start, n > self.stop)):
                raise error.ValueConstraintError("size")
            return None
        return orig(self, value, idx)
    patch(constraint.ValueSizeConstraint, "_testValue", size_test)

    def single(orig, self, value, idx):
        if isinstance(value, Sym):
            if not bool(V.sor(*[V.deep_eq(value, x) for x in self._set])):
                raise error.ValueConstraintError("value")
            return None
        return orig(self, value, idx)
    patch(constraint.SingleValueConstraint, "_testValue", single)


def dup(x):
    """copy of the containers; leaves are immutable"""
    if isinstance(x, base.SimpleAsn1Type) or x is noValue:
        return x
    y = object.__new__(type(x))
    y.__dict__.update(x.__dict__)
    cv = x.__dict__.get("_componentValues", noValue)
    if cv is not noValue and cv is not None:
        y.__dict__["_componentValues"] = {k: dup(v) for k, v in cv.items()} if isinstance(cv, dict) else [dup(v) for v in cv]
    return y


# ------------------------------------------------------------------ codec
def shape(x, leaves, out):
    """canonical description of the structure; symbolic or concrete octets, integers and strings are leaves"""
    if isinstance(x, base.SimpleAsn1Type):
        v = x._value
        tag = ",".join(f"{t.tagClass}.{t.tagFormat}.{t.tagId}" for t in x.tagSet.superTags) if x.tagSet else "any"
        out.append("[" + tag + ":")
        if isinstance(v, SymBits):
            out.append("bits")
            leaves.append(v.data)
        elif isinstance(v, (SBytes, SInt, SStr, SBool)):
            out.append(type(v).__name__)
            leaves.append(v)
        elif isinstance(x, char.AbstractCharacterString):
            out.append("SStr")
            leaves.append(str(v))
        elif isinstance(x, univ.OctetString):
            out.append("SBytes")
            leaves.append(bytes(v))
        elif isinstance(x, univ.BitString) and len(v) % 8 == 0:
            out.append("bits")
            leaves.append(x.asOctets())
        elif isinstance(x, univ.Integer) and not isinstance(x, univ.Boolean):
            out.append("SInt")
            leaves.append(int(v))
        else:
            out.append(denc.encode(x).hex())
        out.append("]")
        return
    if isinstance(x, univ.Choice):
        out.append("<" + ",".join(f"{t.tagClass}.{t.tagId}" for t in x.tagSet.superTags) + ":")
        shape(x.getComponent(), leaves, out)
        out.append(">")
        return
    out.append("{" + ",".join(f"{t.tagClass}.{t.tagId}" for t in x.tagSet.superTags) + ":")
    if isinstance(x, (univ.SequenceOf, univ.SetOf)):
        for y in x:
            shape(y, leaves, out)
    else:
        nts = x.componentType.namedTypes if x.componentType else [None] * len(x._componentValues)
        for i, nt in enumerate(nts):
            y = x._componentValues[i] if x._componentValues is not noValue and i < len(x._componentValues) else noValue
            if y is noValue or not y.isValue:
                if nt is not None and (nt.isOptional or nt.isDefaulted):
                    continue
                raise error.PyAsn1Error(f"Component {nt and nt.name} is not a value")
            if nt is not None and nt.isDefaulted and not asn_sym(y) and y == nt.asn1Object:
                continue
            out.append(f"{i}=")
            shape(y, leaves, out)
    out.append("}")


def encode(value, asn1Spec=None, **kw):
    if not is_asn(value):
        if V.has_sym(value):
            raise Unsupported("encode of non-ASN.1 symbolic value")
        return denc.encode(value, asn1Spec=asn1Spec, **kw)
    if not asn_sym(value):
        return denc.encode(value, asn1Spec=asn1Spec, **kw)
    if isinstance(value, univ.Any):
        return value._value
    if not value.isValue:
        raise error.PyAsn1Error("value is not initialised")
    leaves, out = [], []
    shape(value, leaves, out)
    c = V.ctx()
    nm = "DER" + hashlib.sha256("".join(out).encode()).hexdigest()[:16]
    r = c.uf(nm, ("bytes", None), leaves)
    t = r.chunks[0][1]
    if ("der", t.get_id()) not in c.memo:
        c.memo[("der", t.get_id())] = (t, dup(value))
        c._add(V.zlen(t) >= 2)
    return r


def decode(substrate, asn1Spec=None, **kw):
    s = unwrap(substrate)
    if isinstance(s, SymBits):
        raise error.PyAsn1Error("cannot decode a bit string")
    if isinstance(s, V.MBytes):
        s = s.frozen()
    if not isinstance(s, Sym):
        return ddec.decode(substrate, asn1Spec=asn1Spec, **kw)
    if not isinstance(s, SBytes):
        raise Unsupported("decode of a symbolic value")
    c = V.ctx()
    ch = s.chunks
    if ch and ch[0][0] == "t":
        k = c.memo.get(("der", ch[0][1].get_id()))
        if k is not None and isinstance(ch[0][2], int) and ch[0][2] == 0 and c.seq_len_is(ch[0][1], ch[0][3]):
            obj = k[1]
            rest = V.norm(SBytes(ch[1:])) if len(ch) > 1 else b""
            if asn1Spec is None:
                return dup(obj), rest
            if isinstance(asn1Spec, univ.Any) and not asn1Spec.tagSet:
                return asn1Spec.clone(SBytes(ch[:1])), rest
            r = fit(obj, asn1Spec)
            if r is not None:
                return r, rest
            raise Unsupported(f"decode of {type(obj).__name__} as {type(asn1Spec).__name__}")
    hook = getattr(c, "decode_hook", None)
    if hook is not None:
        return hook(s, asn1Spec)
    raise Unsupported("decode of unknown octets")


class Unknown(Exception):
    """the encodings cannot be compared part by part"""


def parse(b):
    """the DER elements of concrete octets; raises Unknown when they are not DER"""
    out = []
    i = 0
    while i < len(b):
        t = b[i]
        if t & 31 == 31 or i + 2 > len(b):
            raise Unknown
        n, j = b[i + 1], i + 2
        if n >= 128:
            k = n - 128
            n, j = int.from_bytes(b[j:j + k], "big"), j + k
            if k == 0 or n < 128 or n.bit_length() <= 8 * (k - 1):
                raise Unknown
        if j + n > len(b):
            raise Unknown
        c = b[j:j + n]
        out.append(("c", t & 192, t & 31, parse(c)) if t & 32 else ("p", t & 192, t & 31, "raw", c))
        i = j + n
    return out


def tlv(x):
    """the DER element of the structure, leaves as they are"""
    if not asn_sym(x):
        return parse(denc.encode(x))[0]
    tags = [(t.tagClass, t.tagId) for t in x.tagSet.superTags] if x.tagSet else []
    if isinstance(x, univ.Any):
        k = V.ctx().memo.get(("der", x._value.chunks[0][1].get_id())) if isinstance(x._value, SBytes) and len(x._value.chunks) == 1 and x._value.chunks[0][0] == "t" else None
        if k is None or not V.ctx().seq_len_is(x._value.chunks[0][1], x._value.chunks[0][3]):
            raise Unknown
        r = tlv(k[1])
    elif isinstance(x, base.SimpleAsn1Type):
        v = x._value
        if isinstance(x, char.AbstractCharacterString) and not isinstance(x, (char.UTF8String, char.PrintableString, char.IA5String, char.VisibleString)):
            raise Unknown
        kind = "bits" if isinstance(v, SymBits) else {SBytes: "bytes", SInt: "int", SStr: "str", SBool: "bool"}.get(type(v))
        if kind is None or not tags:
            raise Unknown
        r = ("p", tags[0][0], tags[0][1], kind, v.data if kind == "bits" else v)
        tags = tags[1:]
    elif isinstance(x, univ.Choice):
        r = tlv(x.getComponent())
    else:
        if isinstance(x, (univ.SetOf, univ.Set)):
            raise Unknown
        if isinstance(x, univ.SequenceOf):
            ch = [tlv(y) for y in x]
        else:
            ch = []
            nts = x.componentType.namedTypes if x.componentType else [None] * len(x._componentValues)
            for i, nt in enumerate(nts):
                y = x._componentValues[i] if i < len(x._componentValues) else noValue
                if y is noValue or not y.isValue or (nt is not None and nt.isDefaulted and not asn_sym(y) and y == nt.asn1Object):
                    continue
                if nt is not None and nt.isDefaulted and asn_sym(y):
                    raise Unknown
                ch.append(tlv(y))
        r = ("c", tags[0][0], tags[0][1], ch)
        tags = tags[1:]
    for c, i in tags:
        r = ("c", c, i, [r])
    return r


def tlv_eq(a, b):
    if a[:3] != b[:3]:
        return False
    if a[0] == "c":
        if len(a[3]) != len(b[3]):
            return False
        return V.sand(*[tlv_eq(x, y) for x, y in zip(a[3], b[3])])
    if a[3] == b[3]:
        return V.deep_eq(a[4], b[4])
    if b[3] != "raw":
        a, b = b, a
    if a[3] == "raw":
        a, b = b, a
    k, v, r = a[3], a[4], b[4]
    if b[3] != "raw":
        raise Unknown
    if k == "bytes":
        return V.deep_eq(v, r)
    if k == "int":
        if not r or (len(r) > 1 and (r[0], r[1] >> 7) in ((0, 0), (255, 1))):
            return False
        return V.deep_eq(v, int.from_bytes(r, "big", signed=True))
    if k == "bool":
        return V.deep_eq(v, r != b"\0")
    if k == "bits":
        return V.deep_eq(v, r[1:]) if r[:1] == b"\0" else False
    try:
        return V.deep_eq(v, r.decode("utf-8"))
    except UnicodeDecodeError:
        return False


def der_eq(a, b):
    """equality of two byte strings at least one of which is an encoding: DER is injective, so the elements are compared.
    None when this cannot be told part by part"""
    c = V.ctx()

    def elem(x):
        if isinstance(x, (bytes, bytearray)):
            r = parse(bytes(x))
            if len(r) != 1:
                raise Unknown
            return r[0], None
        if not isinstance(x, SBytes):
            raise Unknown
        if x.concrete() is not None:
            return elem(x.concrete())
        ch = x.chunks
        if len(ch) != 1 or ch[0][0] != "t" or not (isinstance(ch[0][2], int) and ch[0][2] == 0):
            raise Unknown
        k = c.memo.get(("der", ch[0][1].get_id()))
        if k is None or not c.seq_len_is(ch[0][1], ch[0][3]):
            raise Unknown
        return tlv(k[1]), ch[0][1]
    try:
        (x, p), (y, q) = elem(a), elem(b)
        if p is not None and q is not None and p.eq(q):
            return True
        r = tlv_eq(x, y)
    except Unknown:
        return None
    if p is not None and q is not None:
        c._add((p == q) == V.zb(r))
    return r


def settle(x, spec):
    """what a decoder returns for a structure that was encoded: open fields hold the octets of their element (in place)"""
    if isinstance(spec, univ.Any) and not isinstance(x, univ.Any) and x is not noValue and x.isValue:
        return spec.clone(encode(x))
    cv = x.__dict__.get("_componentValues", noValue) if is_asn(x) else noValue
    if cv is noValue or not cv:
        return x
    if isinstance(x, (univ.SequenceOf, univ.SetOf)):
        for k in cv if isinstance(cv, dict) else range(len(cv)):
            if spec.componentType is not None:
                cv[k] = settle(cv[k], spec.componentType)
    elif getattr(spec, "componentType", None):
        for i, nt in enumerate(spec.componentType.namedTypes):
            if i < len(cv) and cv[i] is not noValue and cv[i].isValue:
                cv[i] = settle(cv[i], nt.asn1Object)
    return x


def fit(obj, spec):
    """the structure read with another schema: same class; raises PyAsn1Error when the outer tags differ"""
    if type(obj) is type(spec) and obj.tagSet == spec.tagSet:
        return settle(dup(obj), spec)
    if spec.tagSet and obj.tagSet and obj.tagSet != spec.tagSet:
        raise error.PyAsn1Error("tag mismatch")
    a, b = getattr(obj, "componentType", None), getattr(spec, "componentType", None)
    if a and b and hasattr(a, "namedTypes") and hasattr(b, "namedTypes") and [(n.name, n.asn1Object.tagSet) for n in a.namedTypes] == [(n.name, n.asn1Object.tagSet) for n in b.namedTypes]:
        r = spec.clone()
        for n in a.namedTypes:
            v = obj.getComponentByName(n.name, default=None, instantiate=False)
            if v is not None:
                r.setComponentByName(n.name, settle(dup(v), spec.componentType[n.name].asn1Object), verifyConstraints=False, matchTags=False, matchConstraints=False)
        return r
    if isinstance(obj, base.SimpleAsn1Type) and isinstance(spec, base.SimpleAsn1Type) and obj.tagSet == spec.tagSet:
        return spec.clone(obj._value)
    return None


V.ASN_SYM = asn_sym
V.DER_EQ = der_eq


def codec_models():
    return {denc.encode: encode, benc.encode: encode, ddec.decode: decode, bdec.decode: decode}
