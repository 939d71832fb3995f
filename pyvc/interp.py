"""Symbolic interpreter for the Python AST of the real functions (parsed from /repo on every run)."""
import ast
import builtins
import inspect
import linecache
import logging
import math
import os
import sys
import types

import z3

from . import asn1
from . import values as V
from .values import (MBytes, SBool, SBytes, SInt, SOpaque, SRat, SRing, SStr, Sym, Unsupported, deep_eq, has_sym, ite,
                     mkbool, sand, snot, sor)

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASN_ITEM = asn1.base.Asn1Item
ASN_MODULES = ("pyasn1.type", "pyasn1_alt_modules", "pyasn1_modules")


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


class PathStop(Exception):
    """this path ends here (infeasible assumption or loop cut)"""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


_MOD_AST = {}


def module_ast(filename):
    if filename not in _MOD_AST:
        with open(filename, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                idx.setdefault(line, []).append(n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault(("l", n.lineno), []).append(n)
        _MOD_AST[filename] = (tree, idx)
    return _MOD_AST[filename]


def func_ast(fn):
    code = fn.__code__
    fname = code.co_filename
    tree, idx = module_ast(fname)
    if code.co_name == "<lambda>":
        c = idx.get(("l", code.co_firstlineno), [])
        if len(c) != 1:
            raise Unsupported("ambiguous lambda")
        return c[0]
    for n in idx.get(code.co_firstlineno, []):
        if n.name == code.co_name:
            return n
    raise Unsupported(f"no source for {fn.__qualname__}")


def interpretable(fn):
    f = fn.__code__.co_filename
    return f.startswith(REPO + "/") or f.startswith(VERIF + "/props") or f.startswith(VERIF + "/spec")


class Frame:
    __slots__ = ("locals", "globals", "parent", "fn", "nonlocals", "globalnames", "cls", "first")

    def __init__(self, globals_, parent=None, fn=None, cls=None):
        self.locals = {}
        self.globals = globals_
        self.parent = parent
        self.fn = fn
        self.nonlocals = set()
        self.globalnames = set()
        self.cls = cls
        self.first = None


class IFunc:
    """closure created inside interpreted code"""

    def __init__(self, interp, node, frame, defaults, kwdefaults, name):
        self.interp, self.node, self.frame = interp, node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name
        self.__qualname__ = name

    def __call__(self, *a, **k):
        return self.interp.call_ifunc(self, a, k)


class BoundI:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


_BIN = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
    ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
    ast.MatMult: lambda a, b: a @ b,
}


def _iop(op, a, b):
    if isinstance(op, ast.Add):
        if isinstance(a, list):
            a += list(b)
            return a
        if isinstance(a, MBytes):
            a += b
            return a
    if isinstance(a, list) and isinstance(op, ast.Mult):
        a *= b
        return a
    if isinstance(a, (set, dict)) and not isinstance(op, ast.Add):
        import operator
        f = {ast.BitOr: operator.ior, ast.BitAnd: operator.iand, ast.Sub: operator.isub, ast.BitXor: operator.ixor}[type(op)]
        return f(a, b)
    return _BIN[type(op)](a, b)


NATIVE_OK_TYPES = (type(None),)


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.stubs = ctx.stubs
        self.depth = 0

    # ------------------------------------------------------------ calls
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, IFunc):
            return self.call_ifunc(fn, args, kwargs)
        if isinstance(fn, BoundI):
            return self.call(fn.f, (fn.obj, *args), kwargs)
        if isinstance(fn, types.MethodType):
            func = fn.__func__
            return self.call(func, (fn.__self__, *args), kwargs)
        raw = getattr(fn, "__wrapped__", None)
        st = self.stubs.get(id(fn))
        if st is None and raw is not None:
            st = self.stubs.get(id(raw))
        if st is not None:
            return self.native(st[1], args, kwargs)
        if isinstance(fn, types.FunctionType):
            if fn.__module__ == "pyvc.intrinsics":
                return fn(*args, **kwargs)
            if (fn.__module__ or "").startswith(ASN_MODULES) or (fn.__module__ == "pyvc.asn1" and args and isinstance(args[0], (ASN_ITEM, type))):
                return self.asn_call(fn, args, kwargs)
            if (fn.__module__ or "").startswith("pyvc."):
                return self.native(fn, args, kwargs)
            if interpretable(fn):
                return self.call_function(fn, args, kwargs)
        if isinstance(fn, type):
            return self.construct(fn, args, kwargs)
        m = self.model(fn)
        if m is not None:
            return self.native(m, args, kwargs)
        self_ = getattr(fn, "__self__", None)
        if isinstance(self_, Sym):
            return self.native(fn, args, kwargs)
        if self_ is not None and not isinstance(self_, types.ModuleType) and isinstance(fn, types.BuiltinMethodType):
            m = self.model(getattr(type(self_), fn.__name__, None)) if type(self_).__module__.startswith("cryptography.") else None
            if m is not None:
                return self.native(m, (self_, *args), kwargs)
            return self.builtin_method(self_, fn, args, kwargs)
        if self.any_sym(args, kwargs):
            raise Unsupported(f"call of {getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', fn)} with symbolic arguments")
        if any(isinstance(a, (IFunc, BoundI)) for a in list(args) + list(kwargs.values())):
            pass
        return self.native(fn, args, kwargs)

    def asn_call(self, fn, args, kwargs):
        """methods of pyasn1 types run as they are (leaf types accept symbolic values, see pyvc.asn1)"""
        if fn.__name__ in ("prettyPrint", "__str__", "prettyPrintType") and args and isinstance(args[0], ASN_ITEM) and asn1.asn_sym(args[0]) \
                and not isinstance(args[0], asn1.base.SimpleAsn1Type):
            return self.ctx.fresh_str("pretty")
        return self.native(fn, args, kwargs)

    def any_sym(self, args, kwargs):
        return any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values())

    def native(self, fn, args, kwargs):
        try:
            return fn(*args, **kwargs)
        except (Unsupported, PathStop, PyRaise, _Ret, _Brk, _Cont, RecursionError, V.z3.Z3Exception, self.ctx.Abort, self.ctx.NeedFork):
            raise
        except Exception as e:  # an exception of the modelled program
            raise PyRaise(e) from e

    def construct(self, cls, args, kwargs):
        h = self.class_model(cls)
        if h is not None:
            return self.native(h, args, kwargs)
        if issubclass(cls, BaseException):
            args = [a if not isinstance(a, Sym) else "<sym>" for a in args]
            kwargs = {k: (v if not isinstance(v, Sym) else "<sym>") for k, v in kwargs.items()}
            return self.native(cls, args, kwargs)
        init = getattr(cls, "__init__", None)
        if isinstance(init, types.FunctionType) and interpretable(init) and cls.__new__ is object.__new__ and type(cls).__call__ in (type.__call__,):
            if getattr(cls, "__abstractmethods__", None):
                return self.native(cls, args, kwargs)
            try:
                func_ast(init)
            except Unsupported:
                init = None
            if init is not None:
                obj = cls.__new__(cls)
                self.call(init, (obj, *args), kwargs)
                return obj
        if issubclass(cls, ASN_ITEM):
            return self.native(cls, args, kwargs)
        import dataclasses
        if dataclasses.is_dataclass(cls):
            if hasattr(cls, "__post_init__") and self.any_sym(args, kwargs):
                raise Unsupported("dataclass post-init with symbolic values")
            return self.native(cls, args, kwargs)
        if self.any_sym(args, kwargs):
            raise Unsupported(f"constructor {cls.__name__} with symbolic arguments")
        return self.native(cls, args, kwargs)

    def call_function(self, fn, args, kwargs):
        node = func_ast(fn)
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsupported("async function")
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        parent = None
        if cells:
            parent = Frame(fn.__globals__)
            parent.locals = dict(cells)
        fr = Frame(fn.__globals__, parent, fn, cells.get("__class__"))
        self.bind(node.args, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs, fr, fn.__qualname__)
        if fn.__code__.co_filename.startswith(REPO):
            self.ctx.touch(fn)
        return self.run_body(node, fr)

    def call_ifunc(self, f, args, kwargs):
        fr = Frame(f.frame.globals, f.frame, f, f.frame.cls)
        self.bind(f.node.args, f.defaults, f.kwdefaults, args, kwargs, fr, f.__name__)
        return self.run_body(f.node, fr)

    def run_body(self, node, fr):
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported("recursion too deep")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node)):
                raise Unsupported("generator function")
            try:
                self.block(node.body, fr)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, a, defaults, kwdefaults, args, kwargs, fr, name):
        L = fr.locals
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if pos:
            fr.first = pos[0]
        if len(args) > len(pos) and not a.vararg:
            raise PyRaise(TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given"))
        for n, v in zip(pos, args):
            L[n] = v
        if a.vararg:
            L[a.vararg.arg] = tuple(args[len(pos):])
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in L:
                    raise PyRaise(TypeError(f"{name}() got multiple values for argument '{k}'"))
                L[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise PyRaise(TypeError(f"{name}() got an unexpected keyword argument '{k}'"))
        if a.kwarg:
            L[a.kwarg.arg] = rest
        nd = len(defaults)
        for i, n in enumerate(pos):
            if n not in L:
                j = i - (len(pos) - nd)
                if j >= 0:
                    L[n] = defaults[j]
                else:
                    raise PyRaise(TypeError(f"{name}() missing required argument: '{n}'"))
        for n in kwonly:
            if n not in L:
                if n in kwdefaults:
                    L[n] = kwdefaults[n]
                else:
                    raise PyRaise(TypeError(f"{name}() missing keyword-only argument: '{n}'"))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, SBool):
            return self.ctx.choose(v.b)
        if isinstance(v, Sym):
            return bool(v)
        tl = getattr(type(v), "__bool__", None) or getattr(type(v), "__len__", None)
        if isinstance(tl, types.FunctionType) and interpretable(tl):
            return self.truth(self.call(tl, (v,)))
        return self.native(bool, (v,), {})

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.ctx.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise _Ret(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise _Brk()

    def s_Continue(self, s, fr):
        raise _Cont()

    def s_Global(self, s, fr):
        fr.globalnames.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            mod = self.native(__import__, (a.name,), {})
            if a.asname:
                for part in a.name.split(".")[1:]:
                    mod = getattr(mod, part)
                self.store_name(a.asname, mod, fr)
            else:
                self.store_name(a.name.split(".")[0], mod, fr)

    def s_ImportFrom(self, s, fr):
        mod = self.native(__import__, (s.module or "", fr.globals, None, [a.name for a in s.names], s.level), {})
        for a in s.names:
            try:
                v = getattr(mod, a.name)
            except AttributeError as e:
                raise PyRaise(ImportError(str(e)))
            self.store_name(a.asname or a.name, v, fr)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            self.store_name(t.id, self.iop(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.iop(s.op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported("augassign target")

    def iop(self, op, a, b):
        return self.native(_iop, (op, a, b), {})

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                if has_sym(k):
                    raise Unsupported("del with symbolic index")
                self.native(lambda: o.__delitem__(k), (), {})
            else:
                raise Unsupported("del target")

    def s_If(self, s, fr):
        c = self.ev(s.test, fr)
        if isinstance(c, SBool) and self.ctx.merge and _mergeable(s):
            if self.try_merge(c, s, fr):
                return
        if self.truth(c):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def try_merge(self, c, s, fr):
        """both branches only assign local names (or return) simple values: join them with if-then-else
        instead of forking.  Any doubt (exception, fork, heap value) falls back to forking."""
        known = self.ctx.decided(c.b)
        if known is not None:
            self.block(s.body if known else s.orelse, fr)
            return True
        base = dict(fr.locals)
        outs = []
        for cond, blk in ((c.b, s.body), (z3.Not(c.b), s.orelse)):
            fr.locals = dict(base)
            self.ctx.push(cond)
            ret = None
            try:
                for st in blk:
                    if isinstance(st, ast.AugAssign):
                        old = self.load_name(st.target.id, fr)
                        if not isinstance(old, (int, SInt, SBool, bool)):
                            raise _NoMerge()
                    self.stmt(st, fr)
            except _Ret as r:
                ret = r
            except (PyRaise, Unsupported, _NoMerge, self.ctx.NeedFork):
                fr.locals = base
                return False
            finally:
                self.ctx.pop()
            outs.append((fr.locals, ret))
        fr.locals = base
        (la, ra), (lb, rb) = outs
        if (ra is None) != (rb is None):
            return False
        try:
            if ra is not None:
                v = _merge_val(c, ra.v, rb.v)
            else:
                if set(la) != set(lb):
                    return False
                m = {k: (la[k] if la[k] is lb[k] else _merge_val(c, la[k], lb[k])) for k in la}
        except (Unsupported, _NoMerge):
            return False
        if ra is not None:
            raise _Ret(v)
        fr.locals = m
        return True

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError())

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(fr.locals.get("__exc__") or RuntimeError("re-raise"))
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = self.construct(e, (), {})
        if s.cause is not None:
            self.ev(s.cause, fr)
        raise PyRaise(e)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = isinstance(p.exc, t)
                    if ok:
                        prev = fr.locals.get("__exc__")
                        fr.locals["__exc__"] = p.exc
                        if h.name:
                            fr.locals[h.name] = p.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.locals["__exc__"] = prev
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported("multi-item with")
        it = s.items[0]
        cm = self.ev(it.context_expr, fr)
        v = self.call(self.getattr(cm, "__enter__"), ())
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        except PyRaise as p:
            if not self.truth(self.call(self.getattr(cm, "__exit__"), (type(p.exc), p.exc, None))):
                raise
        except (_Ret, _Brk, _Cont):
            self.call(self.getattr(cm, "__exit__"), (None, None, None))
            raise
        else:
            self.call(self.getattr(cm, "__exit__"), (None, None, None))

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), (f,))
        self.store_name(s.name, f, fr)

    def make_func(self, node, fr, name):
        a = node.args
        return IFunc(self, node, fr, tuple(self.ev(d, fr) for d in a.defaults),
                     {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, name)

    def loop_contract(self, s, fr):
        d = self.ctx.loops.get(id(fr.fn)) if fr.fn is not None else None
        if not d:
            return None
        order = [n for n in _own_nodes_inorder(func_ast(fr.fn)) if isinstance(n, (ast.While, ast.For))]
        for i, n in enumerate(order):
            if n is s:
                return d[1].get(i)
        return None

    def contract_while(self, s, fr, lc):
        """invariant rule: prove it on entry, forget what the body may change, assume it, run the body
        once from an arbitrary state, prove it again"""
        self.ctx.prove(lc.inv(self, fr.locals, True), "loop invariant holds on entry")
        stored = {n.id for b in s.body + [s.test] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for b in s.body for n in ast.walk(b)):
            raise Unsupported("global/nonlocal in contracted loop")
        new = lc.havoc(self, fr.locals)
        for n in stored:
            fr.locals.pop(n, None)
        for n, v in new.items():
            fr.locals[n] = v
        if not self.truth(self.ev(s.test, fr)):
            self.block(s.orelse, fr)
            lc.exit(self, fr.locals)
            return
        before = dict(fr.locals)
        try:
            self.block(s.body, fr)
        except _Brk:
            lc.exit(self, fr.locals)
            return
        except _Cont:
            pass
        again = True if lc.exit_at_head else self.truth(self.ev(s.test, fr))
        if not again:  # the loop ends here: continue with the state this iteration left
            self.block(s.orelse, fr)
            lc.exit(self, fr.locals)
            return
        self.ctx.prove(lc.inv(self, fr.locals, False), "loop invariant is preserved")
        lc.step(self, before, fr.locals)
        raise PathStop()

    def s_While(self, s, fr):
        lc = self.loop_contract(s, fr) if self.ctx.loops else None
        if lc is not None:
            return self.contract_while(s, fr, lc)
        n = 0
        while True:
            if not self.truth(self.ev(s.test, fr)):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.ctx.max_loop:
                raise Unsupported("while loop exceeds unrolling limit")
            try:
                self.block(s.body, fr)
            except _Brk:
                return
            except _Cont:
                continue

    def contract_for(self, s, fr, lc, it):
        """invariant rule for a loop over a concrete sequence: arbitrary position k, arbitrary state"""
        items = list(self.iterate(it))
        self.ctx.prove(lc.inv(self, fr.locals, 0, items), "loop invariant holds on entry")
        stored = {n.id for b in s.body + [s.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        k = self.ctx.concretize(self.ctx.fresh_int("k", 0, len(items)))
        new = lc.havoc(self, fr.locals, k, items)
        for n in stored:
            fr.locals.pop(n, None)
        fr.locals.update(new)
        if k == len(items):
            self.block(s.orelse, fr)
            lc.exit(self, fr.locals)
            return
        before = dict(fr.locals)
        self.assign(s.target, items[k], fr)
        try:
            self.block(s.body, fr)
        except _Brk:
            lc.exit(self, fr.locals)
            return
        except _Cont:
            pass
        self.ctx.prove(lc.inv(self, fr.locals, k + 1, items), "loop invariant is preserved")
        lc.step(self, before, fr.locals, k, items)
        raise PathStop()

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        lc = self.loop_contract(s, fr) if self.ctx.loops else None
        if lc is not None:
            return self.contract_for(s, fr, lc, it)
        hook = getattr(it, "sym_for", None)
        if hook is not None:
            return hook(self, s, fr)
        for v in self.iterate(it):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(s.orelse, fr)

    def iterate(self, it):
        if isinstance(it, (IFunc, BoundI)):
            raise Unsupported("iterate function")
        f = getattr(type(it), "__iter__", None)
        if isinstance(f, types.FunctionType) and interpretable(f):
            raise Unsupported("user-defined iterator")
        try:
            i = iter(it)
        except TypeError as e:
            raise PyRaise(e)
        n = 0
        while True:
            try:
                v = self.native_next(i)
            except StopIteration:
                return
            n += 1
            if n > 2000000:
                raise Unsupported("iteration limit")
            yield v

    def native_next(self, i):
        try:
            return next(i)
        except (StopIteration, Unsupported, PathStop, PyRaise, self.ctx.Abort, self.ctx.NeedFork):
            raise
        except Exception as e:
            raise PyRaise(e)

    # ------------------------------------------------------------ names / targets
    def store_name(self, n, v, fr):
        if n in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if n in p.locals:
                    p.locals[n] = v
                    return
                p = p.parent
        if n in fr.globalnames:
            raise Unsupported("assignment to module global")
        fr.locals[n] = v

    def load_name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.locals:
                return f.locals[n]
            f = f.parent
        if n in fr.globals:
            return fr.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyRaise(NameError(f"name '{n}' is not defined"))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)):
                vals = list(v)
            else:
                vals = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"))
                parts = vals[:i] + [vals[i:len(vals) - k]] + vals[len(vals) - k:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            if len(vals) != len(t.elts):
                raise PyRaise(ValueError("wrong number of values to unpack"))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, n, v):
        d = getattr(type(o), n, None)
        if isinstance(d, property):
            if d.fset is None:
                raise PyRaise(AttributeError(n))
            self.call(d.fset, (o, v))
            return
        self.native(setattr, (o, n, v), {})

    def getattr(self, o, n):
        h = getattr(type(o), "sym_getattr", None)
        if h is not None:
            return self.native(h, (o, n), {})
        if isinstance(o, (SStr,)) and not hasattr(o, n):
            raise Unsupported(f"str.{n} on symbolic string")
        if isinstance(o, Sym):
            try:
                return getattr(o, n)
            except AttributeError:
                raise Unsupported(f"attribute {n} of {type(o).__name__}")
        t = type(o)
        d = inspect.getattr_static(t, n, None) if not isinstance(o, (type, types.ModuleType)) else None
        if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and (interpretable(d.fget) or id(d.fget) in self.stubs):
            return self.call(d.fget, (o,))
        if isinstance(o, super):
            return self.native(getattr, (o, n), {})
        return self.native(getattr, (o, n), {})

    def getitem(self, o, k):
        if isinstance(k, Sym) or (isinstance(k, slice) and has_sym([k.start, k.stop, k.step])):
            if isinstance(o, (bytes, bytearray)):
                return self.native(lambda: SBytes([("c", bytes(o))])[k], (), {})
            if isinstance(o, (list, tuple)) and isinstance(k, SInt):
                return self.index_list(o, k)
            if isinstance(o, (list, tuple)) and isinstance(k, slice):
                c = self.ctx.concretize
                k = slice(*[c(x) if isinstance(x, SInt) else x for x in (k.start, k.stop, k.step)])
                return o[k]
            if isinstance(o, dict):
                return self.dict_get(o, k)
            if isinstance(o, str) and isinstance(k, (SInt, slice)):
                raise Unsupported("symbolic index into str")
        if isinstance(o, dict) and (has_sym(k) or (isinstance(o, V.SDict) and o.symkeys())):
            return self.dict_get(o, k)
        f = getattr(type(o), "__getitem__", None)
        if isinstance(f, types.FunctionType) and interpretable(f):
            return self.call(f, (o, k))
        return self.native(lambda: o[k], (), {})

    def index_list(self, o, k):
        n = len(o)
        if not self.truth(sand(k >= -n, k < n)):
            raise PyRaise(IndexError("list index out of range"))
        lo = k.lo if k.lo is not None else -n
        hi = k.hi if k.hi is not None else n - 1
        lo, hi = max(lo, -n), min(hi, n - 1)
        if lo < 0 and self.truth(k < 0):
            k = k + n
            lo, hi = lo + n, n - 1
        lo = max(lo, 0)
        hi = min(hi, n - 1)
        try:
            r = o[hi]
            for i in range(hi - 1, lo - 1, -1):
                r = ite(k == i, o[i], r)
            return r
        except Unsupported:
            return o[self.ctx.concretize(k)]

    def dict_get(self, o, k, *default):
        for kk, v in list(dict.items(o)):
            if self.truth(deep_eq(k, V.unkey(kk))):
                return v
        if default:
            return default[0]
        raise PyRaise(KeyError("<sym>"))

    def setitem(self, o, k, v):
        if isinstance(o, list) and isinstance(k, SInt):
            n = len(o)
            if not self.truth(sand(k >= 0, k < n)):
                if self.truth(sand(k < 0, k >= -n)):
                    k = k + n
                else:
                    raise PyRaise(IndexError("list assignment index out of range"))
            for i in range(n):
                c = k == i
                if c is True:
                    o[i] = v
                elif c is not False:
                    o[i] = ite(c, v, o[i])
            return
        if isinstance(o, dict) and (has_sym(k) or (isinstance(o, V.SDict) and o.symkeys())):
            for kk in list(dict.keys(o)):
                if self.truth(deep_eq(k, V.unkey(kk))):
                    dict.__setitem__(o, kk, v)
                    return
            if not isinstance(o, V.SDict):
                raise Unsupported("new symbolic dict key")
            dict.__setitem__(o, V.SymKey(k) if has_sym(k) else k, v)
            return
        if isinstance(o, bytearray):
            raise Unsupported("native bytearray store")
        f = getattr(type(o), "__setitem__", None)
        if isinstance(f, types.FunctionType) and interpretable(f):
            self.call(f, (o, k, v))
            return

        def st():
            o[k] = v

        self.native(st, (), {})

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        n = e.attr
        if n.startswith("__") and not n.endswith("__") and fr.fn is not None:
            c = self.class_of(fr)
            if c:
                n = f"_{c.lstrip('_')}{n}"
        return self.getattr(o, n)

    def class_of(self, fr):
        f = fr
        while f is not None:
            fn = f.fn
            if isinstance(fn, types.FunctionType):
                q = fn.__qualname__.split(".")
                return q[-2] if len(q) >= 2 and q[-2] != "<locals>" else None
            f = f.parent
        return None

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    e_Slice = ev_index

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        xs = self.elts(e.elts, fr)
        if has_sym(xs):
            raise Unsupported("set of symbolic values")
        return self.native(set, (xs,), {})

    def e_Dict(self, e, fr):
        d = V.SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, x in list(dict.items(self.ev(v, fr))):
                    self.setitem(d, V.unkey(kk), x)
            else:
                kk = self.ev(k, fr)
                self.setitem(d, kk, self.ev(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        c = self.ev(e.test, fr)
        if isinstance(c, SBool) and _simple(e.body) and _simple(e.orelse):
            try:
                a, b = self.ev(e.body, fr), self.ev(e.orelse, fr)
                if a is b or isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
                    return ite(c, a, b)
            except (PyRaise, Unsupported):
                pass
        return self.ev(e.body, fr) if self.truth(c) else self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        n = len(e.values)
        i = 0
        while i < n:
            v = self.ev(e.values[i], fr)
            i += 1
            if i == n:
                return v
            if isinstance(v, SBool) and all(_simple(x) for x in e.values[i:]):
                try:
                    rest = [self.ev(x, fr) for x in e.values[i:]]
                    if all(isinstance(x, (bool, SBool)) for x in rest):
                        return sand(v, *rest) if isand else sor(v, *rest)
                except (PyRaise, Unsupported):
                    pass
            t = self.truth(v)
            if t != isand:
                if isinstance(v, SBool):
                    return t
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return snot(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.native(lambda: -v, (), {})
        if isinstance(e.op, ast.UAdd):
            return self.native(lambda: +v, (), {})
        return self.native(lambda: ~v, (), {})

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        if isinstance(e.op, ast.Mod) and isinstance(a, (str, bytes)) and has_sym(b):
            return self.ctx.fresh_str("fmt")
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and isinstance(e.op, ast.Add):
            return self.native(_BIN[ast.Add], (a, b), {})
        f = getattr(type(a), _DUN.get(type(e.op), "?"), None)
        if isinstance(f, types.FunctionType) and interpretable(f):
            return self.call(f, (a, b))
        return self.native(_BIN[type(e.op)], (a, b), {})

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                if res is None:
                    return r
                return sand(res, r) if isinstance(r, (bool, SBool)) else r
            if isinstance(r, SBool):
                if _simple(e.comparators[-1]):
                    res = r if res is None else sand(res, r)
                else:
                    if not self.truth(r):
                        return False
            elif not self.truth(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            if isinstance(a, SBool) or isinstance(b, SBool):
                if a is None or b is None:
                    return False
                return deep_eq(a, b)
            return a is b
        if isinstance(op, ast.IsNot):
            return snot(self.compare(ast.Is(), a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            ne = getattr(type(a), "__ne__", None)
            if isinstance(ne, types.FunctionType) and interpretable(ne):
                return self.call(ne, (a, b))
            return snot(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return snot(self.contains(b, a))
        f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
             ast.GtE: lambda x, y: x >= y}[type(op)]
        return self.native(f, (a, b), {})

    def eq(self, a, b):
        if isinstance(a, ASN_ITEM):
            return self.native(lambda: a == b, (), {})
        if isinstance(b, ASN_ITEM) and isinstance(a, Sym):
            return self.native(lambda: b == a, (), {})
        if not has_sym(a) and not has_sym(b):
            f = getattr(type(a), "__eq__", None)
            if isinstance(f, types.FunctionType) and interpretable(f):
                return self.call(f, (a, b))
            return self.native(lambda: a == b, (), {})
        return self.native(deep_eq, (a, b), {})

    def contains(self, c, x):
        h = getattr(c, "sym_contains", None)
        if h is not None:
            return h(x)
        if isinstance(c, SStr) or (isinstance(c, str) and isinstance(x, SStr)):
            return mkbool(z3.Contains(V.zstr(c), V.zstr(x)))
        if isinstance(c, (bytes, SBytes)) and isinstance(x, (bytes, SBytes)):
            if not has_sym(c) and not has_sym(x):
                return x in c
            return mkbool(z3.Contains(V.zseq(c), V.zseq(x)))
        if isinstance(c, (list, tuple, set, frozenset, dict, range)) or type(c).__name__ in ("dict_keys", "dict_values"):
            if not has_sym(x) and not has_sym(c):
                return self.native(lambda: x in c, (), {})
            if isinstance(c, range) and isinstance(x, SInt):
                if c.step == 1:
                    return sand(x >= c.start, x < c.stop)
            return sor(*[self.eq(y, x) for y in list(c)])
        f = getattr(type(c), "__contains__", None)
        if isinstance(f, types.FunctionType) and interpretable(f):
            return self.truth(self.call(f, (c, x)))
        if isinstance(x, Sym):
            raise Unsupported(f"symbolic membership in {type(c).__name__}")
        return self.native(lambda: x in c, (), {})

    def e_JoinedStr(self, e, fr):
        parts = []
        symb = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value, fr)
                except PyRaise:
                    raise
                if isinstance(x, SStr) and v.conversion == -1 and v.format_spec is None:
                    parts.append(x)
                    symb = True
                elif has_sym(x):
                    parts.append(self.ctx.fresh_str("fmt"))
                    symb = True
                else:
                    spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ""
                    if isinstance(spec, SStr):
                        raise Unsupported("format spec")
                    y = {115: str, 114: repr, 97: ascii}.get(v.conversion, lambda z: z)(x)
                    try:
                        parts.append(self.native(format, (y, spec), {}))
                    except PyRaise:
                        raise
        if not symb:
            return "".join(parts)
        if len(parts) == 1:
            return parts[0]
        return SStr(z3.Concat(*[V.zstr(p) for p in parts]))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        # super() and locals()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in fr.locals:
            f = fr
            while f is not None and f.first is None:
                f = f.parent
            cls = fr.cls or (f.cls if f else None)
            if cls is None:
                raise Unsupported("super() without class cell")
            return super(cls, f.locals[f.first])
        fn = self.ev(e.func, fr)
        if getattr(fn, "__module__", None) == "logging" or (isinstance(getattr(fn, "__self__", None), logging.Logger)):
            if getattr(fn, "__name__", "") in ("debug", "info", "warning", "error", "critical", "exception", "log"):
                # arguments are still evaluated: they may raise
                for a in e.args:
                    self.ev(a.value if isinstance(a, ast.Starred) else a, fr)
                return None
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs)

    # comprehensions
    def comp(self, gens, fr, emit):
        def rec(i, f):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            it = self.ev(g.iter, f)
            if hasattr(it, "sym_for"):
                raise Unsupported("comprehension over symbolic-length list")
            for v in self.iterate(it):
                self.assign(g.target, v, f)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c, f)):
                        ok = False
                        break
                if ok:
                    rec(i + 1, f)

        f = Frame(fr.globals, fr, None, fr.cls)
        rec(0, f)

    def e_ListComp(self, e, fr):
        if len(e.generators) == 1:
            it = self.ev(e.generators[0].iter, fr)
            h = getattr(it, "sym_comp", None)
            if h is not None:
                return h(self, e, fr)
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.ev(e.elt, f)))
        return out

    def e_GeneratorExp(self, e, fr):
        if len(e.generators) == 1:
            it = self.ev(e.generators[0].iter, fr)
            h = getattr(it, "sym_gen", None)
            if h is not None:
                return h(self, e, fr)
        g = GenExp(self, e, fr)
        return g

    def e_SetComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.ev(e.elt, f)))
        if has_sym(out):
            return SymSet(self, out)
        return self.native(set, (out,), {})

    def e_DictComp(self, e, fr):
        d = V.SDict()

        def emit(f):
            k = self.ev(e.key, f)
            self.setitem(d, k, self.ev(e.value, f))

        self.comp(e.generators, fr, emit)
        return d

    # ------------------------------------------------------------ builtin models
    def builtin_method(self, obj, fn, args, kwargs):
        n = fn.__name__
        if isinstance(obj, dict) and ((args and has_sym(args[0])) or (isinstance(obj, V.SDict) and obj.symkeys())):
            if n == "get":
                return self.dict_get(obj, args[0], args[1] if len(args) > 1 else None)
            if n == "pop":
                for kk, v in list(dict.items(obj)):
                    if self.truth(deep_eq(args[0], V.unkey(kk))):
                        dict.__delitem__(obj, kk)
                        return v
                if len(args) > 1:
                    return args[1]
                raise PyRaise(KeyError("<sym>"))
            if n == "setdefault":
                if self.truth(self.contains(obj, args[0])):
                    return self.dict_get(obj, args[0])
                v = args[1] if len(args) > 1 else None
                self.setitem(obj, args[0], v)
                return v
            if n == "update":
                for kk, v in list(dict.items(args[0])) if isinstance(args[0], dict) else list(args[0]):
                    self.setitem(obj, V.unkey(kk), v)
                for kk, v in kwargs.items():
                    self.setitem(obj, kk, v)
                return None
        if not self.any_sym(args, kwargs) and not (isinstance(obj, (list, tuple, dict)) and n in ("index", "count", "remove", "sort") and has_sym(obj)):
            args = [a.a if False else a for a in args]
            return self.native(fn, args, kwargs)
        if isinstance(obj, list):
            if n in ("append", "extend", "insert", "pop", "clear", "copy", "reverse"):
                if n == "extend" and isinstance(args[0], (SBytes, MBytes)):
                    obj.extend(list(args[0]))
                    return None
                if n in ("pop", "insert") and isinstance(args[0] if args else 0, SInt):
                    args = [self.ctx.concretize(args[0]), *args[1:]]
                return self.native(fn, args, kwargs)
            if n == "index":
                for i, x in enumerate(obj):
                    if self.truth(self.eq(x, args[0])):
                        return i
                raise PyRaise(ValueError("not in list"))
            if n == "count":
                return sum(1 for x in obj if self.truth(self.eq(x, args[0])))
            if n == "remove":
                for i, x in enumerate(obj):
                    if self.truth(self.eq(x, args[0])):
                        del obj[i]
                        return None
                raise PyRaise(ValueError("list.remove(x): x not in list"))
            if n == "sort":
                r = self.native(lambda: sorted(obj, **kwargs), (), {})
                obj[:] = r
                return None
        if isinstance(obj, tuple) and n in ("index", "count"):
            return self.builtin_method(list(obj), getattr(list(obj), n), args, kwargs)
        if isinstance(obj, dict):
            if n == "get":
                if isinstance(args[0], Sym):
                    return self.dict_get(obj, args[0], args[1] if len(args) > 1 else None)
                return self.native(fn, args, kwargs)
            if n in ("update", "items", "values", "keys", "setdefault", "copy", "pop"):
                if args and isinstance(args[0], Sym):
                    raise Unsupported(f"dict.{n} with symbolic key")
                return self.native(fn, args, kwargs)
        if isinstance(obj, str) and n == "join":
            xs = list(self.iterate(args[0]))
            out = xs[0] if xs else ""
            for x in xs[1:]:
                out = out + obj + x
            return out
        if isinstance(obj, str) and n == "format":
            return self.ctx.fresh_str("fmt")
        if isinstance(obj, (bytes, bytearray)):
            if n == "join":
                xs = list(self.iterate(args[0]))
                out = b""
                for i, x in enumerate(xs):
                    out = out + (obj if i else b"") + (x.frozen() if isinstance(x, MBytes) else x)
                return out
            if n in ("startswith", "endswith"):
                return getattr(SBytes([("c", bytes(obj))]), n)(*args)
        if isinstance(obj, int) and n == "to_bytes":
            if args and isinstance(args[0], SInt):
                args = [self.ctx.concretize(args[0]), *args[1:]]
            return self.native(obj.to_bytes, args, kwargs)
        if isinstance(obj, set):
            raise Unsupported("set with symbolic element")
        if isinstance(obj, type) and obj is int and n == "from_bytes":
            return self.m_from_bytes(*args, **kwargs)
        if isinstance(obj, type) and obj in (bytes, bytearray) and n == "fromhex":
            raise Unsupported("fromhex of symbolic string")
        raise Unsupported(f"{type(obj).__name__}.{n} with symbolic arguments")

    def m_from_bytes(self, b, byteorder="big", *, signed=False):
        if signed:
            raise Unsupported("signed from_bytes")
        if isinstance(b, MBytes):
            b = b.frozen()
        if isinstance(b, (list, tuple)):
            b = SBytes.of(b)
        if isinstance(b, (bytes, bytearray)):
            return int.from_bytes(b, byteorder)
        return V.int_from_bytes(b, byteorder)

    def model(self, fn):
        try:
            return getattr(self, "b_" + _BUILTIN_NAMES[fn]) if fn in _BUILTIN_NAMES else self.ctx.models.get(fn)
        except TypeError:
            return None

    def class_model(self, cls):
        n = _CLASS_NAMES.get(cls)
        if n:
            return getattr(self, "c_" + n)
        return self.ctx.models.get(cls)

    def b_len(self, x):
        if isinstance(x, (SBytes, SStr, MBytes)):
            return x.length()
        h = getattr(x, "sym_len", None)
        if h is not None:
            return h()
        f = getattr(type(x), "__len__", None)
        if isinstance(f, types.FunctionType) and interpretable(f):
            return self.call(f, (x,))
        return len(x)

    def b_isinstance(self, x, t):
        if isinstance(t, tuple):
            for y in t:
                if self.b_isinstance(x, y):
                    return True
            return False
        h = getattr(x, "sym_isinstance", None)
        if h is not None:
            return h(t)
        if isinstance(x, MBytes):
            return t in (bytearray, object)
        if isinstance(x, SInt):
            return issubclass(int, t) if isinstance(t, type) else False
        if isinstance(x, SBool):
            return issubclass(bool, t)
        if isinstance(x, SBytes):
            return issubclass(bytes, t)
        if isinstance(x, SStr):
            return issubclass(str, t)
        if isinstance(x, SRing):
            return issubclass(int, t)
        if isinstance(x, Sym):
            raise Unsupported("isinstance of opaque value")
        return isinstance(x, t)

    def b_hasattr(self, x, n):
        if isinstance(x, Sym):
            raise Unsupported("hasattr on symbolic")
        return hasattr(x, n)

    def b_getattr(self, x, n, *d):
        if isinstance(n, SStr):
            raise Unsupported("getattr symbolic name")
        try:
            return self.getattr(x, n)
        except PyRaise as p:
            if d and isinstance(p.exc, AttributeError):
                return d[0]
            raise

    def b_abs(self, x):
        return abs(x)

    def b_sum(self, xs, start=0):
        t = start
        for x in self.iterate(xs):
            t = t + x
        return t

    def b_any(self, xs):
        h = getattr(xs, "sym_any", None)
        if h is not None:
            return h()
        return self._anyall(xs, True)

    def b_all(self, xs):
        h = getattr(xs, "sym_all", None)
        if h is not None:
            return h()
        return self._anyall(xs, False)

    def _anyall(self, xs, isany):
        acc = []
        for x in self.iterate(xs):
            if isinstance(x, SBool):
                acc.append(x)
            elif self.truth(x) == isany:
                if not acc:
                    return isany
                return isany
        if not acc:
            return not isany
        return sor(*acc) if isany else sand(*acc)

    def _minmax(self, args, kwargs, lt):
        if kwargs:
            key = kwargs.pop("key", None)
            default = kwargs.pop("default", None)
        else:
            key = default = None
        xs = list(self.iterate(args[0])) if len(args) == 1 else list(args)
        if not xs:
            if default is not None:
                return default
            raise PyRaise(ValueError("arg is an empty sequence"))
        kf = (lambda v: self.call(key, (v,))) if key else (lambda v: v)
        r = xs[0]
        for x in xs[1:]:
            c = lt(kf(x), kf(r))
            if isinstance(c, SBool) and isinstance(x, (int, SInt)) and isinstance(r, (int, SInt)):
                r = ite(c, x, r)
            elif self.truth(c):
                r = x
        return r

    def b_min(self, *args, **kw):
        return self._minmax(args, kw, lambda a, b: a < b)

    def b_max(self, *args, **kw):
        return self._minmax(args, kw, lambda a, b: a > b)

    def b_sorted(self, xs, **kw):
        xs = list(self.iterate(xs))
        key = kw.get("key")
        if key is not None:
            kw["key"] = lambda v: self.call(key, (v,))
        return sorted(xs, **kw)

    def b_print(self, *a, **k):
        return None

    def b_ord(self, x):
        if isinstance(x, Sym):
            raise Unsupported("ord")
        return ord(x)

    def b_pow(self, a, b, m=None):
        return a ** b if m is None else (pow(a, b, m) if not has_sym([a, b, m]) else (a ** b) % m)

    def b_divmod(self, a, b):
        return (a // b, a % b)

    def b_round(self, x, n=None):
        if isinstance(x, SRat):
            if n is not None:
                raise Unsupported("round digits")
            f2 = SRat(x.n * 2 + x.d, x.d * 2).floor()
            tie = deep_eq((x.n * 2 + x.d) % (x.d * 2), 0)
            return ite(sand(tie, deep_eq(f2 % 2, 1)) if isinstance(tie, (SBool, bool)) else False, f2 - 1, f2)
        if isinstance(x, SInt):
            return x
        return round(x) if n is None else round(x, n)

    def b_floor(self, x):
        return x.floor() if isinstance(x, SRat) else (x if isinstance(x, SInt) else math.floor(x))

    def b_ceil(self, x):
        return x.ceil() if isinstance(x, SRat) else (x if isinstance(x, SInt) else math.ceil(x))

    def b_next(self, it, *d):
        if isinstance(it, GenExp):
            it = it._it()
        h = getattr(it, "sym_next", None)
        if h is not None:
            return h(*d)
        try:
            return self.native_next(it)
        except StopIteration as e:
            if d:
                return d[0]
            raise PyRaise(e)

    def b_repr(self, x):
        return self.ctx.fresh_str("repr") if has_sym(x) else repr(x)

    def b_callable(self, x):
        return callable(x)

    def b_id(self, x):
        return id(x)

    def b_hash(self, x):
        if has_sym(x):
            raise Unsupported("hash")
        return hash(x)

    def b_from_bytes(self, *a, **k):
        return self.m_from_bytes(*a, **k)

    def b_deepcopy(self, x, memo=None):
        import copy
        h = getattr(x, "sym_copy", None)
        if h is not None:
            return h()
        if isinstance(x, list):
            return [self.b_deepcopy(y) for y in x]
        if isinstance(x, Sym):
            return x
        return copy.deepcopy(x)

    # classes
    def c_int(self, x=0, base=None):
        if base is not None:
            if has_sym(x):
                raise Unsupported("int(str, base)")
            return int(x, base)
        h = getattr(x, "sym_int", None)
        if h is not None:
            return h()
        if isinstance(x, SBool):
            return x.asint()
        if isinstance(x, (SInt, SRing)):
            return x
        if isinstance(x, SRat):
            return x.trunc()
        if isinstance(x, Sym):
            raise Unsupported("int() of symbolic string")
        return int(x)

    def c_bool(self, x=False):
        return x if isinstance(x, SBool) else self.truth(x)

    def c_str(self, x="", *a):
        h = getattr(x, "sym_str", None)
        if h is not None:
            return h()
        if isinstance(x, SStr):
            return x
        if has_sym(x):
            return self.ctx.fresh_str("str")
        return str(x, *a)

    def c_bytes(self, x=b"", *a):
        h = getattr(x, "sym_bytes", None)
        if h is not None:
            return h()
        if isinstance(x, SBytes):
            return x
        if isinstance(x, MBytes):
            return x.frozen()
        if isinstance(x, SInt):
            n = self.ctx.concretize(x)
            return bytes(n)
        if isinstance(x, (bytes, int, str)):
            return bytes(x, *a)
        items = [MBytes._chk(y) if isinstance(y, Sym) else y for y in self.iterate(x)]
        if has_sym(items):
            return SBytes.of(items)
        return bytes(items)

    def c_bytearray(self, x=b"", *a):
        if isinstance(x, SInt):
            x = self.ctx.concretize(x)
        if isinstance(x, int):
            return MBytes([0] * x)
        if isinstance(x, MBytes):
            return x.copy()
        if isinstance(x, SBytes) and isinstance(x.length(), SInt):
            return MBytes(src=x)
        if isinstance(x, str):
            return MBytes(bytes(x, *a))
        return MBytes([MBytes._chk(y) for y in self.iterate(x)])

    def c_list(self, x=()):
        if isinstance(x, SBytes):
            return x.items()
        h = getattr(x, "sym_list", None)
        if h is not None:
            return h()
        return list(self.iterate(x))

    def c_tuple(self, x=()):
        return tuple(self.iterate(x))

    def c_set(self, x=()):
        xs = list(self.iterate(x))
        if has_sym(xs):
            return SymSet(self, xs)
        return set(xs)

    def c_dict(self, *a, **k):
        d = V.SDict()
        for x in a:
            for kk, v in (dict.items(x) if isinstance(x, dict) else ((kk, x[kk]) for kk in x.keys()) if hasattr(x, "keys") else self.iterate(x)):
                self.setitem(d, V.unkey(kk), v)
        for kk, v in k.items():
            self.setitem(d, kk, v)
        return d

    def c_range(self, *a):
        if self.ctx.fold is not None and any(isinstance(x, SInt) for x in a) and len(a) < 3:
            return SymRange(*a) if len(a) == 2 else SymRange(0, a[0])
        a = [self.ctx.concretize(x) if isinstance(x, SInt) else x for x in a]
        return range(*a)

    def c_enumerate(self, x, start=0):
        h = getattr(x, "sym_enumerate", None)
        if h is not None:
            return h(start)
        return enumerate(self.iterate(x), start)

    def c_zip(self, *xs, **k):
        return zip(*[self.iterate(x) for x in xs], **k)

    def c_reversed(self, x):
        return iter(list(self.iterate(x))[::-1])

    def c_map(self, f, *xs):
        return iter([self.call(f, v) for v in zip(*[self.iterate(x) for x in xs])])

    def c_filter(self, f, xs):
        return iter([v for v in self.iterate(xs) if self.truth(v if f is None else self.call(f, (v,)))])

    def c_type(self, x, *a):
        if a:
            raise Unsupported("type()")
        for s, t in ((SInt, int), (SBool, bool), (SBytes, bytes), (SStr, str), (MBytes, bytearray)):
            if isinstance(x, s):
                return t
        h = getattr(x, "sym_type", None)
        if h is not None:
            return h()
        return type(x)

    def c_super(self, *a):
        return super(*a)


def _own_nodes_inorder(node):
    out = []

    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            out.append(c)
            rec(c)
    rec(node)
    return out


class _NoMerge(Exception):
    pass


_SCALAR = (int, SInt, SBool, bool)


def _merge_val(c, a, b):
    if isinstance(a, _SCALAR) and isinstance(b, _SCALAR) and isinstance(a, (bool, SBool)) == isinstance(b, (bool, SBool)):
        return ite(c, a, b)
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return ite(c, a, b)
    raise _NoMerge()


def _mergeable(s):
    bodies = (s.body, s.orelse)
    if not s.orelse and s.body and isinstance(s.body[-1], ast.Return):
        return False
    for blk in bodies:
        for st in blk:
            if isinstance(st, ast.Assign):
                if not all(isinstance(t, ast.Name) for t in st.targets) or not _pure(st.value):
                    return False
            elif isinstance(st, ast.AugAssign):
                if not isinstance(st.target, ast.Name) or not _pure(st.value):
                    return False
            elif isinstance(st, ast.Return):
                if st.value is None or not _pure(st.value):
                    return False
            elif not isinstance(st, ast.Pass):
                return False
    return True


def _pure(e):
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.UnaryOp):
        return _pure(e.operand)
    if isinstance(e, ast.BinOp):
        return _pure(e.left) and _pure(e.right)
    if isinstance(e, ast.Compare):
        return _pure(e.left) and all(_pure(c) for c in e.comparators)
    if isinstance(e, ast.Subscript):
        return _pure(e.value) and _pure(e.slice)
    if isinstance(e, ast.Attribute):
        return _pure(e.value)
    return False


class SymSet(Sym):
    """set of possibly symbolic elements (duplicates decided by branching)"""

    def __init__(self, interp, xs):
        self.items = []
        for x in xs:
            if not interp.truth(sor(*[deep_eq(x, y) for y in self.items])):
                self.items.append(x)

    def sym_len(self):
        return len(self.items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __bool__(self):
        return bool(self.items)

    def sym_contains(self, x):
        return sor(*[deep_eq(x, y) for y in self.items])


class GenExp:
    """generator expression, evaluated lazily in order"""

    def __init__(self, interp, e, fr):
        self.i, self.e, self.fr = interp, e, fr
        self.it = None

    def _gen(self):
        interp, gens = self.i, self.e.generators
        f0 = Frame(self.fr.globals, self.fr, None, self.fr.cls)

        def rec(k):
            if k == len(gens):
                yield interp.ev(self.e.elt, f0)
                return
            g = gens[k]
            for v in interp.iterate(interp.ev(g.iter, f0)):
                interp.assign(g.target, v, f0)
                if all(interp.truth(interp.ev(c, f0)) for c in g.ifs):
                    yield from rec(k + 1)

        yield from rec(0)

    def _it(self):
        if self.it is None:
            self.it = self._gen()
        return self.it

    def __iter__(self):
        return self._it()

    def __next__(self):
        return next(self._it())


def _own_nodes(node):
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                st.append(c)


def _simple(e):
    """no side effects, cannot branch: safe to evaluate speculatively"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.UnaryOp):
        return _simple(e.operand)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitXor, ast.BitOr, ast.RShift, ast.LShift)) and _simple(e.left) and _simple(e.right)
    if isinstance(e, ast.Compare):
        return _simple(e.left) and all(_simple(c) for c in e.comparators) and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops)
    if isinstance(e, ast.BoolOp):
        return all(_simple(v) for v in e.values)
    if isinstance(e, ast.Attribute):
        return isinstance(e.value, ast.Name)
    return False


_DUN = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Mod: "__mod__"}

import copy as _copy

_BUILTIN_NAMES = {len: "len", isinstance: "isinstance", hasattr: "hasattr", getattr: "getattr", abs: "abs", sum: "sum",
                  any: "any", all: "all", min: "min", max: "max", sorted: "sorted", print: "print", ord: "ord",
                  pow: "pow", divmod: "divmod", round: "round", math.floor: "floor", math.ceil: "ceil", next: "next",
                  repr: "repr", callable: "callable", id: "id", hash: "hash", int.from_bytes: "from_bytes",
                  _copy.deepcopy: "deepcopy"}
_CLASS_NAMES = {int: "int", bool: "bool", str: "str", bytes: "bytes", bytearray: "bytearray", list: "list",
                tuple: "tuple", set: "set", dict: "dict", range: "range", enumerate: "enumerate", zip: "zip",
                reversed: "reversed", map: "map", filter: "filter", type: "type", super: "super"}


class SymRange:
    """range with symbolic bounds, usable where the harness gives the fold that the loop computes"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")

    def sym_for(self, interp, s, fr):
        """for ... in range(lo, hi): x = step(x), with the one loop-carried variable x: after k rounds x is
        iter(x0, k), by induction on k (base: iter(x0, 0) = x0; step: proved here for any k)"""
        c = interp.ctx
        it, step = c.fold
        n = self.hi - self.lo
        stored = {m.id for b in s.body for m in ast.walk(b) if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del))}
        carried = [v for v in stored if v in fr.locals]
        if len(carried) != 1 or s.orelse or not isinstance(s.target, ast.Name) or s.target.id in carried:
            raise Unsupported("symbolic range loop is not a fold")
        if any(isinstance(m, (ast.Break, ast.Return, ast.Global, ast.Nonlocal, ast.Attribute)) and not isinstance(getattr(m, "ctx", ast.Load()), ast.Load) or isinstance(m, (ast.Break, ast.Return)) for b in s.body for m in ast.walk(b)):
            raise Unsupported("symbolic range loop is not a fold")
        x = carried[0]
        x0 = fr.locals[x]
        if c.concretize(c.fresh_int("fold", 0, 1)) == 0:
            k = c.fresh_int("k", 0, None)
            cur = it(x0, k)
            for v in stored:
                fr.locals.pop(v, None)
            fr.locals[x] = cur
            interp.assign(s.target, self.lo + k, fr)
            try:
                interp.block(s.body, fr)
            except _Cont:
                pass
            c.prove(V.deep_eq(fr.locals[x], step(cur)), "one round of the loop is one step of the specified iteration")
            raise PathStop()
        for v in stored:
            fr.locals.pop(v, None)
        if interp.truth(n <= 0):
            fr.locals[x] = x0
        else:
            fr.locals[x] = it(x0, n)
