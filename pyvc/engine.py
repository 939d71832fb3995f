"""Path-complete symbolic execution of harness functions over the real code: generates the
obligations (one per `ensure` per path, plus "no unexpected exception" per path) and has z3
(retry: cvc5) decide them."""
import hashlib
import time

import z3

from . import values as V
from .interp import Interp, PathStop, PyRaise
from .values import SBool, SBytes, SInt, SOpaque, SStr, Sym, Unsupported, mk, mkbool


class Abort(Exception):
    """stop the whole proof attempt (time budget)"""


class NeedFork(Exception):
    """speculative evaluation would have to fork"""


def _cp(v):
    """the harness gets its own containers: counterexamples are read from the originals"""
    if isinstance(v, list):
        return [_cp(x) for x in v]
    if isinstance(v, dict):
        return {k: _cp(x) for k, x in v.items()}
    if isinstance(v, V.MBytes):
        return v.copy()
    return v


class Ctx:
    Abort = Abort
    NeedFork = NeedFork

    def __init__(self, stubs=(), models=(), max_loop=4000, budget=300, qtimeout=60, max_paths=20000, seed=1, merge=True):
        self.stubs = {}
        for fn, st in dict(stubs).items():
            self.stubs[id(fn)] = (fn, st)
        self.models = dict(models)
        self.loops = {}
        self.fold = None
        self.absbytes = False
        self.lits = {}
        self.abs_seen = {}
        self.list_terms = {}
        self.sort_names = {}
        self.ghost = {}
        self.max_loop = max_loop
        self.deadline = time.process_time() + budget
        self.qtimeout = qtimeout
        self.max_paths = max_paths
        self.seed = seed
        self.merge = merge
        self.intmode = False
        self.lazy_merge = True
        self.touched = set()
        self.notes = set()
        self.obl = {}           # label -> [generated, discharged]
        self.failures = []      # (label, kind, model inputs, text)
        self.undecided = []
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.backends = {}
        self.fail_reason = None
        self.ticks = 0
        self.paths_done = 0
        self.covers = set()
        self.axioms_static = []

    # ------------------------------------------------------------ driver
    def run(self, harness, make_inputs, stop_on_fail=True):
        """explore all paths of harness(**inputs)"""
        work = [[]]
        old = V.CUR
        V.CUR = self
        try:
            while work:
                prefix = work.pop()
                self.paths += 1
                if self.paths > self.max_paths:
                    self.undecided.append(("(exploration)", f"more than {self.max_paths} paths"))
                    return
                self._reset(prefix, work)
                interp = self.interp = Interp(self)
                try:
                    self.inputs = make_inputs(self)
                    interp.call(harness, (), {k: _cp(v) for k, (d, v) in self.inputs.items()})
                    self.paths_done += 1
                except PathStop:
                    pass
                except PyRaise as p:
                    self.paths_done += 1
                    self._unexpected(p.exc)
                except Unsupported as u:
                    # is this path feasible at all?
                    if self._check() != z3.unsat:
                        self.undecided.append(("(unsupported)", str(u)))
                        return
                except RecursionError:
                    self.undecided.append(("(unsupported)", "recursion limit"))
                    return
                except Abort as a:
                    self.undecided.append(("(budget)", str(a)))
                    return
                if self.failures and stop_on_fail:
                    return
                if len(self.undecided) > 5:
                    return
        finally:
            V.CUR = old

    def _reset(self, prefix, work):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.work = work
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", int(self.qtimeout * 1000))
        self.solver.set("random_seed", self.seed % 1000)
        self.pc = []
        self.fresh_n = 0
        self.lens = {}
        self.inputs = {}
        self.memo = {}
        self.spec = 0
        self.const_cache = {}
        self.spec_added = []
        self.ghost = {}
        self.list_terms = {}
        self.lits = {}
        self.abs_seen = {}
        for a in self.axioms_static:
            self._add(a)

    def tick(self):
        self.ticks += 1
        if self.ticks % 256 == 0 and time.process_time() > self.deadline:
            raise Abort("time budget used up")

    def touch(self, fn):
        self.touched.add(f"{fn.__module__}.{fn.__qualname__}")

    def note(self, s):
        self.notes.add(s)

    # ------------------------------------------------------------ solver
    def _add(self, b):
        self.pc.append(b)
        self.solver.add(b)
        if self.spec:
            self.spec_added.append(b)

    def _check(self, *extra):
        if time.process_time() > self.deadline:
            raise Abort("time budget used up")
        self.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        return r

    def choose(self, b):
        """truth of formula b on this path; forks when both sides are feasible"""
        if isinstance(b, bool):
            return b
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if self.spec:
            r = self.decided(b)
            if r is None:
                raise NeedFork()
            return r
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self._add(b if d else z3.Not(b))
            return d
        t = self._check(b)
        f = self._check(z3.Not(b)) if t != z3.unsat else z3.sat
        if t == z3.unsat:
            d = False
        elif f == z3.unsat:
            d = True
        else:
            self.work.append(self.trace + [False])
            d = True
        self.pos += 1
        self.trace.append(d)
        self._add(b if d else z3.Not(b))
        return d

    def decided(self, b):
        """True/False when the path condition settles b, else None"""
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if self.lazy_merge:
            return None
        if self._check(b) == z3.unsat:
            return False
        if self._check(z3.Not(b)) == z3.unsat:
            return True
        return None

    def push(self, b):
        self.spec += 1
        self.solver.push()
        self.solver.add(b)

    def pop(self):
        self.spec -= 1
        self.solver.pop()
        for b in self.spec_added:
            self.solver.add(b)
        if not self.spec:
            self.spec_added = []

    def concretize(self, x):
        """enumerate the feasible values of x (one path per value)"""
        if isinstance(x, bool) or not isinstance(x, SInt):
            return int(x)
        if self.spec:
            raise NeedFork()
        term = x.bv if x.bv is not None else x.e
        n = 0
        while True:
            if self.pos < len(self.prefix):
                tag = self.prefix[self.pos]
                assert isinstance(tag, tuple), "non-deterministic re-execution"
                v = tag[1]
            else:
                r = self._check()
                if r == z3.unsat:
                    raise PathStop()
                if r != z3.sat:
                    raise Unsupported("cannot enumerate integer (solver unknown)")
                v = self.solver.model().eval(term, model_completion=True)
                v = v.as_signed_long() if x.sg else v.as_long()
            self.pos += 1
            self.trace.append(("v", v))
            n += 1
            if n > 600:
                raise Unsupported("too many values to enumerate")
            if self.choose(term == v):
                return v

    def assume(self, c):
        if isinstance(c, SBool):
            # assumption: drop the other side
            self._add(c.b)
            if self._check() == z3.unsat:
                raise PathStop()
        elif isinstance(c, Sym):
            if not bool(c):
                raise PathStop()
        elif not c:
            raise PathStop()

    def prove(self, c, label):
        o = self.obl.setdefault(label, [0, 0])
        o[0] += 1
        self.fail_reason = self.fail_reason if c is False else None
        if isinstance(c, Sym) and not isinstance(c, SBool):
            c = bool(c)
        if not isinstance(c, SBool):
            if c:
                o[1] += 1
                self.backends["evaluation"] = self.backends.get("evaluation", 0) + 1
                return
            r = self._check()
            if r == z3.unsat:
                o[1] += 1
                raise PathStop()
            self._fail(label, r, "condition is false on this path" + (f" ({self.fail_reason})" if self.fail_reason else ""))
            self.fail_reason = None
            raise PathStop()
        r, be = self._prove_sliced(c.b), "z3"
        if r != z3.unsat:
            r = self._check(z3.Not(c.b))
        if r == z3.unknown:
            r2 = self._retry(z3.Not(c.b))
            if r2 is not None:
                r, be = r2
        if r == z3.unsat:
            o[1] += 1
            self.backends[be] = self.backends.get(be, 0) + 1
            self._add(c.b)
            return
        if r == z3.sat:
            self._fail(label, r, f"counterexample to: {str(c.b)[:400]}")
            self._add(c.b)
            if self._check() == z3.unsat:
                raise PathStop()
            return
        self.undecided.append((label, f"solver: {self.solver.reason_unknown()}"))
        self._add(c.b)

    def _consts(self, t):
        """ids of the uninterpreted constants of a term (cached)"""
        key = t.get_id()
        r = self.const_cache.get(key)
        if r is not None:
            return r[1]
        out = set()
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if not z3.is_app(x):
                continue
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                st.extend(x.children())
        self.const_cache[key] = (t, out)
        return out

    def _prove_sliced(self, goal):
        """prove the conjuncts one by one, each from the part of the path condition it depends on;
        dropping hypotheses is sound for 'unsat'"""
        goals = list(goal.children()) if z3.is_and(goal) else [goal]
        if len(goals) == 1 and len(self.pc) < 12:
            return z3.unknown
        vs = [(a, self._consts(a)) for a in self.pc]
        byvar = {}
        for i, (a, v) in enumerate(vs):
            for x in v:
                byvar.setdefault(x, []).append(i)
        for g in goals:
            if z3.is_true(g):
                continue
            todo = list(self._consts(g))
            seen, use = set(todo), set()
            while todo:
                x = todo.pop()
                for i in byvar.get(x, ()):
                    if i not in use:
                        use.add(i)
                        for y in vs[i][1]:
                            if y not in seen:
                                seen.add(y)
                                todo.append(y)
            if len(use) > 60 and len(goals) > 1 and len(use) == len(self.pc):
                return z3.unknown
            s = z3.Solver()
            s.set("timeout", int(self.qtimeout * 1000))
            for i in sorted(use):
                s.add(self.pc[i])
            s.add(z3.Not(g))
            if time.process_time() > self.deadline:
                raise Abort("time budget used up")
            t = time.time()
            r = s.check()
            self.solver_s += time.time() - t
            self.queries += 1
            if r != z3.unsat:
                return z3.unknown
        return z3.unsat

    def _retry(self, neg):
        # 1. fresh z3 solver with a bit-vector/nla friendly tactic
        for mk_ in (lambda: z3.Then("simplify", "solve-eqs", "smt").solver(), lambda: z3.SolverFor("QF_UFBV")):
            try:
                s = mk_()
                s.set("timeout", int(self.qtimeout * 1000))
                s.add(*self.pc)
                s.add(neg)
                t = time.time()
                r = s.check()
                self.solver_s += time.time() - t
                if r == z3.unsat:
                    return r, "z3-retry"
            except z3.Z3Exception:
                pass
        try:
            import cvc5
            s = z3.Solver()
            s.add(*self.pc)
            s.add(neg)
            txt = s.to_smt2()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(int(self.qtimeout * 1000)))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            res = None
            t = time.time()
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                if "unsat" in str(out):
                    res = "unsat"
            self.solver_s += time.time() - t
            if res == "unsat":
                return z3.unsat, "cvc5"
        except Exception as e:  # noqa
            self.note(f"cvc5 retry failed: {type(e).__name__}")
        return None

    def _model(self, extra=None):
        try:
            if extra is not None:
                r = self.solver.check(extra)
            else:
                r = self.solver.check()
            if r == z3.sat:
                return self.solver.model()
        except z3.Z3Exception:
            pass
        return None

    def _fail(self, label, r, text):
        m = None
        try:
            m = self.solver.model()
        except z3.Z3Exception:
            m = None
        vals = None
        if m is not None:
            vals = {}
            for k, (dom, v) in self.inputs.items():
                try:
                    vals[k] = dom.from_model(self, m, v)
                except Exception as e:  # noqa
                    vals = None
                    text += f" (input {k} not reconstructible: {type(e).__name__}: {e})"
                    break
        self.failures.append((label, vals, text))

    def _unexpected(self, exc):
        label = "no unexpected exception"
        o = self.obl.setdefault(label, [0, 0])
        o[0] += 1
        r = self._check()
        if r == z3.unsat:
            o[1] += 1
            return
        self._fail(label, r, f"raises {type(exc).__name__}: {str(exc)[:300]}")

    # ------------------------------------------------------------ helpers for values
    def name(self, tag):
        self.fresh_n += 1
        return f"{tag}!{self.fresh_n}"

    def fresh_int(self, tag, lo=None, hi=None):
        if lo is not None and hi is not None and lo >= 0:
            w = V.bits_of(hi)
            bv = z3.BitVec(self.name(tag), w)
            if lo > 0:
                self._add(z3.UGE(bv, lo))
            if hi < (1 << w) - 1:
                self._add(z3.ULE(bv, hi))
            return SInt(bv=bv, lo=lo, hi=hi)
        e = z3.Int(self.name(tag))
        if lo is not None:
            self._add(e >= lo)
        if hi is not None:
            self._add(e <= hi)
        return SInt(e=e, lo=lo, hi=hi)

    def fresh_bool(self, tag):
        return SBool(z3.Bool(self.name(tag)))

    def fresh_str(self, tag):
        return SStr(z3.String(self.name(tag)))

    def fresh_bytes(self, tag, n=None, lo=0, hi=None):
        """symbolic byte string of concrete length n, or of any length in [lo, hi]"""
        if isinstance(n, int) and n <= 64:
            if n == 0:
                return b""
            return SBytes([("e", [SInt(bv=z3.BitVec(self.name(tag), 8)) for _ in range(n)])])
        t = z3.Const(self.name(tag), V.bsort())
        return self.seq_value(t, n, lo, hi)

    def seq_value(self, t, n=None, lo=0, hi=None):
        if isinstance(n, int):
            self._add(V.zlen(t) == n)
            self.lens[t.get_id()] = (t, n)
            return SBytes([("t", t, 0, n)])
        if n is not None:
            self._add(V.zlen(t) == V.ze(n))
            self.lens[t.get_id()] = (t, n)
            return SBytes([("t", t, 0, n)])
        ln = SInt(e=V.zlen(t), lo=lo, hi=hi)
        if lo:
            self._add(V.zlen(t) >= lo)
        if hi is not None:
            self._add(V.zlen(t) <= hi)
        self.lens[t.get_id()] = (t, ln)
        if not lo and self.absbytes:
            self._add(z3.Implies(V.zlen(t) == 0, t == V.zseq(b"")))
        return SBytes([("t", t, 0, ln)])

    def seq_len_is(self, t, n):
        r = self.lens.get(t.get_id())
        if r is None:
            return False
        m = r[1]
        if isinstance(m, int) or isinstance(n, int):
            return isinstance(m, int) and isinstance(n, int) and m == n
        return V.ze(m).eq(V.ze(n))

    def uf(self, name, out, args):
        """application of an uninterpreted function.  out: ('bytes', n|None) | 'bool' | 'int' | sort name"""
        zs = [self.toz(a) for a in args]
        sorts = [z.sort() for z in zs]
        if isinstance(out, tuple) and out[0] == "bytes":
            rs = V.bsort()
        elif out == "bool":
            rs = z3.BoolSort()
        elif out == "int":
            rs = z3.IntSort()
        elif isinstance(out, tuple) and out[0] == "bv":
            rs = z3.BitVecSort(out[1])
        else:
            rs = z3.DeclareSort(out)
        nm = name + "/" + ",".join(self.sort_name(s) for s in sorts)
        f = z3.Function(nm, *sorts, rs)
        t = f(*zs) if zs else z3.Const(nm, rs)
        if isinstance(out, tuple) and out[0] == "bytes":
            key = t.get_id()
            if key in self.memo:
                return self.memo[key][1]
            v = self.seq_value(t, out[1])
            self.memo[key] = (t, v)
            return v
        if out == "bool":
            return SBool(t)
        if out == "int":
            return SInt(e=t)
        if isinstance(out, tuple) and out[0] == "bv":
            return SInt(bv=t)
        return SOpaque(t, out)

    def sort_name(self, s):
        k = s.get_id()
        r = self.sort_names.get(k)
        if r is None:
            r = self.sort_names[k] = (s, str(s))
        return r[1]

    def toz(self, a):
        if isinstance(a, SOpaque):
            return a.t
        if isinstance(a, V.MBytes):
            a = a.frozen()
        if isinstance(a, (bytes, bytearray, SBytes)):
            return V.zseq(a)
        if isinstance(a, SBool):
            return a.b
        if isinstance(a, bool):
            return z3.BoolVal(a)
        if isinstance(a, (int, SInt)):
            return V.ze(a)
        if isinstance(a, (str, SStr)):
            return V.zstr(a)
        if a is None:
            return z3.Const("None!", z3.DeclareSort("NoneSort"))
        if isinstance(a, (list, tuple)):
            # a structured argument: a term built by a constructor function over its items
            s = z3.DeclareSort("Tuple")
            if len(a) == 256 and self.list_terms:
                r = self.list_terms.get(tuple(x.e.get_id() if isinstance(x, SInt) and x.e is not None else -1 for x in a))
                if r is not None:
                    return r
            zs = [self.toz(x) for x in a]
            nm = f"tuple{len(zs)}/" + ",".join(self.sort_name(z.sort()) for z in zs)
            if not zs:
                return z3.Const(nm, s)
            return z3.Function(nm, *[z.sort() for z in zs], s)(*zs)
        h = getattr(a, "sym_z", None)
        if h is not None:
            return h()
        if isinstance(a, type) or callable(a) or not V.has_sym(a):
            # concrete host object: identified by its (stable) textual identity
            return z3.Const("host:" + self.host_key(a), z3.DeclareSort("Host"))
        raise Unsupported(f"argument of type {type(a).__name__} to uninterpreted function")

    def host_key(self, a):
        q = getattr(a, "__qualname__", None)
        if q:
            return f"{getattr(a, '__module__', '')}.{q}"
        if hasattr(a, "name") and isinstance(getattr(a, "name"), str):
            return f"{type(a).__qualname__}:{a.name}"
        return f"{type(a).__qualname__}@{id(a)}"

    def bit_length(self, x):
        if isinstance(x, int):
            return x.bit_length()
        if x.lo is None or x.hi is None or x.lo < 0:
            raise Unsupported("bit_length of unbounded integer")
        r = 0
        for i in range(V.bits_of(x.hi)):
            r = V.ite(x >= (1 << i), i + 1, r)
        return r
