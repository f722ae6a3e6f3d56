"""Symbolic execution of the AST of real function objects."""
import ast
import builtins
import contextlib
import functools
import itertools
import logging
import operator
import sys
import types
import z3
from . import hidden, solver
from .solver import QFact, fresh, fresh_int, IntS, BoolS, RealS, Item, Opq
from .values import *

sys.setrecursionlimit(20000)

NORM = ('norm', None)
MAX_DEPTH = 40


class State:
    __slots__ = ('pc', 'facts', 'heap', 'frames', 'ghost', 'trace', 'oid')

    def __init__(self):
        self.pc, self.facts, self.heap, self.frames = [], [], {}, {}
        self.ghost, self.trace = {}, ()
        self.oid = 1

    def copy(self):
        s = State.__new__(State)
        s.pc, s.facts = list(self.pc), list(self.facts)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.ghost, s.trace, s.oid = dict(self.ghost), self.trace, self.oid
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.pc.append(z3.BoolVal(False))
        elif not z3.is_true(c):
            self.pc.append(c)

    def fact(self, n, fn, name="", only=None):
        self.facts.append(QFact(n, fn, name, only))

    def alloc(self, cls, fields):
        o = self.oid
        self.oid += 1
        self.heap[o] = HObj(cls, fields)
        return Ref(o)

    def get(self, ref):
        return self.heap[ref.oid]

    def setf(self, ref, name, val):
        self.heap[ref.oid] = self.heap[ref.oid].set(name, val)

    def f(self, ref, name):
        return self.heap[ref.oid].fields[name]

    def log(self, *entry):
        self.trace = self.trace + (entry,)


class Obligation:
    __slots__ = ('name', 'status', 'definite', 'reason', 'secs', 'backend', 'model', 'path', 'ctx')

    def __init__(self, name, res, path, ctx):
        self.name, self.status, self.definite, self.reason = name, res.status, res.definite, res.reason
        self.secs, self.backend, self.model, self.path, self.ctx = res.secs, res.backend, res.model, path, ctx


# ---------------------------------------------------------------- source lookup

class Source:
    def __init__(self):
        self.files = {}

    def index(self, filename):
        if filename not in self.files:
            with open(filename, encoding='utf-8') as fh:
                tree = ast.parse(fh.read(), filename)
            idx = {}

            def walk(node, cls):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                        idx[(line, ch.name)] = (ch, cls)
                        walk(ch, cls)
                    elif isinstance(ch, ast.Lambda):
                        idx.setdefault((ch.lineno, '<lambda>'), []).append((ch, cls))
                        walk(ch, cls)
                    elif isinstance(ch, ast.ClassDef):
                        walk(ch, ch.name)
                    else:
                        walk(ch, cls)
            walk(tree, None)
            self.files[filename] = idx
        return self.files[filename]

    def find(self, func):
        code = func.__code__
        try:
            idx = self.index(code.co_filename)
        except OSError:
            raise Unsupported(f'no source for {func}')
        k = (code.co_firstlineno, code.co_name)
        if k not in idx:
            raise Unsupported(f'source of {func} not found')
        r = idx[k]
        if isinstance(r, list):
            if len(r) != 1:
                raise Unsupported(f'ambiguous lambda {func}')
            return r[0]
        return r


SOURCE = Source()


def has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


def assigned_names(nodes):
    out = set()

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                out.add(x.id)
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, (ast.Name, ast.Tuple, ast.List, ast.Starred)):
                        tgt(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(x.target, ast.Name):
                    tgt(x.target)
            elif isinstance(x, (ast.For,)):
                tgt(x.target)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                tgt(x.optional_vars)
            elif isinstance(x, ast.NamedExpr):
                tgt(x.target)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
    return out


def is_raise(v):
    return isinstance(v, Raise)


class Engine:
    def __init__(self, name=''):
        self.name = name
        self.none_items = True         # items can be None (the items of streams and sources cannot)
        self.obligations = []
        self.contracts = {}            # id(function) -> contract
        self.natives = {}              # id(object) -> handler
        self.native_keep = []
        self.inline_modules = ('stream2py', 'pack', 'contracts_env', 'contracts')
        self.functions_used = set()    # functions whose body was executed
        self.contracts_used = set()
        self.depth = 0
        self.ctx = ''
        self.fid = itertools.count(1)
        self.loop_spec = None          # callable(eng, node, st, fid) -> LoopSpec or None
        self.hooks = {}                # e.g. 'field_write', 'interfere'
        self.quick_feasible = True
        self.paths = 0
        self.overapprox = False
        self.hidden_used = False       # a value outside the representation was used: failures are not definite
        self.pre_oids = ()
        self.focus = None              # predicate on obligation names: others are not violations of this property
        natives.install(self)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, timeout=10.0):
        if isinstance(goal, Sym):
            goal = goal.t
        if goal is not True and goal is not False and not z3.is_expr(goal):
            raise TypeError(goal)
        res = solver.prove(st.pc, st.facts, goal, timeout)
        if res.status == 'failed' and (self.overapprox or self.hidden_used or self.focus is not None and not self.focus(name)):
            res.definite = False
        o = Obligation(name, res, st.trace, self.ctx)
        self.obligations.append(o)
        if res.status == 'proved' and goal is not True:
            st.assume(goal) if goal is not False else None
        return res.status == 'proved'

    def oblige_forall(self, st, name, lo, hi, fn, timeout=10.0):
        """lo <= i < hi implies fn(i), for a fresh i"""
        i = fresh_int('sk')
        st2 = st.copy()
        st2.assume(i >= zint(lo))
        st2.assume(i < zint(hi))
        return self.oblige(st2, name, fn(i), timeout)

    def feasible(self, st):
        if any(z3.is_false(c) for c in st.pc[-2:]):
            return False
        return solver.feasible(st.pc, st.facts)

    def branch(self, st, cond):
        """fork on a z3 condition: yields (st, bool)"""
        if isinstance(cond, bool):
            yield st, cond
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            yield st, True
            return
        if z3.is_false(cond):
            yield st, False
            return
        a = st.copy()
        a.assume(cond)
        if self.feasible(a):
            yield a, True
        b = st.copy()
        b.assume(z3.Not(cond))
        if self.feasible(b):
            yield b, False

    def fork_exists(self, st, lo, hi, pred, name='ex'):
        """yields (st, index) for a first index in [lo,hi) satisfying pred, and (st, None) if there is none"""
        a = st.copy()
        r = fresh_int(name)
        a.assume(r >= zint(lo))
        a.assume(r < zint(hi))
        a.assume(zbool(pred(r)))
        a.fact(1, lambda j: z3.Implies(z3.And(zint(lo) <= j, j < r), z3.Not(zbool(pred(j)))), 'first')
        if self.feasible(a):
            yield a, r
        b = st.copy()
        b.fact(1, lambda j: z3.Implies(z3.And(zint(lo) <= j, j < zint(hi)), z3.Not(zbool(pred(j)))), 'none')
        if self.feasible(b):
            yield b, None

    # ------------------------------------------------------------ truth, comparison
    def truth(self, st, v):
        if v is None:
            yield st, False
        elif isinstance(v, bool):
            yield st, v
        elif isinstance(v, SBool):
            yield from self.branch(st, v.t)
        elif isinstance(v, SInt):
            yield from self.branch(st, v.t != 0)
        elif isinstance(v, (int, float, str, bytes, tuple)):
            yield st, bool(v)
        elif hasattr(v, 'eng_truth'):
            yield from self.branch(st, v.eng_truth())
        elif isinstance(v, (SOpq, SStr)):
            yield from self.branch(st, opq_truth(v.t))
        elif isinstance(v, Ref):
            o = st.get(v)
            tr = getattr(o.cls, 'native_truth', None)
            if tr is not None:
                yield from tr(self, st, v)
                return
            for nm in ('__bool__', '__len__'):
                f = self.class_lookup(o.cls, nm)
                if f is not None:
                    for s, r in self.call(st, f, [v], {}):
                        if is_raise(r):
                            yield s, r
                        else:
                            yield from self.truth(s, r)
                    return
            yield st, True
        elif isinstance(v, (SItem, SKey)):
            yield from self.branch(st, (item_truth if isinstance(v, SItem) else key_truth)(v.t))
        elif isinstance(v, (Bound, Closure, NativeFn, SymClass, KeyFn, types.FunctionType, type,
                            types.ModuleType, types.BuiltinFunctionType, GenObj, SeqIter)):
            yield st, True
        elif v is POISON:
            raise Unsupported('use of a variable with no known value')
        else:
            raise Unsupported(f'truth of {v!r}')

    def py_eq(self, st, a, b):
        """python ==, as z3 Bool / bool"""
        if v_is_poison(a) or v_is_poison(b):
            raise Unsupported('use of a variable with no known value')
        for x, y in ((a, b), (b, a)):
            if hasattr(x, 'eng_eq'):
                return simp(x.eng_eq(y))
        if isinstance(a, SItem) and isinstance(b, SItem):
            return z3.simplify(item_class(a.t) == item_class(b.t))
        if isinstance(a, (SKey, SItem)) and isinstance(b, (SKey, SItem)):
            return as_key(a) == as_key(b)
        if isinstance(a, SItem) or isinstance(b, SItem):
            return fresh('item_eq', BoolS)         # items compare in any way with other things
        if a is None or b is None:
            other = b if a is None else a
            if isinstance(other, Ref) and self.class_lookup(st.get(other).cls, '__eq__', user=True) is not None:
                raise Unsupported('user-defined __eq__')
            return a is None and b is None
        ai, bi = as_int(a), as_int(b)
        if ai is not None and bi is not None:
            return simp(zint(ai) == zint(bi))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [zbool(self.py_eq(st, x, y)) for x, y in zip(a, b)]
            return simp(z3.And(*cs)) if cs else True
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            for x in (a, b):
                cls = st.get(x).cls
                if getattr(cls, 'value_eq', False):
                    eq = cls.value_eq(self, st, a, b)
                    return eq
                if self.class_lookup(cls, '__eq__', user=True) is not None:
                    raise Unsupported('user-defined __eq__')
            return False
        if isinstance(a, (SOpq, SStr)) or isinstance(b, (SOpq, SStr)):
            if isinstance(a, (SOpq, SStr)) and isinstance(b, (SOpq, SStr)):
                if a.t.eq(b.t):
                    return True
            return fresh('opq_eq', BoolS)
        if isinstance(a, (Sym, Ref)) or isinstance(b, (Sym, Ref)):
            return False
        if (isinstance(a, KeyFn) or isinstance(b, KeyFn)) and a is not b:
            return fresh('key_eq', BoolS)          # any callable can be a key function
        if isinstance(a, (KeyFn, Bound, Closure)) or isinstance(b, (KeyFn, Bound, Closure)):
            return a is b or (isinstance(a, Bound) and isinstance(b, Bound) and a == b)
        if isinstance(a, ExcType) or isinstance(b, ExcType):
            return self.same_exc_type(st, a, b)
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported(f'{a!r} == {b!r}')

    def py_is(self, st, a, b):
        if v_is_poison(a) or v_is_poison(b):
            raise Unsupported('use of a variable with no known value')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, TypeOf):
                return x.eng_eq(y)
        if a is None or b is None:
            if self.none_items and (isinstance(a, SItem) or isinstance(b, SItem)):
                return item_none((b if a is None else a).t)
            if isinstance(a, SOpq) or isinstance(b, SOpq):
                return opq_none((b if a is None else a).t)
            return a is None and b is None
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return simp(zbool(a if isinstance(a, bool) else a.t) == zbool(b if isinstance(b, bool) else b.t))
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            return False
        ai, bi = as_int(a), as_int(b)
        if ai is not None and bi is not None:
            # identity of ints is implementation-defined: may be false for equal ints
            eq = simp(zint(ai) == zint(bi))
            if eq is False:
                return False
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return z3.And(zbool(eq), fresh('same_int', BoolS))
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a == b
        if isinstance(a, Sym) and isinstance(b, Sym) and a.sort == b.sort:
            return simp(a.t == b.t)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False    # bound methods are created afresh by each attribute access
        if isinstance(a, Exc) and isinstance(b, Exc):
            return a.tag == b.tag
        if isinstance(a, ExcType) or isinstance(b, ExcType):
            return self.same_exc_type(st, a, b)
        return a is b

    # classes of arbitrary exceptions: which classes they belong to is left open, consistently
    def exc_sub(self, st, exc, c):
        """issubclass(type(exc), c): bool or z3 term"""
        if not isinstance(c, type):
            raise Unsupported('class of an exception')
        if issubclass(exc.cls, c):
            return True
        if not exc.arbitrary or not issubclass(c, exc.cls) or any(issubclass(c, x) for x in exc.excl):
            return False
        return self.exc_term(st, exc, '<:', c)

    def exc_term(self, st, exc, op, c):
        t = lambda o, k: z3.Bool(f'exc{exc.tag}{o}{k.__module__}.{k.__qualname__}')
        known = st.ghost.get(('exc', exc.tag), ())
        if (op, c) not in known:
            st.ghost[('exc', exc.tag)] = known + ((op, c),)
            for o, k in known:
                for (o1, k1), (o2, k2) in (((o, k), (op, c)), ((op, c), (o, k))):
                    if o1 == '<:' and o2 == '<:' and issubclass(k1, k2):
                        st.assume(z3.Implies(t(o1, k1), t(o2, k2)))
                    if o1 == '=' and o2 == '=' and k1 is not k2:
                        st.assume(z3.Not(z3.And(t(o1, k1), t(o2, k2))))
                    if o1 == '=' and o2 == '<:':
                        st.assume(z3.Implies(t(o1, k1), t(o2, k2) if issubclass(k1, k2) else z3.Not(t(o2, k2))))
        return t(op, c)

    def same_exc_type(self, st, a, b):
        if isinstance(a, ExcType) and isinstance(b, ExcType):
            if a.exc.tag == b.exc.tag:
                return True
            raise Unsupported('comparison of the classes of two exceptions')
        a, b = (a, b) if isinstance(a, ExcType) else (b, a)
        if not isinstance(b, type):
            return False
        if not issubclass(b, a.exc.cls) or any(issubclass(b, x) for x in a.exc.excl):
            return False
        return self.exc_term(st, a.exc, '=', b)

    def compare(self, st, op, a, b):
        """python comparison: yields (st, value|Raise)"""
        if isinstance(op, ast.Eq):
            yield st, mkbool(self.py_eq(st, a, b))
            return
        if isinstance(op, ast.NotEq):
            r = self.py_eq(st, a, b)
            yield st, mkbool((not r) if isinstance(r, bool) else z3.simplify(z3.Not(r)))
            return
        if isinstance(op, ast.Is):
            yield st, mkbool(self.py_is(st, a, b))
            return
        if isinstance(op, ast.IsNot):
            r = self.py_is(st, a, b)
            yield st, mkbool((not r) if isinstance(r, bool) else z3.simplify(z3.Not(r)))
            return
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            for s, r in self.contains(st, a, b):
                if is_raise(r):
                    yield s, r
                else:
                    yield s, (not r if neg else r) if isinstance(r, bool) else mkbool(z3.Not(r.t) if neg else r.t)
            return
        # ordering
        if (a is UNORDERED and as_key(b) is not None) or (b is UNORDERED and as_key(a) is not None):
            yield st, False
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Uncomparable) and as_key(y) is not None:
                yield st, Raise(Exc(x.cls, ('cannot be compared',), arbitrary=True))
                return
        if v_is_poison(a) or v_is_poison(b):
            raise Unsupported('use of a variable with no known value')
        ak, bk = as_key(a), as_key(b)
        if ak is not None and bk is not None:
            yield st, mkbool(z3.simplify(order(op, ak, bk)))
            return
        ai, bi = as_int(a), as_int(b)
        if ai is not None and bi is not None:
            yield st, mkbool(simp(order(op, zint(ai), zint(bi))))
            return
        for x, y in ((a, b), (b, a)):
            if x is None and (y is None or as_key(y) is not None or as_int(y) is not None
                              or isinstance(y, (str, tuple, float))):
                yield st, Raise(Exc(TypeError, ('unorderable',)))
                return
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            try:
                yield st, eval_order(op, a, b)
            except TypeError:
                yield st, Raise(Exc(TypeError, ()))
            return
        if isinstance(a, (int, float, SInt, SReal)) and isinstance(b, (int, float, SInt, SReal)):
            yield st, mkbool(order(op, zreal(a), zreal(b)))
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 0:
            yield st, isinstance(op, (ast.LtE, ast.GtE))
            return
        raise Unsupported(f'comparison of {a!r} and {b!r}')

    def contains(self, st, x, c):
        if isinstance(c, tuple):
            cs = [self.py_eq(st, x, y) for y in c]
            if any(r is True for r in cs):
                yield st, True
                return
            cs = [r for r in cs if r is not False]
            yield st, (mkbool(z3.Or(*cs)) if cs else False)
            return
        if isinstance(c, str) and isinstance(x, str):
            yield st, x in c
            return
        if isinstance(c, Ref):
            f = self.class_lookup(st.get(c).cls, '__contains__')
            if f is not None:
                for s, r in self.call(st, f, [c, x], {}):
                    if is_raise(r):
                        yield s, r
                    else:
                        yield from self.truth(s, r)
                return
        for s, sq in self.iterate(st, c):
            if is_raise(sq):
                yield s, sq
            elif isinstance(sq, Seq):
                if sq.values is not None:
                    yield from self.contains(s, x, tuple(sq.values))
                else:
                    for s2, i in self.fork_exists(s, 0, sq.n, lambda j, s=s: self.py_eq(s, x, sq.at(j))):
                        yield s2, i is not None
            else:
                raise Unsupported('in over a non-sequence')

    def iterate(self, st, v):
        """the elements of an iterable as a Seq / FilterIter / RangeVal / GenObj: yields (st, that | Raise)"""
        if isinstance(v, (Seq, FilterIter, GenObj, RangeVal)):
            yield st, v
        elif isinstance(v, SeqIter):
            yield st, v.seq
        elif isinstance(v, tuple):
            yield st, Seq.concrete(v)
        elif isinstance(v, str):
            yield st, Seq.concrete(v)
        elif isinstance(v, Ref):
            o = st.get(v)
            if hasattr(o.cls, 'native_iter'):
                yield from o.cls.native_iter(self, st, v)
                return
            f = self.class_lookup(o.cls, '__iter__')
            if f is None:
                yield st, Raise(Exc(TypeError, ('not iterable',)))
                return
            for s, r in self.call(st, f, [v], {}):
                if is_raise(r):
                    yield s, r
                elif isinstance(r, Ref) and r == v:
                    raise Unsupported('iterator object')
                else:
                    yield from self.iterate(s, r)
        elif v is None or isinstance(v, (int, SInt)):
            yield st, Raise(Exc(TypeError, ('not iterable',)))
        else:
            raise Unsupported(f'iteration over {v!r}')

    # ------------------------------------------------------------ classes and attributes
    def mro(self, cls):
        if isinstance(cls, SymClass):
            return cls.mro()
        return cls.__mro__

    def class_lookup(self, cls, name, user=False):
        for k in self.mro(cls):
            ns = k.ns if isinstance(k, SymClass) else k.__dict__
            if user and k is object:
                continue
            if name in ns:
                if hidden.ours(ns.get('__module__')):
                    hidden.shared(ns[name], name)
                return ns[name]
        return None

    def class_has(self, cls, name):
        for k in self.mro(cls):
            ns = k.ns if isinstance(k, SymClass) else k.__dict__
            if name in ns:
                return True
        return False

    def issub(self, cls, target):
        """issubclass, or None if undecidable"""
        pc = getattr(cls, 'pycls', None)
        if isinstance(target, tuple):
            rs = [self.issub(cls, t) for t in target]
            return True if any(r is True for r in rs) else (None if None in rs else False)
        if isinstance(cls, SymClass):
            if any(k is target for k in cls.mro()):
                return True
            return False
        if pc is not None and not isinstance(cls, SymClass):
            if isinstance(target, type):
                return issubclass(pc, target)
        if isinstance(target, SymClass):
            return False
        try:
            return issubclass(cls, target)
        except TypeError:
            return any(k is target for k in cls.__mro__)

    def getattr(self, st, v, name):
        """yields (st, value|Raise)"""
        if v is POISON:
            raise Unsupported('use of a variable with no known value')
        if isinstance(v, Ref):
            o = st.get(v)
            cls = o.cls
            if name == '__class__':
                yield st, (getattr(cls, 'pycls', cls) if not isinstance(cls, SymClass) else cls)
                return
            if name in hidden.hidden(cls):
                h = o.fields.get(name)
                if isinstance(h, hidden.Hidden) or name not in o.fields and v.oid in self.pre_oids:
                    if not isinstance(h, hidden.Hidden):           # it may be there or not
                        always, h = hidden.of_class(cls, name)
                        if not always:
                            yield st.copy(), Raise(Exc(AttributeError, (name,)))
                    yield st, hidden.read(self, name, h)
                    return
            ga = getattr(cls, 'native_getattr', None)
            if ga is not None:
                r = ga(self, st, v, name)
                if r is not None:
                    yield from r
                    return
            if self.class_has(cls, name):
                d = self.class_lookup(cls, name)
                if isinstance(d, (property, PropVal)):
                    if d.fget is None:
                        yield st, Raise(Exc(AttributeError, (name,)))
                    else:
                        yield from self.call(st, d.fget, [v], {})
                    return
                if name in o.fields:
                    yield st, o.fields[name]
                    return
                yield from self.bind(st, d, v, cls)
                return
            if name in o.fields:
                h = self.hooks.get('getfield')
                if h is not None:
                    h(self, st, v, name)
                yield st, o.fields[name]
                return
            if name == '__class__':
                yield st, cls
                return
            if name == '__dict__':
                raise Unsupported('__dict__')
            g = self.class_lookup(cls, '__getattr__')
            if g is not None:
                yield from self.call(st, g, [v, name], {})
                return
            yield st, Raise(Exc(AttributeError, (name,)))
            return
        if isinstance(v, SuperVal):
            o = v.obj
            cls = st.get(o).cls if isinstance(o, Ref) else o
            m = list(self.mro(cls))
            for k in m[m.index(v.cls) + 1:]:
                ns = k.ns if isinstance(k, SymClass) else k.__dict__
                if name in ns:
                    d = ns[name]
                    if isinstance(d, (property, PropVal)):
                        yield from self.call(st, d.fget, [o], {})
                    else:
                        yield from self.bind(st, d, o if isinstance(o, Ref) else None, cls)
                    return
            yield st, Raise(Exc(AttributeError, (name,)))
            return
        if isinstance(v, SymClass):
            if name == '__name__':
                yield st, v.name
                return
            d = self.class_lookup(v, name)
            if d is None and not self.class_has(v, name):
                yield st, Raise(Exc(AttributeError, (name,)))
            else:
                yield from self.bind(st, d, None, v)
            return
        if isinstance(v, Exc):
            if name == 'args':
                yield st, tuple(v.args)
                return
            if name in v.fields:
                yield st, v.fields[name]
                return
            if name == '__class__':
                yield st, (ExcType(v) if v.arbitrary else v.cls)
                return
            raise Unsupported(f'attribute {name} of an exception')
        if isinstance(v, Bound):
            if name == '__self__':
                yield st, v.self
                return
            if name == '__func__':
                yield st, v.func
                return
            if name in ('__name__', '__qualname__', '__doc__'):
                yield st, getattr(v.func, name, 'f')
                return
            if isinstance(v.func, NativeFn):
                yield from v.func.eng_getattr(self, st, name)
                return
            raise Unsupported(f'attribute {name} of a bound method')
        if isinstance(v, Closure):
            if name in v.attrs:
                yield st, v.attrs[name]
                return
            if name == '__name__':
                yield st, getattr(v.node, 'name', '<lambda>')
                return
            raise Unsupported(f'attribute {name} of a closure')
        if isinstance(v, (SeqIter, FilterIter, GenObj, CMVal)):
            raise Unsupported(f'attribute {name} of {v!r}')
        if isinstance(v, Sym):
            if hasattr(v, 'eng_getattr'):
                yield from v.eng_getattr(self, st, name)
                return
            h = self.hooks.get('sym_getattr')
            if h is not None:
                r = h(self, st, v, name)
                if r is not None:
                    yield from r
                    return
            if isinstance(v, (SItem, SOpq)) and not name.startswith('__'):
                # any object: it may have the attribute or not
                for s, has in self.truth(st, SBool(z3.Function(f'has_attr_{name}_{v.sort}', v.sort, BoolS)(v.t))):
                    if has:
                        s.log(f'the value has {name}')
                        yield s, SOpq(z3.Function(f'attr_{name}_{v.sort}', v.sort, Opq)(v.t))
                    else:
                        yield s, Raise(Exc(AttributeError, (name,)))
                return
            raise Unsupported(f'attribute {name} of an opaque value')
        if v is None or isinstance(v, (bool, int, float, tuple)):
            if not hasattr(v, name):
                yield st, Raise(Exc(AttributeError, (name,)))
                return
            if isinstance(v, tuple):
                raise Unsupported(f'tuple.{name}')
            yield st, getattr(v, name)
            return
        # real object: module, class, function, str
        if isinstance(v, types.ModuleType):
            if not hasattr(v, name):
                yield st, Raise(Exc(AttributeError, (name,)))
            else:
                yield st, getattr(v, name)
            return
        if isinstance(v, type):
            if name in ('__name__', '__qualname__', '__doc__', '__module__'):
                yield st, getattr(v, name)
                return
            ov = st.ghost.get(('clsattr', v, name))
            if ov is not None:
                yield st, ov[0]
                return
            if name in hidden.hidden(v):
                raise Unsupported(f'reads {name}, which is not part of the representation under contract')
            d = self.class_lookup(v, name)
            if d is None and not self.class_has(v, name):
                yield st, Raise(Exc(AttributeError, (name,)))
            else:
                yield from self.bind(st, d, None, v)
            return
        if isinstance(v, types.FunctionType) and name in vars(v) and hidden.ours(v.__module__):
            hidden.shared(vars(v)[name], name)
        if isinstance(v, (str, bytes, types.FunctionType, types.BuiltinFunctionType, functools.partial)):
            if not hasattr(v, name):
                yield st, Raise(Exc(AttributeError, (name,)))
            else:
                yield st, getattr(v, name)
            return
        na = getattr(v, 'eng_getattr', None)
        if na is not None:
            yield from na(self, st, name)
            return
        try:
            r = getattr(v, name)
        except AttributeError:
            yield st, Raise(Exc(AttributeError, (name,)))
            return
        yield st, r

    def bind(self, st, d, inst, cls):
        if isinstance(d, classmethod):
            yield st, Bound(d.__func__, cls)
        elif isinstance(d, staticmethod):
            yield st, d.__func__
        elif inst is not None and isinstance(d, (types.FunctionType, Closure)):
            yield st, Bound(d, inst)
        elif inst is not None and isinstance(d, NativeFn) and d.method:
            yield st, Bound(d, inst)
        elif isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)) and inst is not None:
            yield st, Bound(d, inst)
        else:
            yield st, d

    def setattr(self, st, v, name, val):
        """yields (st, None|Raise)"""
        if isinstance(v, Ref):
            o = st.get(v)
            d = self.class_lookup(o.cls, name)
            if isinstance(d, (property, PropVal)):
                if d.fset is None:
                    yield st, Raise(Exc(AttributeError, (name,)))
                else:
                    for s, r in self.call(st, d.fset, [v, val], {}):
                        yield s, (r if is_raise(r) else None)
                return
            h = self.hooks.get('setattr')
            if h is not None:
                h(self, st, v, name, val)
            ns = getattr(o.cls, 'native_setattr', None)
            if ns is not None:
                yield from ns(self, st, v, name, val)
                return
            st.setf(v, name, val)
            yield st, None
            return
        if isinstance(v, SymClass):
            raise Unsupported('class attribute assignment')
        if isinstance(v, (type, types.ModuleType, types.FunctionType)):
            if isinstance(v, type) and hidden.ignored(v, name):
                raise Unsupported('assignment to an attribute of a class')
            self.oblige(st, f'frame: no write to shared {getattr(v, "__name__", v)}.{name}', False)
            raise Unsupported('assignment to an attribute of a shared object')
        if isinstance(v, Closure):
            v.attrs[name] = val
            yield st, None
            return
        if v is None or isinstance(v, (int, str, tuple)):
            yield st, Raise(Exc(AttributeError, (name,)))
            return
        raise Unsupported(f'attribute assignment on {v!r}')

    def delattr(self, st, v, name):
        if isinstance(v, Ref):
            o = st.get(v)
            d = self.class_lookup(o.cls, name)
            if isinstance(d, (property, PropVal)):
                if d.fdel is None:
                    yield st, Raise(Exc(AttributeError, (name,)))
                else:
                    for s, r in self.call(st, d.fdel, [v], {}):
                        yield s, (r if is_raise(r) else None)
                return
            if name in o.fields:
                st.heap[v.oid] = o.without(name)
                yield st, None
            else:
                yield st, Raise(Exc(AttributeError, (name,)))
            return
        raise Unsupported('del attribute')

    # ------------------------------------------------------------ calls
    def native(self, obj, handler):
        self.natives[id(obj)] = handler
        self.native_keep.append(obj)

    def call(self, st, f, args, kwargs):
        """yields (st, value|Raise)"""
        if isinstance(f, Bound):
            yield from self.call(st, f.func, [f.self] + list(args), kwargs)
            return
        if isinstance(f, NativeFn):
            yield from f.handler(self, st, args, kwargs)
            return
        if isinstance(f, KeyFn):
            yield from self.call_key(st, f, args)
            return
        if id(f) in self.contracts:
            c = self.contracts[id(f)]
            r = c.apply(self, st, list(args), dict(kwargs))
            if r is not None:
                self.contracts_used.add(c.name)
                yield from r
                return
        if id(f) in self.natives:
            yield from self.natives[id(f)](self, st, list(args), dict(kwargs))
            return
        if isinstance(f, types.FunctionType):
            w = getattr(f, '__wrapped__', None)
            if w is not None and f.__code__.co_filename == contextlib.__file__:
                yield st, CMVal(w, list(args), dict(kwargs))
                return
            mod = getattr(f, '__module__', '') or ''
            if mod.split('.')[0] not in self.inline_modules:
                raise Unsupported(f'call of {mod}.{getattr(f, "__qualname__", f)}')
            yield from self.inline(st, f, args, kwargs)
            return
        if isinstance(f, Closure):
            if f.contextmanager:
                g = Closure(f.node, f.fid, f.globs, f.defaults, f.kwdefaults, f.qualname, f.clsname)
                yield st, CMVal(g, list(args), dict(kwargs))
                return
            yield from self.inline(st, f, args, kwargs)
            return
        if isinstance(f, natives.PartialVal):
            yield from self.call(st, f.f, list(f.args) + list(args), {**f.kw, **kwargs})
            return
        if isinstance(f, operator.itemgetter):
            idx = f.__reduce__()[1]
            if len(idx) != 1:
                raise Unsupported('itemgetter of several items')
            yield from self.getitem(st, args[0], idx[0])
            return
        if isinstance(f, operator.attrgetter):
            nm = f.__reduce__()[1]
            if len(nm) != 1 or '.' in nm[0]:
                raise Unsupported('attrgetter')
            yield from self.getattr(st, args[0], nm[0])
            return
        if getattr(f, '__module__', '') in ('logging',) or isinstance(getattr(f, '__self__', None), logging.Logger):
            st.log('log')
            yield st, None
            return
        if isinstance(f, functools.partial):
            yield from self.call(st, f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
            return
        if isinstance(f, (type, SymClass)):
            yield from self.instantiate(st, f, args, kwargs)
            return
        if isinstance(f, Ref):
            c = self.class_lookup(st.get(f).cls, '__call__')
            if c is not None:
                yield from self.call(st, c, [f] + list(args), kwargs)
                return
            yield st, Raise(Exc(TypeError, ('not callable',)))
            return
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, '__self__', None), (str, bytes)):
            yield from self.call_str(st, f, args, kwargs)
            return
        if isinstance(f, (types.MethodType,)):
            yield from self.call(st, f.__func__, [f.__self__] + list(args), kwargs)
            return
        if f is None or isinstance(f, (bool, int, str, tuple, SInt, SBool, SItem, SKey)):
            yield st, Raise(Exc(TypeError, ('not callable',)))
            return
        h = self.hooks.get('call_opaque')
        if h is not None and isinstance(f, Sym):
            yield from h(self, st, f, args, kwargs)
            return
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            yield from self.call_slot(st, f, args, kwargs)
            return
        raise Unsupported(f'call of {f!r}')

    def call_slot(self, st, f, args, kwargs):
        if f is object.__init__:
            yield st, None
            return
        if args and isinstance(args[0], Ref):
            m = getattr(st.get(args[0]).cls, 'm_' + f.__name__.strip('_'), None)
            if m is not None:
                yield from m(self, st, args, kwargs)
                return
        raise Unsupported(f'call of {f!r}')

    def call_str(self, st, f, args, kwargs):
        flat = list(args)
        if all(isinstance(a, (str, int, tuple)) for a in flat) and not kwargs:
            try:
                yield st, f(*flat)
            except Exception as e:
                yield st, Raise(Exc(type(e), e.args))
            return
        # result is an unknown string
        yield st, SStr(fresh('str', Opq))

    def call_key(self, st, k, args):
        a, = args
        if isinstance(a, OddItem):
            yield st, (UNORDERED if a.key is None else a.key)
        elif isinstance(a, SItem):
            if k.raises:
                b = st.copy()
                b.log('keyraise', k.name)
                yield b, Raise(Exc(Exception, ('key',), arbitrary=True))
            st.log('key', k.name)
            yield st, SKey(k.of(a.t))
        elif a is None:
            b = st.copy()
            yield b, Raise(Exc(TypeError, ('key(None)',)))
            b = st.copy()
            yield b, None
            b = st.copy()
            yield b, Raise(Exc(Exception, ('key(None)',), arbitrary=True))
        else:
            raise Unsupported(f'key of {a!r}')

    def instantiate(self, st, cls, args, kwargs):
        if isinstance(cls, type) and issubclass(cls, BaseException):
            yield st, Exc(cls, tuple(args))
            return
        if isinstance(cls, type) and cls is not object and getattr(cls, '__module__', '').split('.')[0] not in self.inline_modules:
            raise Unsupported(f'instantiation of {cls}')
        init = self.class_lookup(cls, '__init__')
        ref = st.alloc(cls, {})
        if init is None or init is object.__init__ or (isinstance(init, types.FunctionType)
                                                        and init.__module__ in ('typing', 'abc')):
            if args or kwargs:
                yield st, Raise(Exc(TypeError, ('takes no arguments',)))
            else:
                yield st, ref
            return
        for s, r in self.call(st, init, [ref] + list(args), kwargs):
            yield s, (r if is_raise(r) else ref)

    def bind_args(self, st, f, args, kwargs):
        """python argument binding: returns dict of locals or Exc"""
        if isinstance(f, Closure):
            node, defaults, kwdefaults = f.node, f.defaults, f.kwdefaults
        else:
            node, _ = SOURCE.find(f)
            defaults, kwdefaults = f.__defaults__ or (), f.__kwdefaults__ or {}
            if hidden.ours(f.__module__):
                for d in (*defaults, *kwdefaults.values()):
                    hidden.shared(d, 'a default value')
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                return Exc(TypeError, ('too many positional arguments',))
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        kw = dict(kwargs)
        names = set(pos[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for n, v in kw.items():
            if n in names:
                if n in out:
                    return Exc(TypeError, (f'multiple values for {n}',))
                out[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                return Exc(TypeError, (f'unexpected keyword argument {n}',))
        nd = len(defaults)
        for n, d in zip(pos[len(pos) - nd:], defaults):
            out.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in kwdefaults:
                    out[x.arg] = kwdefaults[x.arg]
                else:
                    return Exc(TypeError, (f'missing argument {x.arg}',))
        for n in pos:
            if n not in out:
                return Exc(TypeError, (f'missing argument {n}',))
        if a.kwarg is not None:
            out[a.kwarg.arg] = ('kwargs', extra)
        return out

    def inline(self, st, f, args, kwargs):
        b = self.bind_args(st, f, args, kwargs)
        if isinstance(b, Exc):
            yield st, Raise(b)
            return
        node = f.node if isinstance(f, Closure) else SOURCE.find(f)[0]
        if has_yield(node):
            yield st, GenObj(f, b)
            return
        yield from self.run_body(st, f, b, None)

    def run_body(self, st, f, binding, on_yield):
        """executes the body of f; on_yield(eng, st, value) -> (st, value|Raise) generator"""
        if self.depth > MAX_DEPTH:
            raise Unsupported('call depth')
        if isinstance(f, Closure):
            node, clsname, globs, parent = f.node, f.clsname, f.globs, f.fid
            qn = f.qualname
        else:
            node, clsname = SOURCE.find(f)
            globs, parent, qn = f.__globals__, None, f'{f.__module__}.{f.__qualname__}'
        self.functions_used.add(qn)
        fid = next(self.fid)
        fr = {'__globals__': globs, '__parent__': parent, '__cls__': clsname, '__qual__': qn,
              '__locals__': local_names(node)}
        if on_yield is not None:
            fr['__yield__'] = on_yield
        ps = node.args.posonlyargs + node.args.args
        if ps:
            fr['__first__'] = ps[0].arg
        if parent is None and not isinstance(f, Closure) and f.__closure__:
            fr['__cells__'] = dict(zip(f.__code__.co_freevars, f.__closure__))
        for k, v in binding.items():
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'kwargs' and isinstance(v[1], dict):
                v = st.alloc(self.NDict, {'d': dict(v[1])})
            fr[k] = v
        st.frames[fid] = fr
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                gen = self.ev(node.body, st, fid)
                while True:
                    d = self.depth
                    try:
                        s, v = next(gen)
                    except StopIteration:
                        break
                    self.depth -= 1
                    yield s, v
                    self.depth = d
                return
            gen = self.block(node.body, st, fid)
            while True:
                d = self.depth
                try:
                    s, out = next(gen)
                except StopIteration:
                    break
                self.depth -= 1
                if out[0] == 'exc':
                    yield s, Raise(out[1])
                elif out[0] == 'ret':
                    yield s, out[1]
                elif out[0] == 'norm':
                    yield s, None
                else:
                    raise Unsupported(f'outcome {out}')
                self.depth = d
        finally:
            self.depth -= 1
            if self.depth < 0:
                self.depth = 0

    # ------------------------------------------------------------ names
    def mangle(self, st, fid, name):
        cls = st.frames[fid].get('__cls__')
        if cls and name.startswith('__') and not name.endswith('__'):
            return '_' + cls.lstrip('_') + name
        return name

    def load(self, st, fid, name):
        name = self.mangle(st, fid, name)
        f = fid
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                return fr[name]
            if name in fr['__locals__'] and f == fid:
                return Raise(Exc(UnboundLocalError, (name,)))
            cells = fr.get('__cells__')
            if cells and name in cells:
                return cells[name].cell_contents
            f = fr['__parent__']
        g = st.frames[fid]['__globals__']
        if name in g:
            ov = st.ghost.get(('global', id(g), name))
            if ov is not None:
                return ov[0]
            if hidden.ours(g.get('__name__')):
                hidden.shared(g[name], name)
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        return Raise(Exc(NameError, (name,)))

    def store(self, st, fid, name, val):
        name = self.mangle(st, fid, name)
        fr = st.frames[fid]
        if name in fr.get('__nonlocal__', ()):
            f = fr['__parent__']
            while f is not None:
                if name in st.frames[f]:
                    st.frames[f][name] = val
                    return
                f = st.frames[f]['__parent__']
            raise Unsupported('nonlocal not found')
        if name in fr.get('__global__', ()):
            raise Unsupported('global assignment')
        fr[name] = val

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fid):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {getattr(e, "lineno", "?")}')
        yield from m(e, st, fid)

    def evs(self, es, st, fid):
        """evaluate expressions left to right: yields (st, [values] | Raise)"""
        if not es:
            yield st, []
            return
        for s, v in self.ev(es[0], st, fid):
            if is_raise(v):
                yield s, v
                continue
            for s2, rest in self.evs(es[1:], s, fid):
                yield s2, (rest if is_raise(rest) else [v] + rest)

    def e_Constant(self, e, st, fid):
        yield st, e.value

    def e_Name(self, e, st, fid):
        yield st, self.load(st, fid, e.id)

    def e_NamedExpr(self, e, st, fid):
        for s, v in self.ev(e.value, st, fid):
            if not is_raise(v):
                self.store(s, fid, e.target.id, v)
            yield s, v

    def e_Attribute(self, e, st, fid):
        for s, v in self.ev(e.value, st, fid):
            if is_raise(v):
                yield s, v
            else:
                yield from self.getattr(s, v, self.mangle(s, fid, e.attr))

    def e_JoinedStr(self, e, st, fid):
        # formatting calls str/repr of the values, which is assumed not to raise and to have no effect
        parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        for s, vs in self.evs(parts, st, fid):
            if is_raise(vs):
                yield s, vs
            elif all(isinstance(v, (str, int)) and not isinstance(v, bool) for v in vs) and \
                    all(isinstance(x, ast.Constant) or (x.conversion == -1 and x.format_spec is None) for x in e.values):
                it = iter(vs)
                yield s, ''.join(str(x.value) if isinstance(x, ast.Constant) else str(next(it)) for x in e.values)
            else:
                yield s, SStr(fresh('fstr', Opq))

    def e_Tuple(self, e, st, fid):
        yield from self.seq_display(e.elts, st, fid, lambda s, vs: (s, tuple(vs)))

    def e_List(self, e, st, fid):
        def mk(s, vs):
            return s, s.alloc(self.NList, {'seq': Seq.concrete(vs)})
        yield from self.seq_display(e.elts, st, fid, mk)

    def e_Set(self, e, st, fid):
        raise Unsupported('set display')

    def seq_display(self, elts, st, fid, mk):
        plain = [x.value if isinstance(x, ast.Starred) else x for x in elts]
        for s, vs in self.evs(plain, st, fid):
            if is_raise(vs):
                yield s, vs
                continue
            flat = []
            for x, v in zip(elts, vs):
                if isinstance(x, ast.Starred):
                    r = list(self.iterate(s, v))
                    if len(r) != 1 or not isinstance(r[0][1], Seq) or r[0][1].values is None:
                        raise Unsupported('starred of unknown length')
                    flat.extend(r[0][1].values)
                else:
                    flat.append(v)
            yield mk(s, flat)

    def e_Dict(self, e, st, fid):
        keys = [k for k in e.keys if k is not None]
        for s, ks in self.evs(keys, st, fid):
            if is_raise(ks):
                yield s, ks
                continue
            for s2, vs in self.evs(e.values, s, fid):
                if is_raise(vs):
                    yield s2, vs
                    continue
                d = {}
                ki = iter(ks)
                for k, v in zip(e.keys, vs):
                    if k is None:
                        d.update(self.dict_of(s2, v))
                    else:
                        kv = next(ki)
                        if isinstance(kv, Sym) or isinstance(kv, Ref):
                            raise Unsupported('symbolic dict key')
                        d[kv] = v
                yield s2, s2.alloc(self.NDict, {'d': d})

    def dict_of(self, st, v):
        if isinstance(v, Ref) and st.get(v).cls is self.NDict:
            return dict(st.f(v, 'd'))
        if isinstance(v, dict):
            return dict(v)
        raise Unsupported('mapping of unknown contents')

    def e_IfExp(self, e, st, fid):
        for s, v in self.ev(e.test, st, fid):
            if is_raise(v):
                yield s, v
                continue
            for s2, b in self.truth(s, v):
                if is_raise(b):
                    yield s2, b
                else:
                    yield from self.ev(e.body if b else e.orelse, s2, fid)

    def e_BoolOp(self, e, st, fid):
        def go(vals, s):
            for s1, v in self.ev(vals[0], s, fid):
                if is_raise(v) or len(vals) == 1:
                    yield s1, v
                    continue
                for s2, b in self.truth(s1, v):
                    if is_raise(b):
                        yield s2, b
                    elif b == isinstance(e.op, ast.Or):
                        # narrow the value: an SBool known true/false
                        yield s2, (b if isinstance(v, SBool) else v)
                    else:
                        yield from go(vals[1:], s2)
        yield from go(e.values, st)

    def e_UnaryOp(self, e, st, fid):
        for s, v in self.ev(e.operand, st, fid):
            if is_raise(v):
                yield s, v
            elif isinstance(e.op, ast.Not):
                if isinstance(v, SBool):
                    yield s, mkbool(z3.simplify(z3.Not(v.t)))
                    continue
                for s2, b in self.truth(s, v):
                    yield s2, (b if is_raise(b) else not b)
            elif isinstance(e.op, ast.USub):
                i = as_int(v)
                if i is not None:
                    yield s, mkint(-zint(i) if not isinstance(i, int) else -i)
                elif isinstance(v, float):
                    yield s, -v
                elif v is None or isinstance(v, (str, tuple)):
                    yield s, Raise(Exc(TypeError, ()))
                else:
                    raise Unsupported('negation')
            elif isinstance(e.op, ast.UAdd) and as_int(v) is not None:
                yield s, v
            else:
                raise Unsupported('unary operator')

    def e_BinOp(self, e, st, fid):
        for s, vs in self.evs([e.left, e.right], st, fid):
            if is_raise(vs):
                yield s, vs
            else:
                yield from self.binop(s, e.op, vs[0], vs[1])

    def binop(self, st, op, a, b):
        if v_is_poison(a) or v_is_poison(b):
            raise Unsupported('use of a variable with no known value')
        ai, bi = as_int(a), as_int(b)
        if ai is not None and bi is not None:
            if isinstance(ai, int) and isinstance(bi, int):
                try:
                    yield st, PYOPS[type(op)](ai, bi)
                except KeyError:
                    raise Unsupported('operator')
                except Exception as ex:
                    yield st, Raise(Exc(type(ex), ()))
                return
            za, zb = zint(ai), zint(bi)
            if isinstance(op, ast.Add):
                yield st, mkint(za + zb)
            elif isinstance(op, ast.Sub):
                yield st, mkint(za - zb)
            elif isinstance(op, ast.Mult):
                yield st, mkint(za * zb)
            elif isinstance(op, (ast.FloorDiv, ast.Mod)):
                for s, z in self.branch(st, zb == 0):
                    if z:
                        yield s, Raise(Exc(ZeroDivisionError, ()))
                    elif isinstance(bi, int) and bi > 0:
                        yield s, mkint(za / zb if isinstance(op, ast.FloorDiv) else za % zb)
                    else:
                        for s2, pos in self.branch(s, zb > 0):
                            if not pos:
                                raise Unsupported('division by a negative number')
                            yield s2, mkint(za / zb if isinstance(op, ast.FloorDiv) else za % zb)
            elif isinstance(op, ast.BitAnd) and not isinstance(a, (bool, SBool)) and isinstance(bi, int) and bi > 0 \
                    and bi & (bi + 1) == 0:
                yield st, mkint(za % zint(bi + 1))        # the low bits
            elif isinstance(op, ast.LShift) and isinstance(bi, int) and 0 <= bi < 64:
                yield st, mkint(za * zint(1 << bi))
            elif isinstance(op, ast.RShift) and isinstance(bi, int) and 0 <= bi < 64:
                yield st, mkint(za / zint(1 << bi))
            else:
                raise Unsupported('integer operator')
            return
        if isinstance(a, (int, float, SInt, SReal)) and isinstance(b, (int, float, SInt, SReal)):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                yield st, PYOPS[type(op)](a, b)
                return
            if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
                za, zb = zreal(a), zreal(b)
                r = za + zb if isinstance(op, ast.Add) else za - zb if isinstance(op, ast.Sub) else za * zb
                yield st, SReal(r)
                return
            raise Unsupported('real operator')
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                yield st, a + b
                return
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                yield st, (a + b if isinstance(a, str) and isinstance(b, str) else SStr(fresh('cat', Opq)))
                return
            if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a).cls is self.NList and st.get(b).cls is self.NList:
                yield st, st.alloc(self.NList, {'seq': st.f(a, 'seq').concat(st.f(b, 'seq'))})
                return
        if isinstance(op, ast.Mod) and isinstance(a, str):
            yield st, SStr(fresh('fmt', Opq))
            return
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and isinstance(b, Ref) and \
                st.get(a).cls is self.NDict and st.get(b).cls is self.NDict:
            yield st, st.alloc(self.NDict, {'d': {**st.f(a, 'd'), **st.f(b, 'd')}})
            return
        if a is None or b is None:
            yield st, Raise(Exc(TypeError, ()))
            return
        raise Unsupported(f'operator {type(op).__name__} on {a!r}, {b!r}')

    def e_Compare(self, e, st, fid):
        def go(s, left, ops, comps):
            for s1, right in self.ev(comps[0], s, fid):
                if is_raise(right):
                    yield s1, right
                    continue
                for s2, r in self.compare(s1, ops[0], left, right):
                    if is_raise(r) or len(ops) == 1:
                        yield s2, r
                        continue
                    for s3, b in self.truth(s2, r):
                        if not b or is_raise(b):
                            yield s3, b
                        else:
                            yield from go(s3, right, ops[1:], comps[1:])
        for s, left in self.ev(e.left, st, fid):
            if is_raise(left):
                yield s, left
            else:
                yield from go(s, left, e.ops, e.comparators)

    def e_Lambda(self, e, st, fid):
        for s, (defs, kwdefs) in self.defaults(e.args, st, fid):
            yield s, Closure(e, fid, s.frames[fid]['__globals__'], defs, kwdefs,
                             s.frames[fid]['__qual__'] + '.<lambda>', s.frames[fid]['__cls__'])

    def defaults(self, a, st, fid):
        kws = [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for s, vs in self.evs(list(a.defaults) + [d for _, d in kws], st, fid):
            if is_raise(vs):
                raise Unsupported('default raises')
            n = len(a.defaults)
            yield s, (tuple(vs[:n]), {k: v for (k, _), v in zip(kws, vs[n:])})

    def e_Call(self, e, st, fid):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            yield from self.super_call(e, st, fid)
            return
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args:
            raise Unsupported('locals()')
        for s, f in self.ev(e.func, st, fid):
            if is_raise(f):
                yield s, f
                continue
            pos = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            for s2, vs in self.evs(pos + [k.value for k in e.keywords], s, fid):
                if is_raise(vs):
                    yield s2, vs
                    continue
                for s3, args, kwargs in self.expand(e, s2, vs):
                    if args is None:
                        yield s3, kwargs
                        continue
                    s3.ghost['line'] = e.lineno
                    yield from self.call(s3, f, args, kwargs)

    def super_call(self, e, st, fid):
        f = fid
        while f is not None and '__class__' not in (st.frames[f].get('__cells__') or {}):
            f = st.frames[f]['__parent__']
        if e.args or e.keywords or f is None:
            raise Unsupported('super()')
        cls = st.frames[f]['__cells__']['__class__'].cell_contents
        first = st.frames[f].get('__first__')
        yield st, SuperVal(cls, st.frames[f][first])

    def expand(self, e, st, vs):
        args, kwargs = [], {}
        for a, v in zip(e.args, vs):
            if isinstance(a, ast.Starred):
                rs = list(self.iterate(st, v))
                if len(rs) != 1:
                    raise Unsupported('starred argument')
                st, sq = rs[0]
                if is_raise(sq):
                    yield st, None, sq
                    return
                if not isinstance(sq, Seq) or sq.values is None:
                    if len(e.args) == 1 and not e.keywords:
                        args = ArgSeq(sq)
                        yield st, args, kwargs
                        return
                    raise Unsupported('starred argument of unknown length')
                args.extend(sq.values)
            else:
                args.append(v)
        for k, v in zip(e.keywords, vs[len(e.args):]):
            if k.arg is None:
                if v is None:
                    yield st, None, Raise(Exc(TypeError, ()))
                    return
                for kk, vv in self.dict_of(st, v).items():
                    if kk in kwargs:
                        yield st, None, Raise(Exc(TypeError, ('multiple values',)))
                        return
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    yield st, None, Raise(Exc(TypeError, ('multiple values',)))
                    return
                kwargs[k.arg] = v
        yield st, args, kwargs

    def e_Subscript(self, e, st, fid):
        if isinstance(e.slice, ast.Slice):
            parts = [e.slice.lower, e.slice.upper, e.slice.step]
            exprs = [p if p is not None else ast.Constant(None) for p in parts]
            for s, vs in self.evs([e.value] + exprs, st, fid):
                if is_raise(vs):
                    yield s, vs
                else:
                    yield from self.getitem(s, vs[0], slice(*vs[1:]))
            return
        for s, vs in self.evs([e.value, e.slice], st, fid):
            if is_raise(vs):
                yield s, vs
            else:
                yield from self.getitem(s, vs[0], vs[1])

    def getitem(self, st, c, i):
        if isinstance(c, tuple):
            if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                yield st, c[i]
                return
            if isinstance(i, int):
                try:
                    yield st, c[i]
                except IndexError:
                    yield st, Raise(Exc(IndexError, ()))
                return
        if isinstance(c, dict) and not isinstance(i, Sym):
            if i in c:
                yield st, c[i]
            else:
                yield st, Raise(Exc(KeyError, (i,)))
            return
        if isinstance(c, Ref):
            g = getattr(st.get(c).cls, 'm_getitem', None)
            if g is not None:
                yield from g(self, st, [c, i], {})
                return
            f = self.class_lookup(st.get(c).cls, '__getitem__')
            if f is not None:
                yield from self.call(st, f, [c, i], {})
                return
            yield st, Raise(Exc(TypeError, ('not subscriptable',)))
            return
        if isinstance(c, str) and isinstance(i, (int, slice)):
            try:
                yield st, c[i]
            except Exception as ex:
                yield st, Raise(Exc(type(ex), ()))
            return
        if c is None or isinstance(c, (int, SInt, SBool)):
            yield st, Raise(Exc(TypeError, ('not subscriptable',)))
            return
        if isinstance(c, type):    # typing generics such as Optional[int]
            yield st, c
            return
        if getattr(type(c), '__module__', '') == 'typing':
            yield st, c
            return
        raise Unsupported(f'subscript of {c!r}')

    def e_Starred(self, e, st, fid):
        raise Unsupported('starred expression')

    # comprehensions ---------------------------------------------------------
    def comprehension(self, e, st, fid, elt):
        """yields (st, Seq|FilterIter|list-of-values|Raise)"""
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        for s, it in self.ev(g.iter, st, fid):
            if is_raise(it):
                yield s, it
                continue
            for s2, sq in self.iterate(s, it):
                if is_raise(sq):
                    yield s2, sq
                    continue
                if isinstance(sq, RangeVal):
                    sq = range_seq(sq)
                if isinstance(sq, GenObj):
                    raise Unsupported('comprehension over a generator')
                if isinstance(sq, Seq) and sq.values is not None:
                    yield from self.compr_concrete(s2, fid, g, elt, sq.values)
                    continue
                yield s2, self.compr_symbolic(s2, fid, g, elt, sq)

    def compr_concrete(self, st, fid, g, elt, values):
        def go(s, k, acc):
            if k == len(values):
                yield s, Seq.concrete(acc)
                return
            cfid = self.sub_frame(s, fid, g.target)
            self.assign_target(s, cfid, g.target, values[k])
            for s1, ok in self.conds(s, cfid, g.ifs):
                if is_raise(ok):
                    yield s1, ok
                elif not ok:
                    yield from go(s1, k + 1, acc)
                else:
                    for s2, v in elt(s1, cfid):
                        if is_raise(v):
                            yield s2, v
                        else:
                            yield from go(s2, k + 1, acc + [v])
        yield from go(st, 0, [])

    def conds(self, st, fid, ifs):
        if not ifs:
            yield st, True
            return
        for s, v in self.ev(ifs[0], st, fid):
            if is_raise(v):
                yield s, v
                continue
            for s2, b in self.truth(s, v):
                if is_raise(b) or not b:
                    yield s2, b
                else:
                    yield from self.conds(s2, fid, ifs[1:])

    def sub_frame(self, st, fid, target):
        cfid = next(self.fid)
        p = st.frames[fid]
        st.frames[cfid] = {'__globals__': p['__globals__'], '__parent__': fid, '__cls__': p['__cls__'],
                           '__qual__': p['__qual__'], '__locals__': frozenset()}
        return cfid

    def pure_value(self, st, fid, g, expr_eval, value):
        """evaluate the element expression on a symbolic element; it must be pure and single-path"""
        s = st.copy()
        cfid = self.sub_frame(s, fid, g.target)
        self.assign_target(s, cfid, g.target, value)
        n0 = len(s.pc)
        h0, t0, f0 = dict(s.heap), s.trace, len(s.facts)
        rs = list(expr_eval(s, cfid))
        if len(rs) != 1 or is_raise(rs[0][1]):
            raise Unsupported('comprehension element forks or raises')
        s2, v = rs[0]
        if any(s2.heap.get(k) is not o for k, o in h0.items()) or \
                [t for t in s2.trace[len(t0):] if t[0] != 'key']:
            raise Unsupported('comprehension element has effects')
        if isinstance(v, Ref) and v.oid not in h0:
            raise Unsupported('comprehension element allocates')
        if len(s2.pc) != n0 or len(s2.facts) != f0:
            raise Unsupported('comprehension element constrains')
        return v

    def compr_symbolic(self, st, fid, g, elt, sq):
        st0 = st.copy()
        if isinstance(sq, FilterIter):
            raise Unsupported('comprehension over a filtered sequence')
        vals = lambda v: self.pure_value(st0, fid, g, elt, v)
        vals(sq.at(fresh_int('probe')))       # surfaces Unsupported now
        if not g.ifs:
            return sq.map(vals) if sq.values is None else Seq.concrete([vals(v) for v in sq.values])
        if len(g.ifs) != 1:
            raise Unsupported('several conditions')

        def cond(v):
            def evc(s, cf):
                yield from self.ev(g.ifs[0], s, cf)
            r = self.pure_value(st0, fid, g, evc, v)
            if isinstance(r, bool):
                return z3.BoolVal(r)
            if isinstance(r, SBool):
                return r.t
            raise Unsupported('comprehension condition')
        cond(sq.at(fresh_int('probe')))
        return FilterIter(sq, cond, vals)

    def e_GeneratorExp(self, e, st, fid):
        # evaluated eagerly: element expressions are required to be pure, so laziness is unobservable
        def elt(s, f):
            yield from self.ev(e.elt, s, f)
        for s, sq in self.comprehension(e, st, fid, elt):
            yield s, (sq if is_raise(sq) or isinstance(sq, FilterIter) else SeqIter(sq, 'gen'))

    def e_ListComp(self, e, st, fid):
        def elt(s, f):
            yield from self.ev(e.elt, s, f)
        for s, sq in self.comprehension(e, st, fid, elt):
            if is_raise(sq):
                yield s, sq
            elif isinstance(sq, FilterIter):
                raise Unsupported('filtered list comprehension')
            else:
                yield s, s.alloc(self.NList, {'seq': sq})

    def e_SetComp(self, e, st, fid):
        raise Unsupported('set comprehension')

    def e_DictComp(self, e, st, fid):
        def elt(s, f):
            for s1, vs in self.evs([e.key, e.value], s, f):
                yield s1, (vs if is_raise(vs) else tuple(vs))
        for s, sq in self.comprehension(e, st, fid, elt):
            if is_raise(sq):
                yield s, sq
                continue
            if isinstance(sq, FilterIter) or sq.values is None:
                raise Unsupported('dict comprehension over a symbolic sequence')
            d = {}
            for k, v in sq.values:
                if isinstance(k, (Sym, Ref)):
                    raise Unsupported('symbolic dict key')
                d[k] = v
            yield s, s.alloc(self.NDict, {'d': d})

    def e_Yield(self, e, st, fid):
        h = st.frames[fid].get('__yield__')
        if h is None:
            raise Unsupported('yield outside a driven generator')
        if e.value is None:
            yield from h(self, st, None)
            return
        for s, v in self.ev(e.value, st, fid):
            if is_raise(v):
                yield s, v
            else:
                yield from h(self, s, v)

    def e_YieldFrom(self, e, st, fid):
        h = st.frames[fid].get('__yield__')
        if h is None:
            raise Unsupported('yield outside a driven generator')
        for s, v in self.ev(e.value, st, fid):
            if is_raise(v):
                yield s, v
                continue
            for s1, it in self.iterate(s, v):
                if is_raise(it):
                    yield s1, it
                elif isinstance(it, GenObj):
                    yield from self.run_body(s1, it.fn, it.binding, h)
                elif isinstance(it, Seq) and it.values is not None:
                    def go(ss, vals):
                        if not vals:
                            yield ss, None
                            return
                        for s2, r in h(self, ss, vals[0]):
                            if is_raise(r):
                                yield s2, r
                            else:
                                yield from go(s2, vals[1:])
                    yield from go(s1, list(it.values))
                else:
                    hh = self.hooks.get('yield_from')
                    if hh is None:
                        raise Unsupported('yield from')
                    yield from hh(self, s1, it, h)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fid):
        if not stmts:
            yield st, NORM
            return
        for s, out in self.stmt(stmts[0], st, fid):
            if out[0] != 'norm':
                yield s, out
            else:
                yield from self.block(stmts[1:], s, fid)

    def stmt(self, n, st, fid):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(n).__name__} at line {n.lineno}')
        yield from m(n, st, fid)

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            yield st, NORM
            return
        for s, v in self.ev(n.value, st, fid):
            yield s, (('exc', v.exc) if is_raise(v) else NORM)

    def s_Pass(self, n, st, fid):
        yield st, NORM

    def s_Break(self, n, st, fid):
        yield st, ('brk', None)

    def s_Continue(self, n, st, fid):
        yield st, ('cont', None)

    def s_Return(self, n, st, fid):
        if n.value is None:
            yield st, ('ret', None)
            return
        for s, v in self.ev(n.value, st, fid):
            yield s, (('exc', v.exc) if is_raise(v) else ('ret', v))

    def s_Assert(self, n, st, fid):
        for s, v in self.ev(n.test, st, fid):
            if is_raise(v):
                yield s, ('exc', v.exc)
                continue
            for s2, b in self.truth(s, v):
                if is_raise(b):
                    yield s2, ('exc', b.exc)
                elif b:
                    yield s2, NORM
                else:
                    yield s2, ('exc', Exc(AssertionError, ()))

    def s_Import(self, n, st, fid):
        import importlib
        for a in n.names:
            mod = importlib.import_module(a.name)
            if a.asname is None:
                self.store(st, fid, a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]))
            else:
                self.store(st, fid, a.asname, mod)
        yield st, NORM

    def s_ImportFrom(self, n, st, fid):
        import importlib
        if n.level:
            raise Unsupported('relative import')
        mod = importlib.import_module(n.module)
        for a in n.names:
            self.store(st, fid, a.asname or a.name, getattr(mod, a.name))
        yield st, NORM

    def s_Global(self, n, st, fid):
        st.frames[fid]['__global__'] = st.frames[fid].get('__global__', ()) + tuple(n.names)
        yield st, NORM

    def s_Nonlocal(self, n, st, fid):
        st.frames[fid]['__nonlocal__'] = st.frames[fid].get('__nonlocal__', ()) + tuple(n.names)
        yield st, NORM

    def s_Assign(self, n, st, fid):
        for s, v in self.ev(n.value, st, fid):
            if is_raise(v):
                yield s, ('exc', v.exc)
                continue

            def go(ss, targets):
                if not targets:
                    yield ss, NORM
                    return
                for s2, r in self.assign(ss, fid, targets[0], v):
                    if is_raise(r):
                        yield s2, ('exc', r.exc)
                    else:
                        yield from go(s2, targets[1:])
            yield from go(s, n.targets)

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            yield st, NORM
            return
        for s, v in self.ev(n.value, st, fid):
            if is_raise(v):
                yield s, ('exc', v.exc)
                continue
            for s2, r in self.assign(s, fid, n.target, v):
                yield s2, (('exc', r.exc) if is_raise(r) else NORM)

    def s_AugAssign(self, n, st, fid):
        load = ast.copy_location(to_load(n.target), n.target)
        # the target's sub-expressions are evaluated twice; they must be pure names/attributes
        for s, vs in self.evs([load, n.value], st, fid):
            if is_raise(vs):
                yield s, ('exc', vs.exc)
                continue
            if isinstance(vs[0], Ref) and isinstance(n.op, ast.Add) and s.get(vs[0]).cls in (self.NList, self.NDeque):
                f = getattr(s.get(vs[0]).cls, 'm_extend')
                for s2, r in f(self, s, [vs[0], vs[1]], {}):
                    yield s2, (('exc', r.exc) if is_raise(r) else NORM)
                continue
            for s2, r in self.binop(s, n.op, vs[0], vs[1]):
                if is_raise(r):
                    yield s2, ('exc', r.exc)
                    continue
                for s3, q in self.assign(s2, fid, n.target, r):
                    yield s3, (('exc', q.exc) if is_raise(q) else NORM)

    def assign_target(self, st, fid, t, v):
        if isinstance(t, ast.Name):
            st.frames[fid][self.mangle(st, fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and len(v) == len(t.elts):
            for x, y in zip(t.elts, v):
                self.assign_target(st, fid, x, y)
        else:
            raise Unsupported('comprehension target')

    def assign(self, st, fid, t, v):
        if isinstance(t, ast.Name):
            self.store(st, fid, t.id, v)
            yield st, None
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st, fid):
                if is_raise(o):
                    yield s, o
                else:
                    yield from self.setattr(s, o, self.mangle(s, fid, t.attr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for s, sq in self.iterate(st, v):
                if is_raise(sq):
                    yield s, sq
                    continue
                if not isinstance(sq, Seq) or sq.values is None:
                    raise Unsupported('unpacking a sequence of unknown length')
                stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
                values, targets = list(sq.values), list(t.elts)
                if stars and len(values) >= len(targets) - 1:
                    i = stars[0]
                    j = len(values) - (len(targets) - 1 - i)
                    rest = s.alloc(self.NList, {'seq': Seq.concrete(values[i:j])})
                    values[i:j] = [rest]
                    targets[i] = targets[i].value
                if len(values) != len(targets):
                    yield s, Raise(Exc(ValueError, ('unpack',)))
                    continue

                def go(ss, k, targets=targets, values=values):
                    if k == len(targets):
                        yield ss, None
                        return
                    for s2, r in self.assign(ss, fid, targets[k], values[k]):
                        if is_raise(r):
                            yield s2, r
                        else:
                            yield from go(s2, k + 1)
                yield from go(s, 0)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            for s, vs in self.evs([t.value, t.slice], st, fid):
                if is_raise(vs):
                    yield s, vs
                    continue
                if not isinstance(vs[0], Ref):
                    raise Unsupported('item assignment')
                f = getattr(s.get(vs[0]).cls, 'm_setitem', None)
                if f is None:
                    raise Unsupported('item assignment')
                yield from f(self, s, [vs[0], vs[1], v], {})
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, n, st, fid):
        def go(s, ts):
            if not ts:
                yield s, NORM
                return
            t = ts[0]
            if isinstance(t, ast.Name):
                nm = self.mangle(s, fid, t.id)
                if nm not in s.frames[fid]:
                    yield s, ('exc', Exc(UnboundLocalError, (nm,)))
                    return
                del s.frames[fid][nm]
                yield from go(s, ts[1:])
            elif isinstance(t, ast.Attribute):
                for s1, o in self.ev(t.value, s, fid):
                    if is_raise(o):
                        yield s1, ('exc', o.exc)
                        continue
                    for s2, r in self.delattr(s1, o, self.mangle(s1, fid, t.attr)):
                        if is_raise(r):
                            yield s2, ('exc', r.exc)
                        else:
                            yield from go(s2, ts[1:])
            elif isinstance(t, ast.Subscript):
                if isinstance(t.slice, ast.Slice):
                    parts = [t.slice.lower, t.slice.upper, t.slice.step]
                    exprs = [p if p is not None else ast.Constant(None) for p in parts]
                else:
                    exprs = [t.slice]
                for s1, vs in self.evs([t.value] + exprs, s, fid):
                    if is_raise(vs):
                        yield s1, ('exc', vs.exc)
                        continue
                    idx = slice(*vs[1:]) if isinstance(t.slice, ast.Slice) else vs[1]
                    f = getattr(s1.get(vs[0]).cls, 'm_delitem', None) if isinstance(vs[0], Ref) else None
                    if f is None:
                        raise Unsupported('del item')
                    for s2, r in f(self, s1, [vs[0], idx], {}):
                        if is_raise(r):
                            yield s2, ('exc', r.exc)
                        else:
                            yield from go(s2, ts[1:])
            else:
                raise Unsupported('del')
        yield from go(st, n.targets)

    def s_If(self, n, st, fid):
        for s, v in self.ev(n.test, st, fid):
            if is_raise(v):
                yield s, ('exc', v.exc)
                continue
            for s2, b in self.truth(s, v):
                if is_raise(b):
                    yield s2, ('exc', b.exc)
                else:
                    yield from self.block(n.body if b else n.orelse, s2, fid)

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            cur = st.frames[fid].get('__exc__')
            if not cur:
                yield st, ('exc', Exc(RuntimeError, ('No active exception to reraise',)))
            else:
                yield st, ('exc', cur[-1])
            return
        exprs = [n.exc] + ([n.cause] if n.cause is not None else [])
        for s, vs in self.evs(exprs, st, fid):
            if is_raise(vs):
                yield s, ('exc', vs.exc)
            elif isinstance(vs[0], Exc):
                yield s, ('exc', vs[0])
            elif isinstance(vs[0], type) and issubclass(vs[0], BaseException):
                yield s, ('exc', Exc(vs[0], ()))
            elif isinstance(vs[0], type) or vs[0] is None:
                yield s, ('exc', Exc(TypeError, ('exceptions must derive from BaseException',)))
            else:
                raise Unsupported('raise of an unknown value')

    def match_exc(self, st, exc, classes):
        """yields (st, exc, matched)"""
        if not isinstance(classes, tuple):
            classes = (classes,)
        flat = []
        for c in classes:
            if isinstance(c, tuple):
                flat.extend(c)
            else:
                flat.append(c)
        for c in flat:
            if not (isinstance(c, type) and issubclass(c, BaseException)):
                raise Unsupported('except clause class')
        if any(issubclass(exc.cls, c) for c in flat):
            yield st, exc, True
            return
        if exc.arbitrary:
            rest = exc
            for c in flat:
                if issubclass(c, exc.cls) and not any(issubclass(c, x) for x in rest.excl):
                    t = self.exc_sub(st, exc, c)
                    s = st.copy()
                    s.assume(t)
                    if self.feasible(s):
                        yield s, exc.narrowed(cls=c), True
                    st.assume(z3.Not(t))
                    rest = rest.narrowed(excl=c)
            if self.feasible(st):
                yield st, rest, False
            return
        yield st, exc, False

    def s_Try(self, n, st, fid):
        def handlers(s, exc):
            def go(s1, e1, hs):
                if not hs:
                    yield s1, ('exc', e1)
                    return
                h = hs[0]
                if h.type is None:
                    yield from enter(s1, e1, h)
                    return
                for s2, c in self.ev(h.type, s1, fid):
                    if is_raise(c):
                        yield s2, ('exc', c.exc)
                        continue
                    for s3, e3, m in self.match_exc(s2, e1, c):
                        if m:
                            yield from enter(s3, e3, h)
                        else:
                            yield from go(s3, e3, hs[1:])

            def enter(s1, e1, h):
                fr = s1.frames[fid]
                fr['__exc__'] = fr.get('__exc__', ()) + (e1,)
                if h.name:
                    fr[h.name] = e1
                for s2, out in self.block(h.body, s1, fid):
                    fr2 = s2.frames[fid]
                    fr2['__exc__'] = fr2['__exc__'][:-1]
                    if h.name:
                        fr2.pop(h.name, None)
                    yield s2, out
            yield from go(s, exc, n.handlers)

        def core(s):
            for s1, out in self.block(n.body, s, fid):
                if out[0] == 'exc':
                    yield from handlers(s1, out[1])
                elif out[0] == 'norm' and n.orelse:
                    yield from self.block(n.orelse, s1, fid)
                else:
                    yield s1, out
        if not n.finalbody:
            yield from core(st)
            return
        for s, out in core(st):
            fr = s.frames[fid]
            if out[0] == 'exc':
                fr['__exc__'] = fr.get('__exc__', ()) + (out[1],)
            for s2, o2 in self.block(n.finalbody, s, fid):
                if out[0] == 'exc':
                    fr2 = s2.frames[fid]
                    fr2['__exc__'] = fr2['__exc__'][:-1]
                yield s2, (out if o2[0] == 'norm' else o2)

    # with ---------------------------------------------------------------
    def s_With(self, n, st, fid):
        def go(s, items):
            if not items:
                yield from self.block(n.body, s, fid)
                return
            it = items[0]
            for s1, cm in self.ev(it.context_expr, s, fid):
                if is_raise(cm):
                    yield s1, ('exc', cm.exc)
                    continue

                def body(s2, val):
                    """runs target assignment and the rest: yields (st, outcome)"""
                    if it.optional_vars is not None:
                        for s3, r in self.assign(s2, fid, it.optional_vars, val):
                            if is_raise(r):
                                yield s3, ('exc', r.exc)
                            else:
                                yield from go(s3, items[1:])
                    else:
                        yield from go(s2, items[1:])
                yield from self.with_cm(s1, cm, body)
        yield from go(st, n.items)

    def with_cm(self, st, cm, body):
        if isinstance(cm, SuppressVal):
            for s, out in body(st, None):
                if out[0] == 'exc':
                    for s2, e2, m in self.match_exc(s, out[1], tuple(cm.classes)):
                        yield s2, (NORM if m else ('exc', e2))
                else:
                    yield s, out
            return
        if isinstance(cm, CMVal):
            yield from self.with_generator(st, cm, body)
            return
        if isinstance(cm, Ref):
            cls = st.get(cm).cls
            nw = getattr(cls, 'native_with', None)
            if nw is not None:
                yield from nw(self, st, cm, body)
                return
            en, ex = self.class_lookup(cls, '__enter__'), self.class_lookup(cls, '__exit__')
            if en is None or ex is None:
                yield st, ('exc', Exc(TypeError, ('not a context manager',)))
                return
            for s, v in self.call(st, en, [cm], {}):
                if is_raise(v):
                    yield s, ('exc', v.exc)
                    continue
                for s2, out in body(s, v):
                    a = [cm, None, None, None]
                    if out[0] == 'exc':
                        a = [cm, out[1].cls, out[1], SOpq(fresh('tb', Opq))]
                    for s3, r in self.call(s2, ex, a, {}):
                        if is_raise(r):
                            yield s3, ('exc', r.exc)
                        elif out[0] == 'exc':
                            for s4, b in self.truth(s3, r):
                                yield s4, (NORM if b else out)
                        else:
                            yield s3, out
            return
        raise Unsupported(f'with {cm!r}')

    def with_generator(self, st, cm, body):
        """contextlib.contextmanager semantics"""
        key = ('with', next(self.fid))

        def on_yield(eng, s, v):
            if s.ghost.get(key) is not None:
                yield s, Raise(Exc(RuntimeError, ("generator didn't stop",)))
                return
            for s2, out in body(s, v):
                s2.ghost[key] = out
                if out[0] == 'exc':
                    yield s2, Raise(out[1])
                else:
                    yield s2, None
        b = self.bind_args(st, cm.fn, cm.args, cm.kwargs)
        if isinstance(b, Exc):
            yield st, ('exc', b)
            return
        for s, r in self.run_body(st, cm.fn, b, on_yield):
            out = s.ghost.get(key)
            s.ghost.pop(key, None)
            if is_raise(r):
                yield s, ('exc', r.exc)
            elif out is None:
                yield s, ('exc', Exc(RuntimeError, ("generator didn't yield",)))
            elif out[0] == 'exc':
                yield s, NORM          # the generator swallowed the exception
            else:
                yield s, out

    # definitions -----------------------------------------------------------
    def s_FunctionDef(self, n, st, fid):
        fr = st.frames[fid]
        for s, (defs, kwdefs) in self.defaults(n.args, st, fid):
            c = Closure(n, fid, fr['__globals__'], defs, kwdefs, fr['__qual__'] + '.' + n.name,
                        s.frames[fid].get('__classbody__') or fr['__cls__'])
            if s.frames[fid].get('__classbody__'):
                c.fid = s.frames[fid]['__parent__']      # class bodies are not enclosing scopes

            def deco(ss, val, ds):
                if not ds:
                    self.store(ss, fid, n.name, val)
                    yield ss, NORM
                    return
                for s1, d in self.ev(ds[-1], ss, fid):
                    if is_raise(d):
                        yield s1, ('exc', d.exc)
                        continue
                    if d is property:
                        yield from deco(s1, PropVal(val), ds[:-1])
                    elif d is contextlib.contextmanager:
                        val.contextmanager = True
                        yield from deco(s1, val, ds[:-1])
                    elif d is staticmethod or d is classmethod:
                        raise Unsupported('decorator')
                    elif getattr(d, '__name__', '') == 'abstractmethod':
                        yield from deco(s1, val, ds[:-1])
                    elif isinstance(d, Closure) or isinstance(d, types.FunctionType):
                        for s2, v2 in self.call(s1, d, [val], {}):
                            if is_raise(v2):
                                yield s2, ('exc', v2.exc)
                            else:
                                yield from deco(s2, v2, ds[:-1])
                    else:
                        raise Unsupported(f'decorator {d!r}')
            yield from deco(s, c, list(n.decorator_list))

    def s_ClassDef(self, n, st, fid):
        if n.keywords or n.decorator_list:
            raise Unsupported('class keywords/decorators')
        for s, bases in self.evs(n.bases, st, fid):
            if is_raise(bases):
                yield s, ('exc', bases.exc)
                continue
            cfid = self.sub_frame(s, fid, None)
            fr = s.frames[cfid]
            fr['__classbody__'] = n.name
            fr['__cls__'] = n.name
            fr['__qual__'] = s.frames[fid]['__qual__'] + '.' + n.name
            for s2, out in self.block(n.body, s, cfid):
                if out[0] != 'norm':
                    yield s2, out
                    continue
                ns = {k: v for k, v in s2.frames[cfid].items()
                      if k not in ('__globals__', '__parent__', '__cls__', '__qual__', '__locals__',
                                   '__classbody__', '__exc__')}
                self.store(s2, fid, n.name, SymClass(n.name, bases, ns))
                yield s2, NORM

    # loops -------------------------------------------------------------------
    def s_While(self, n, st, fid):
        from .loops import while_loop
        yield from while_loop(self, n, st, fid)

    def s_For(self, n, st, fid):
        from .loops import for_loop
        yield from for_loop(self, n, st, fid)


class SReal(Sym):
    sort = RealS

    def eng_truth(self):
        return self.t != 0


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ArgSeq(list):
    """positional arguments given by an unpacked sequence of unknown length"""

    def __init__(self, seq):
        super().__init__()
        self.seq = seq


def zreal(v):
    if isinstance(v, (int, float)):
        return z3.RealVal(v)
    if isinstance(v, SInt):
        return z3.ToReal(v.t)
    return v.t


def range_seq(r):
    a, b, c = (as_int(x) for x in (r.start, r.stop, r.step))
    if not isinstance(c, int) or c != 1:
        if all(isinstance(x, int) for x in (a, b, c)):
            return Seq.concrete(list(range(a, b, c)))
        raise Unsupported('range with a step')
    if isinstance(a, int) and isinstance(b, int):
        return Seq.concrete(list(range(a, b)))
    n = simp(z3.If(zint(b) > zint(a), zint(b) - zint(a), 0))
    return Seq(n, lambda i: mkint(zint(i) + zint(a)))


def v_is_poison(v):
    return v is POISON


def order(op, a, b):
    if isinstance(op, ast.Lt):
        return a < b
    if isinstance(op, ast.LtE):
        return a <= b
    if isinstance(op, ast.Gt):
        return a > b
    if isinstance(op, ast.GtE):
        return a >= b
    raise Unsupported('comparison operator')


def eval_order(op, a, b):
    return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()


import operator as _op
PYOPS = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.FloorDiv: _op.floordiv, ast.Mod: _op.mod,
         ast.Div: _op.truediv, ast.Pow: _op.pow, ast.BitAnd: _op.and_, ast.BitOr: _op.or_, ast.BitXor: _op.xor,
         ast.LShift: _op.lshift, ast.RShift: _op.rshift}

_local_cache = {}


def local_names(node):
    k = id(node)
    if k in _local_cache:
        return _local_cache[k][1]
    if isinstance(node, ast.Lambda):
        r = frozenset()
    else:
        glob = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
        names = set()

        def walk(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names.add(s.name)
                    continue
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        names.add((a.asname or a.name).split('.')[0])
                names.update(shallow_assigned(s))
                for f in ('body', 'orelse', 'finalbody'):
                    walk(getattr(s, f, []) if isinstance(getattr(s, f, []), list) else [])
                for h in getattr(s, 'handlers', []):
                    if h.name:
                        names.add(h.name)
                    walk(h.body)
        walk(node.body)
        r = frozenset(names - glob)
    _local_cache[k] = (node, r)
    return r


def shallow_assigned(s):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    if isinstance(s, ast.Assign):
        for t in s.targets:
            tgt(t)
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        if not (isinstance(s, ast.AnnAssign) and s.value is None and False):
            tgt(s.target)
    elif isinstance(s, ast.For):
        tgt(s.target)
    elif isinstance(s, ast.With):
        for i in s.items:
            if i.optional_vars is not None:
                tgt(i.optional_vars)
    elif isinstance(s, ast.Delete):
        for t in s.targets:
            tgt(t)
    for ch in ast.walk(s) if not isinstance(s, (ast.If, ast.While, ast.For, ast.With, ast.Try)) else ():
        if isinstance(ch, ast.NamedExpr):
            tgt(ch.target)
    return out


def to_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    raise Unsupported('augmented assignment target')


from . import natives   # noqa: E402  (needs the names above)
