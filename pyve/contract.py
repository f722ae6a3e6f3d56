"""Contracts: executable specifications over the abstract state, used both ways.

A contract consists of
  * scenarios: arbitrary pre-states satisfying the preconditions (used to verify the body),
  * requires:  the preconditions checked at every call site,
  * spec:      for an arbitrary pre-state the outcome (returned value or raised exception class) and the complete
               effect on the heap, written over abstract views; it is a postcondition in executable form.

verify():  the real body is executed symbolically from every scenario; on every path the outcome and the whole heap
           must equal, for all values, what spec prescribes for that pre-state (anything spec does not touch must be
           unchanged: the frame condition).
apply():   at a call site the contract replaces the body (modular reasoning)."""
import traceback
import z3
from .interp import Engine, State, is_raise, v_is_poison
from .solver import fresh_int
from .values import *
from . import hidden, natives, solver


class AnyExc:
    """spec outcome: some exception of one of these classes"""

    def __init__(self, *classes):
        self.classes = classes


class Anything:
    """spec outcome: nothing is promised (outside the property)"""


class Skip(Exception):
    pass


VIEWS = {}        # class -> fn(eng, st, ref) -> (dict name -> value, set of owned oids)


def view_of(eng, st, ref):
    cls = st.get(ref).cls
    for k in (cls.__mro__ if isinstance(cls, type) else ()):
        if k in VIEWS:
            return VIEWS[k](eng, st, ref)
    return None


class Cmp:
    """deep comparison of a value in an implementation state with a value in a specification state"""

    def __init__(self, eng, st, pre_heap, impl, spec, name):
        self.eng, self.st, self.pre = eng, st, pre_heap
        self.impl, self.spec, self.name = impl, spec, name
        self.map = {}
        self.ok = True
        self.owned = set()

    def goal(self, what, g):
        if not self.eng.oblige(self.st, f'{self.name}: {what}', g):
            self.ok = False

    def seq(self, what, a, b):
        if a is b:
            return
        n = simp(zint(a.n) == zint(b.n))
        self.goal(what + ' has the specified length', n)
        i = fresh_int('ix')
        st2 = self.st.copy()
        st2.assume(z3.And(0 <= i, i < b.zn()))
        if not isinstance(n, bool):
            st2.assume(n)
        if isinstance(b.n, int) and b.values is not None and a.values is not None:
            for k in range(min(len(a.values), len(b.values))):
                self.value(f'{what}[{k}]', a.values[k], b.values[k])
            return
        if isinstance(b.n, int) and b.n == 0:
            return
        va, vb = a.at(i), b.at(i)
        sub_ = Cmp(self.eng, st2, self.pre, self.impl, self.spec, self.name)
        sub_.map = self.map
        sub_.value(what + ' holds the specified elements', va, vb)
        self.ok = self.ok and sub_.ok

    def value(self, what, a, b):
        if a is b:
            return
        if v_is_poison(a) or v_is_poison(b):
            raise Unsupported('comparison of an unknown value')
        if isinstance(b, (Seq, SeqIter)) or isinstance(a, (Seq, SeqIter)):
            if isinstance(a, SeqIter):
                a = a.seq
            if isinstance(b, SeqIter):
                b = b.seq
            if not (isinstance(a, Seq) and isinstance(b, Seq)):
                if isinstance(a, Seq) or isinstance(b, Seq):
                    self.goal(what + ' is a sequence', False)
                    return
            self.seq(what, a, b)
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for k, (x, y) in enumerate(zip(a, b)):
                self.value(f'{what}[{k}]', x, y)
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            self.ref(what, a, b)
            return
        if isinstance(a, dict) and isinstance(b, dict):
            self.goal(what + ' has the specified entries', set(a) == set(b))
            for k in b:
                if k in a:
                    self.value(f'{what}[{k!r}]', a[k], b[k])
            return
        if isinstance(a, (Closure, KeyFn)) and isinstance(b, (Closure, KeyFn)):
            self.func(what, a, b)
            return
        if isinstance(a, Bound) and isinstance(b, Bound):
            if a.func is not b.func:
                self.goal(what + ' is the specified method', False)
                return
            self.value(what, a.self, b.self)
            return
        if isinstance(b, (bool, SBool)) and isinstance(a, (bool, SBool)) or not isinstance(a, (bool, SBool)):
            self.goal(what + ' is as specified', sym_eq(a, b))
        else:
            self.goal(what + ' is as specified', False)

    def func(self, what, a, b):
        from .solver import fresh, Item
        x = SItem(fresh('x', Item))
        try:
            ka, kb = key_term(self.eng, self.impl, a, x), key_term(self.eng, self.spec, b, x)
        except Unsupported:
            raise
        self.goal(what + ' is the specified function', z3.simplify(ka == kb))

    def ref(self, what, a, b):
        pre_a, pre_b = a.oid in self.pre, b.oid in self.pre
        if pre_b or pre_a:
            self.goal(what + (' is the specified object' if pre_b else ' is a new object'), a == b)
            return
        if b.oid in self.map:
            self.goal(what + ' is the specified object', self.map[b.oid] == a.oid)
            return
        self.map[b.oid] = a.oid
        self.obj(what, a, b)

    def obj(self, what, a, b):
        oa, ob = self.impl.get(a), self.spec.get(b)
        if oa.cls is not ob.cls:
            self.goal(what + ' has the specified type', False)
            return
        va, vb = view_of(self.eng, self.impl, a), view_of(self.eng, self.spec, b)
        if va is not None:
            self.owned |= va[1]
            fa, fb = va[0], vb[0]
        else:
            fa, fb = oa.fields, ob.fields
        for f in sorted(set(fa) | set(fb)):
            if f.startswith('__') or hidden.ignored(oa.cls, f) or isinstance(fa.get(f), hidden.Hidden):
                continue
            if f not in fa or f not in fb:
                if f not in fb and f in IGNORED_FIELDS.get(oa.cls, ()):
                    continue
                self.goal(f'{what}.{f} exists exactly if specified', False)
                continue
            self.value(f'{what}.{f}', fa[f], fb[f])


IGNORED_FIELDS = {}


def key_term(eng, st, keyobj, item):
    """Real term of keyobj(item) for an abstract or closure key"""
    if isinstance(keyobj, KeyFn):
        return keyobj.of(item.t)
    s = st.copy()
    rs = list(eng.call(s, keyobj, [item], {}))
    if len(rs) != 1 or is_raise(rs[0][1]) or as_key(rs[0][1]) is None:
        raise Unsupported('key function of unknown form')
    return as_key(rs[0][1])


class Contract:
    """name; resolve() -> real function (or None); spec(eng, st, args) yields (st, value | Raise(Exc) | AnyExc | Anything)"""

    def __init__(self, name, func, spec, scenarios, requires=None, run=None, result_view=None, applies=None,
                 post=None, env=None, frame_skip=None):
        self.name, self.func, self.spec, self.scenarios = name, func, spec, scenarios
        self.requires, self.run, self.applies = requires, run, applies
        self.post, self.env, self.frame_skip = post, env, frame_skip
        self.mk_engine = None

    def bind(self, eng, st, args, kwargs):
        b = eng.bind_args(st, self.func, args, kwargs)
        if isinstance(b, Exc):
            return b
        node = _node(self.func).args
        order = [a.arg for a in node.posonlyargs + node.args] + ([node.vararg.arg] if node.vararg else []) + \
                [a.arg for a in node.kwonlyargs] + ([node.kwarg.arg] if node.kwarg else [])
        return {k: b[k] for k in order}

    def apply(self, eng, st, args, kwargs):
        b = self.bind(eng, st, args, kwargs)
        if isinstance(b, Exc):
            return iter([(st, Raise(b))])
        a = list(b.values())
        if self.applies is not None and not self.applies(eng, st, a):
            return None
        return self._apply(eng, st, a)

    def _apply(self, eng, st, a):
        if self.requires is not None:
            for nm, g in self.requires(eng, st, a):
                eng.oblige(st, f'precondition of {self.name}: {nm}', g)
        for s, out in self.spec(eng, st, a):
            if isinstance(out, AnyExc):
                if a and isinstance(a[0], Ref):
                    hidden.forget(s, a[0])
                for c in out.classes:
                    yield s.copy(), Raise(Exc(c, (), arbitrary=True))
            elif out is Anything or isinstance(out, Anything):
                raise Unsupported(f'{self.name} outside its specified domain')
            else:
                if a and isinstance(a[0], Ref):
                    hidden.forget(s, a[0])
                yield s, out


def _node(f):
    from .interp import SOURCE
    return f.node if isinstance(f, Closure) else SOURCE.find(f)[0]


class FnReport:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.obligations = []
        self.paths = 0
        self.covered = set()
        self.reason = ''
        self.functions = set()
        self.contracts = set()


def verify(contract, mk_engine=None, report=None, only=None):
    """verify the real body against the contract (all scenarios, or the one numbered `only`); returns FnReport"""
    rep = report or FnReport(contract.name)
    mk_engine = mk_engine or contract.mk_engine or Engine
    try:
        for k, (label, setup) in enumerate(contract.scenarios()):
            if only is not None and k != only:
                continue
            eng = mk_engine()
            eng.ctx = f'{contract.name} [{label}]'
            rep.engine = eng
            try:
                for st, args, kwargs in setup(eng):
                    if not eng.feasible(st):
                        raise Unsupported('vacuous scenario ' + label)
                    _verify_path(contract, eng, st, args, kwargs, rep, label)
            finally:
                rep.obligations.extend(eng.obligations)
                rep.functions |= eng.functions_used
                rep.contracts |= eng.contracts_used
    except Unsupported as e:
        rep.status = 'undecided'
        rep.reason = f'unsupported: {e}'
    except RecursionError:
        rep.status = 'undecided'
        rep.reason = 'recursion'
    except z3.Z3Exception as e:
        rep.status = 'undecided'
        rep.reason = f'z3: {e}\n{traceback.format_exc()}'
    except Exception as e:       # the code left what the engine expects: undecided, decided by the bounded check
        rep.status = 'undecided'
        rep.reason = f'engine: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}'
    if rep.status == 'proved' and rep.paths == 0:
        rep.status, rep.reason = 'undecided', 'no path explored'
    bad = [o for o in rep.obligations if o.status != 'proved']
    if any(o.status == 'failed' and o.definite for o in bad):
        rep.status = 'failed' if rep.status == 'proved' else rep.status
    elif bad and rep.status == 'proved':
        rep.status = 'undecided'
        rep.reason = 'solver: ' + '; '.join(sorted({o.name + ' ' + (o.reason or '') for o in bad}))[:500]
    return rep


def _verify_path(contract, eng, st, args, kwargs, rep, label):
    for oid in list(st.heap):
        hidden.forget(st, Ref(oid))
    eng.pre_oids = frozenset(st.heap)
    pre = st.copy()
    work = st.copy()
    if contract.run is None:
        b = contract.bind(eng, st, args, kwargs)
        if isinstance(b, Exc):
            raise Unsupported(f'the arguments of {contract.name} do not bind: {b.args}')
        sargs = list(b.values())
    else:
        sargs = list(args)
    if contract.requires is not None:
        for nm, g in contract.requires(eng, work, sargs):
            pre.assume(g if not isinstance(g, bool) else z3.BoolVal(g))
            work.assume(g if not isinstance(g, bool) else z3.BoolVal(g))
    if contract.run is not None:
        gen = contract.run(eng, work, args, kwargs)
    else:
        gen = run_function(eng, work, contract.func, args, kwargs)
    for s, out in gen:
        if not eng.feasible(s):
            continue
        rep.paths += 1
        if contract.post is not None:
            contract.post(eng, pre, s, sargs, out, rep)
        if contract.spec is None:
            continue
        compare_with_spec(contract, eng, pre, s, sargs, out, rep, label)


def run_function(eng, st, f, args, kwargs):
    b = eng.bind_args(st, f, args, kwargs)
    if isinstance(b, Exc):
        yield st, Raise(b)
        return
    from .interp import has_yield
    if has_yield(_node(f)):
        yield st, GenObj(f, b)
        return
    yield from eng.run_body(st, f, b, None)


def compare_with_spec(contract, eng, pre, s, args, out, rep, label):
    sp = pre.copy()
    sp.pc, sp.facts = list(s.pc), list(s.facts)
    sp.oid = s.oid + 100000
    sp.ghost = dict(pre.ghost)
    for k, v in s.ghost.items():
        if isinstance(k, tuple) and k[0] in ('cnt', 'keydec') or k == 'perms':
            sp.ghost[k] = v
    nspec = 0
    for s2, want in contract.spec(eng, sp, list(args)):
        if not eng.feasible(s2):
            continue
        nspec += 1
        rep.covered.add((label, 'raise' if isinstance(want, (Raise, AnyExc)) else 'return'))
        if want is Anything or isinstance(want, Anything):
            continue
        nm = contract.name
        if isinstance(want, AnyExc) or is_raise(want):
            classes = want.classes if isinstance(want, AnyExc) else (want.exc.cls,)
            names = '/'.join(c.__name__ for c in classes)
            if not is_raise(out):
                eng.oblige(s2, f'{nm}: raises {names} when specified', False)
                continue
            ok = any(issubclass(out.exc.cls, c) for c in classes)
            eng.oblige(s2, f'{nm}: raises {names} when specified (not {out.exc.cls.__name__})', ok)
            if is_raise(want) and want.exc.arbitrary:
                eng.oblige(s2, f'{nm}: propagates the exception itself', out.exc.tag == want.exc.tag)
        elif is_raise(out):
            eng.oblige(s2, f'{nm}: returns when specified (not {out.exc.cls.__name__})', False)
            continue
        c = Cmp(eng, s2, pre.heap, s, s2, nm)
        if not is_raise(out) and not isinstance(want, AnyExc):
            if callable(want) and getattr(want, 'is_check', False):
                want(eng, c, out)
            else:
                c.value('result', out, want)
        frame(c, contract, eng, pre, s, s2)
    if nspec == 0:
        # every specified case excluded: the path condition itself must be contradictory
        eng.oblige(s, f'{contract.name}: the specified cases cover this outcome', False)


def frame(c, contract, eng, pre, s, s2):
    """every object that existed before must be as the specification says"""
    owned = set()
    tops = []
    for oid, o in pre.heap.items():
        for stt in (pre, s, s2):
            if oid in stt.heap:
                v = view_of(eng, stt, Ref(oid))
                if v is not None:
                    owned |= v[1]
    for oid, o in pre.heap.items():
        if oid in owned:
            continue
        if contract.frame_skip is not None and contract.frame_skip(eng, pre, Ref(oid)):
            continue
        a, b = s.heap[oid], s2.heap[oid]
        if a is b and view_of(eng, pre, Ref(oid)) is None:
            continue
        tops.append(oid)
    for oid in tops:
        nm = getattr(pre.heap[oid].cls, '__name__', '?')
        c.obj(f'{nm} object after the call', Ref(oid), Ref(oid))


def check(fn):
    fn.is_check = True
    return fn
