"""Contracts of ContextualizeCall and of contextualize_with_instance (C19).

Callables, enter and exit functions are arbitrary: they take any arguments, return or raise anything, and their
signatures have any number of parameters of any kinds.  functools.wraps and inspect.signature are used through their
contracts (wraps is executed as documented, signature gives the parameters)."""
import functools
import inspect
import itertools
from types import SimpleNamespace
import z3
from pyve.interp import Engine, State, is_raise
from pyve.solver import fresh, fresh_int, Item, BoolS, IntS, Opq, seq_fun
from pyve.values import *
from pyve.contract import Contract
from .stream import call
from .world import only

import stream2py.util as _u

CC = _u.ContextualizeCall
VARPOS = int(inspect.Parameter.VAR_POSITIONAL)


# ------------------------------------------------------------------ arbitrary callables

def record(name):
    def handler(eng, st, args, kw):
        st.ghost['calls'] = st.ghost['calls'] + ((name, tuple(args), tuple(sorted(kw.items()))),)
        b = st.copy()
        e = Exc(BaseException, (name,), arbitrary=True)
        b.ghost['raised'] = e.tag
        yield b, Raise(e)
        r = SOpq(fresh('result_' + name, Opq))
        n = st.copy()
        n.ghost['returned'] = None
        yield n, None
        st.ghost['returned'] = r
        yield st, r
    return handler


class EnvCallable:
    """a callable object with any attributes and any truth value"""
    __call__ = NativeFn(record('func'), 'func', method=True)
    __bool__ = NativeFn(lambda eng, st, a, kw: iter([(st, SBool(fresh('callable_true', BoolS)))]), '__bool__', method=True)


class EnvWrapper(CC):
    """a contextualized callable of a class of the user, with its own call"""
    __call__ = NativeFn(record('func'), 'func', method=True)


class EnvInstance:
    """an object with a context and a method"""
    __enter__ = NativeFn(record('__enter__'), '__enter__', method=True)
    __exit__ = NativeFn(record('__exit__'), '__exit__', method=True)
    method = NativeFn(record('func'), 'method', method=True)


class NotCallable:
    pass


class SParam(Sym):
    """a parameter of a signature: its kind"""
    sort = IntS

    def eng_getattr(self, eng, st, name):
        if name == 'kind':
            yield st, SInt(self.t)
        elif name == 'name':
            yield st, SStr(fresh('parameter', Opq))
        else:
            raise Unsupported(f'Parameter.{name}')


class EnvSignature:
    """inspect.Signature"""


class EnvParameters:
    """the ordered mapping of the parameters"""


def pr_len(eng, st, a, kw):
    yield st, mkint(st.f(a[0], 'seq').n)


def pr_values(eng, st, a, kw):
    yield st, SeqIter(st.f(a[0], 'seq'), 'view')


def pr_names(eng, st, a, kw):
    yield st, SeqIter(st.f(a[0], 'seq').map(lambda p: SStr(fresh('name', Opq))), 'view')


def pr_items(eng, st, a, kw):
    yield st, SeqIter(st.f(a[0], 'seq').map(lambda p: (SStr(fresh('name', Opq)), p)), 'view')


EnvParameters.__len__ = NativeFn(pr_len, '__len__', method=True)
EnvParameters.values = NativeFn(pr_values, 'values', method=True)
EnvParameters.items = NativeFn(pr_items, 'items', method=True)
EnvParameters.keys = EnvParameters.__iter__ = NativeFn(pr_names, '__iter__', method=True)


def signature(eng, st, a, kw):
    f, = a
    seq = getattr(f, 'params', None)
    if isinstance(f, Bound) and getattr(f.func, 'params', None) is not None:
        raise Unsupported('signature of a bound method')
    if seq is None:
        import types
        if f is None or isinstance(f, (int, str, tuple, SInt, SStr)) or isinstance(f, Ref) and st.get(f).cls is NotCallable:
            yield st, Raise(Exc(TypeError, ('not a callable object',)))
            return
        if isinstance(f, types.FunctionType):
            seq = Seq.concrete([SParam(z3.IntVal(int(p.kind))) for p in inspect.signature(f).parameters.values()])
        else:
            raise Unsupported(f'signature of {f!r}')
    p = st.alloc(EnvParameters, {'seq': seq})
    yield st, st.alloc(EnvSignature, {'parameters': p})


def any_params(st, name):
    """an arbitrary parameter list"""
    f = seq_fun(name, IntS)
    n = fresh_int('n_' + name)
    st.assume(n >= 0)
    st.fact(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= f(i), f(i) <= 4)), 'kinds')
    st.fact(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n),
                                       z3.And(f(i) <= f(j), z3.Or(f(i) != f(j), z3.And(f(i) != 2, f(i) != 4)))), 'order of kinds')
    return Seq(n, lambda i: SParam(f(zint(i))), {'base': f})


def func_with(params, name):
    f = NativeFn(record(name), name)
    f.params = params
    return f


def enter_of(st, name='enter'):
    p = any_params(st, name)
    st.assume(p.zn() >= 1)
    return func_with(p, name)


def exit_of(st, name='exit'):
    """an exit function that may be given: at least four parameters, or variadic (the two scenarios are chosen by caller)"""
    p = any_params(st, name)
    b = fresh('variadic', BoolS)
    i = fresh_int('where')
    st.assume(z3.Or(z3.And(b, 0 <= i, i < p.zn(), p.at(i).t == VARPOS), z3.And(z3.Not(b), p.zn() >= 4)))
    return func_with(p, name)


# ------------------------------------------------------------------ functools.wraps

def wraps(eng, st, a, kw):
    names = ('wrapped', 'assigned', 'updated')
    v = dict(assigned=functools.WRAPPER_ASSIGNMENTS, updated=functools.WRAPPER_UPDATES)
    v.update(zip(names, a))
    v.update(kw)

    def decorate(eng, st, a2, kw2):
        yield from update_wrapper(eng, st, [a2[0], v['wrapped'], v['assigned'], v['updated']], {})
    yield st, NativeFn(decorate, 'wraps')


def update_wrapper(eng, st, a, kw):
    names = ('wrapper', 'wrapped', 'assigned', 'updated')
    v = dict(assigned=functools.WRAPPER_ASSIGNMENTS, updated=functools.WRAPPER_UPDATES)
    v.update(zip(names, a))
    v.update(kw)
    w, f = v['wrapper'], v['wrapped']
    if not isinstance(v['assigned'], tuple) or not isinstance(v['updated'], tuple) or not isinstance(w, Ref):
        raise Unsupported('functools.wraps')

    def go(s, todo):
        if not todo:
            if '__dict__' in v['updated'] and isinstance(f, Ref):
                for k, x in s.get(f).fields.items():
                    if k not in HIDDEN:
                        s.setf(w, k, x)
            if set(v['updated']) - {'__dict__'}:
                raise Unsupported('functools.wraps(updated=...)')
            s.setf(w, '__wrapped__', f)
            yield s, w
            return
        for s2, x in attribute(eng, s, f, todo[0]):
            if is_raise(x):
                for s3, e, m in eng.match_exc(s2, x.exc, AttributeError):
                    if m:
                        yield from go(s3, todo[1:])
                    else:
                        yield s3, Raise(e)
            else:
                for s3, r in eng.setattr(s2, w, todo[0], x):
                    if is_raise(r):
                        yield s3, r
                    else:
                        yield from go(s3, todo[1:])
    yield from go(st, list(v['assigned']))


HIDDEN = ()


def attribute(eng, st, f, name):
    """getattr(f, name) for the callables of the scenarios"""
    if isinstance(f, Bound) and isinstance(f.func, NativeFn):
        if name == '__self__':
            yield st, f.self
        else:
            yield st, Raise(Exc(AttributeError, (name,)))
    else:
        yield from eng.getattr(st, f, name)


def mk_engine():
    eng = Engine()
    eng.focus = lambda n: n.startswith('call:')
    eng.native(functools.wraps, wraps)
    eng.native(functools.update_wrapper, update_wrapper)
    eng.native(inspect.signature, signature)
    return eng


# ------------------------------------------------------------------ scenarios

GHOST = dict(calls=(), raised=None, returned=None)


def start():
    st = State()
    st.ghost.update(GHOST)
    return st


def reset(st):
    st.ghost.update(GHOST)


def wrap(eng, st, f, en=None, ex=None):
    """ContextualizeCall(f, ...): the states in which it was made"""
    kw = {}
    if en is not None:
        kw['enter_func'] = en
    if ex is not None:
        kw['exit_func'] = ex
    for s, w in eng.instantiate(st, CC, [f], kw):
        if not eng.feasible(s):
            continue
        if is_raise(w):
            eng.oblige(s, 'call: any callable with suitable enter and exit functions is accepted', False)
            continue
        yield s, w


def own_names(eng):
    """the names of the attributes a wrapper keeps itself"""
    saved, eng.obligations = eng.obligations, []
    st = start()
    f = st.alloc(EnvCallable, {})
    s, w = only(eng.instantiate(st, CC, [f], {}), 'ContextualizeCall(f)')
    eng.obligations = saved
    return sorted(s.get(w).fields)


SPECIAL = ('__module__', '__name__', '__qualname__', '__doc__')


def make(eng, st, kind):
    """a wrapped callable of some kind with everything known about it: yields (st, wrapper, info)"""
    if kind == 'function':
        en, ex = enter_of(st), exit_of(st)
    else:
        en, ex = func_with(kinds(1), 'enter'), func_with(kinds(1, VARPOS), 'exit')
    if kind == 'function':
        f = st.alloc(EnvCallable, {k: SStr(fresh(k, Opq)) for k in SPECIAL})
    elif kind == 'bare':
        f = st.alloc(EnvCallable, {})
    elif kind == 'method':
        inst = st.alloc(EnvInstance, {})
        f = Bound(EnvInstance.method, inst)
    elif kind == 'default':
        f, en, ex = st.alloc(EnvCallable, {}), None, None
    elif kind.startswith('attributes'):
        names = own_names(eng) + ['read_size', 'closed', '_f', '__annotations__', 'anything']
        f = st.alloc(EnvCallable, {k: SOpq(fresh('attr_' + k.strip('_'), Opq)) for k in names})
    elif kind.startswith('nested'):
        g = st.alloc(EnvCallable, {'anything': SOpq(fresh('attr', Opq))})
        for s, f in wrap(eng, st, g, func_with(kinds(1), 'inner enter'), func_with(kinds(1, 1, 1, 1), 'inner exit')):
            if kind == 'nested with its own call':
                f = s.alloc(EnvWrapper, dict(s.get(f).fields))
                g = f
            if kind == 'nested default':
                en = ex = None
            for s2, w in wrap(eng, s, f, en, ex):
                reset(s2)
                yield s2, w, SimpleNamespace(f=f, en=en, ex=ex, target=g)
        return
    for s, w in wrap(eng, st, f, en, ex):
        reset(s)
        yield s, w, SimpleNamespace(f=f, en=en, ex=ex, target=f)


def kinds(*ks):
    return Seq.concrete([SParam(z3.IntVal(k)) for k in ks])


KINDS = ('function', 'bare', 'method', 'default', 'attributes', 'nested', 'nested default', 'nested with its own call')


def target_call(i, args):
    """what the arguments of the recorded call of the wrapped callable are"""
    t = i.target
    if isinstance(t, Bound):
        return (t.self,) + tuple(args)
    return (t,) + tuple(args)


def eq(a, b):
    if isinstance(a, Bound) or isinstance(b, Bound):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eq(x, y) is True for x, y in zip(a, b))
    r = sym_eq(a, b)
    return r if isinstance(r, bool) else z3.is_true(z3.simplify(r))


def same_outcome(eng, s, out, what):
    g = s.ghost
    if is_raise(out):
        eng.oblige(s, f'call: {what}: what it raises is propagated', out.exc.tag == g['raised'])
    else:
        eng.oblige(s, f'call: {what}: what it returns is returned', g['raised'] is None and eq(out, g['returned']))


ARGS = ((0, ()), (1, ()), (3, ('k',)), (0, ('k', 'l')), (1, ('self', 'func', 'args', 'kwargs')), (2, ('attrname', 'exc_type')))


def c_call():
    def scenarios():
        for kind, (n, ks) in itertools.product(KINDS, ARGS):
            def setup(eng, kind=kind, n=n, ks=ks):
                for s, w, i in make(eng, start(), kind):
                    a = [SOpq(fresh(f'arg{j}', Opq)) for j in range(n)]
                    k = {x: SOpq(fresh(x, Opq)) for x in ks}
                    yield s, [w, i, a, k], {}
            yield f'calling, {kind}, {n} positional, keywords {", ".join(ks) or "none"}', setup

    def run(eng, st, args, kw):
        yield from eng.call(st, args[0], list(args[2]), dict(args[3]))

    def post(eng, pre, s, args, out, rep):
        w, i, a, k = args
        want = (('func', target_call(i, a), tuple(sorted(k.items()))),)
        eng.oblige(s, 'call: the wrapped callable is called once with exactly the arguments given', eq_calls(s.ghost['calls'], want))
        same_outcome(eng, s, out, 'the wrapped callable')
    c = Contract('ContextualizeCall.__call__', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def eq_calls(got, want):
    if len(got) != len(want):
        return False
    for (n1, a1, k1), (n2, a2, k2) in zip(got, want):
        if n1 != n2 or not eq(a1, a2) or [x for x, _ in k1] != [x for x, _ in k2] or \
                not all(eq(x, y) for (_, x), (_, y) in zip(k1, k2)):
            return False
    return True


def c_enter_exit():
    def scenarios():
        for kind, what in itertools.product(KINDS, ('enter', 'exit', 'exit with an exception')):
            def setup(eng, kind=kind, what=what):
                for s, w, i in make(eng, start(), kind):
                    if what == 'enter':
                        a = []
                    elif what == 'exit':
                        a = [None, None, None]
                    else:
                        e = Exc(BaseException, ('body',), arbitrary=True)
                        a = [ExcType(e), e, SOpq(fresh('tb', Opq))]
                    yield s, [w, i, '__enter__' if what == 'enter' else '__exit__', a], {}
            yield f'{what}, {kind}', setup

    def run(eng, st, args, kw):
        yield from eng.call(st, eng.class_lookup(CC, args[2]), [args[0]] + args[3], {})

    def post(eng, pre, s, args, out, rep):
        w, i, nm, a = args
        if i.en is None:
            eng.oblige(s, 'call: by default nothing is called when the context is entered or left', s.ghost['calls'] == ())
            eng.oblige(s, 'call: by default the context is entered and left without an effect',
                       not is_raise(out) and (out is None if nm == '__exit__' else eq(out, i.f)))
            return
        what = 'enter' if nm == '__enter__' else 'exit'
        want = ((what, (i.f,) + tuple(a), ()),)
        eng.oblige(s, f'call: the {what} function is called once with the wrapped callable' +
                   (' and the exception details' if what == 'exit' else ''), eq_calls(s.ghost['calls'], want))
        same_outcome(eng, s, out, f'the {what} function')
    c = Contract('ContextualizeCall.__enter__/__exit__', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def c_attributes():
    """attributes of the wrapped callable, also those set after wrapping and those that are missing"""
    def scenarios():
        for kind in ('function', 'bare', 'attributes', 'nested', 'nested default', 'nested with its own call'):
            for when in ('as given', 'set afterwards'):
                def setup(eng, kind=kind, when=when):
                    own = set(own_names(eng))
                    for s, w, i in make(eng, start(), kind):
                        names = set(s.get(i.target).fields) | {'something', 'missing'}
                        if when == 'set afterwards':
                            for k in ('anything', 'something'):
                                s.setf(i.target, k, SOpq(fresh('later_' + k, Opq)))
                        for nm in sorted(names - (own - set(SPECIAL))):
                            if when == 'set afterwards' and nm in SPECIAL:
                                continue
                            yield s.copy(), [w, i, nm], {}
                yield f'attributes, {kind}, {when}', setup

    def run(eng, st, args, kw):
        yield from eng.getattr(st, args[0], args[2])

    def post(eng, pre, s, args, out, rep):
        w, i, nm = args
        for s2, want in eng.getattr(pre.copy(), i.target, nm):
            if nm in SPECIAL and is_raise(want):
                return          # the class of the wrapper has some of these itself
            if is_raise(want):
                g = is_raise(out) and out.exc.cls is AttributeError
            else:
                g = not is_raise(out) and eq(out, want)
            eng.oblige(s, 'call: other attributes are those of the wrapped callable', g)
        eng.oblige(s, 'call: looking at an attribute calls nothing', s.ghost['calls'] == ())
    c = Contract('ContextualizeCall.__getattr__', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def c_construct():
    """exactly the suitable arguments are accepted"""
    def scenarios():
        for what in ('none', 'number', 'object', 'text'):
            for where in ('func', 'enter_func', 'exit_func'):
                def setup(eng, what=what, where=where):
                    s = start()
                    bad = {'none': None, 'number': SInt(fresh_int('number')), 'object': s.alloc(NotCallable, {}),
                           'text': SStr(fresh('text', Opq))}[what]
                    a = dict(func=s.alloc(EnvCallable, {}), enter_func=enter_of(s), exit_func=exit_of(s))
                    a[where] = bad
                    yield s, [a, False, f'a non-callable as {where}'], {}
                yield f'{where} is not callable ({what})', setup

        def enter0(eng):
            s = start()
            p = any_params(s, 'enter')
            s.assume(p.zn() == 0)
            yield s, [dict(func=s.alloc(EnvCallable, {}), enter_func=func_with(p, 'enter'), exit_func=exit_of(s)), False,
                      'an enter function without any parameter'], {}
        yield 'enter function without parameters', enter0

        def exit_bad(eng):
            s = start()
            p = any_params(s, 'exit')
            s.assume(p.zn() < 4)
            s.fact(1, lambda i: z3.Implies(z3.And(0 <= i, i < p.zn()), p.at(i).t != VARPOS), 'not variadic')
            yield s, [dict(func=s.alloc(EnvCallable, {}), enter_func=enter_of(s), exit_func=func_with(p, 'exit')), False,
                      'an exit function neither variadic nor with four parameters'], {}
        yield 'unsuitable exit function', exit_bad
        for ex in ('variadic', 'four'):
            def fine(eng, ex=ex):
                s = start()
                p = any_params(s, 'exit')
                if ex == 'four':
                    s.assume(p.zn() >= 4)
                else:
                    i = fresh_int('where')
                    s.assume(z3.And(0 <= i, i < p.zn(), p.at(i).t == VARPOS))
                yield s, [dict(func=s.alloc(EnvCallable, {}), enter_func=enter_of(s), exit_func=func_with(p, 'exit')), True, ''], {}
            yield f'suitable functions, exit function {ex}', fine

        def defaults(eng):
            s = start()
            yield s, [dict(func=s.alloc(EnvCallable, {})), True, ''], {}
        yield 'default functions', defaults

    def run(eng, st, args, kw):
        yield from eng.instantiate(st, CC, [], args[0])

    def post(eng, pre, s, args, out, rep):
        a, ok, what = args
        if ok:
            eng.oblige(s, 'call: any callable with suitable enter and exit functions is accepted', not is_raise(out))
        else:
            eng.oblige(s, f'call: {what} is rejected with TypeError',
                       is_raise(out) and isinstance(out.exc.cls, type) and issubclass(out.exc.cls, TypeError))
        eng.oblige(s, 'call: construction calls nothing', s.ghost['calls'] == ())
    c = Contract('ContextualizeCall.__init__', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def c_instance():
    """contextualize_with_instance: the context is that of the instance the method is bound to"""
    def scenarios():
        for what in ('call', '__enter__', '__exit__', '__exit__ with an exception'):
            def setup(eng, what=what):
                s = start()
                inst = s.alloc(EnvInstance, {})
                for s2, w in eng.call(s, _u.contextualize_with_instance, [Bound(EnvInstance.method, inst)], {}):
                    if is_raise(w):
                        eng.oblige(s2, 'call: a bound method can be contextualized with its instance', False)
                        continue
                    reset(s2)
                    e = Exc(BaseException, ('body',), arbitrary=True)
                    a = {'call': [SOpq(fresh('arg', Opq))], '__enter__': [], '__exit__': [None, None, None]}.get(
                        what, [ExcType(e), e, SOpq(fresh('tb', Opq))])
                    yield s2, [w, inst, what.split()[0], a], {}
            yield f'instance, {what}', setup

    def run(eng, st, args, kw):
        w, inst, what, a = args
        if what == 'call':
            yield from eng.call(st, w, list(a), {})
        else:
            yield from eng.call(st, eng.class_lookup(CC, what), [w] + a, {})

    def post(eng, pre, s, args, out, rep):
        w, inst, what, a = args
        want = (('func' if what == 'call' else what, (inst,) + tuple(a), ()),)
        eng.oblige(s, 'call: the context of a method contextualized with its instance is that of the instance',
                   eq_calls(s.ghost['calls'], want))
        same_outcome(eng, s, out, 'the instance')
    c = Contract('contextualize_with_instance', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def for_c19():
    return [c_construct(), c_call(), c_enter_exit(), c_attributes(), c_instance()]
