"""Contextualized callables (C19)."""
import functools
import itertools
import random
import time

from . import Report


class Broken(Exception):
    pass


class Abort(BaseException):
    pass


class Bad(Exception):
    pass


class Odd:
    """an object that equals everything and counts as false"""

    def __bool__(self):
        return False

    def __eq__(self, o):
        return True

    __hash__ = None


class Obj:
    """a callable object"""

    def __init__(self, act):
        self.act = act

    def __call__(*args, **kw):
        return args[0].act(*args[1:], **kw)


class Slots:
    __slots__ = ('act', 'extra')

    def __init__(self, act):
        self.act = act

    def __call__(*args, **kw):
        return args[0].act(*args[1:], **kw)


class Owner:
    """has a context of its own and a method"""

    def __init__(self, act, log, enter=None, leave=None):
        self.act, self.log, self.e, self.x = act, log, enter, leave

    def method(*args, **kw):
        return args[0].act(*args[1:], **kw)

    raises = None, None

    def __enter__(self):
        self.log.append(('enter', self))
        if self.raises[0] == 'enter':
            raise self.raises[1]
        return self.e

    def __exit__(self, *exc):
        self.log.append(('exit', self, *exc))
        if self.raises[0] == 'exit':
            raise self.raises[1]
        return self.x


class EmptyOwner(Owner):
    """an instance that counts as false, has a length and equals others"""
    func = enter_func = exit_func = closed = None

    def __len__(self):
        return 0

    def __eq__(self, o):
        return True

    __hash__ = None


def mk_callable(kind, act):
    """a callable of this kind that passes its arguments to act"""
    from stream2py.util import ContextualizeCall
    if kind == 'function':
        def f(*args, **kw):
            "doc of f"
            return act(*args, **kw)
        return f
    if kind == 'function with attributes':
        f = mk_callable('function', act)
        for k in ('enter_func', 'exit_func', 'func', '_func', 'is_valid', '__wrapped__', 'args', 'name', 'self', '_enter_func', 'f', 'obj'):
            setattr(f, k, lambda *a, k=k, **kw: ('attribute', k))
        return f
    if kind == 'object':
        return Obj(act)
    if kind == 'object with attributes':
        f = Obj(act)
        f.func, f.enter_func, f.exit_func, f.other, f.__wrapped__ = (lambda *a: 'wrong', lambda *a: 'wrong', lambda *a: 'wrong', Odd(), len)
        return f
    if kind == 'slots':
        return Slots(act)
    if kind == 'partial':
        return functools.partial(act)
    if kind == 'method':
        return Owner(act, []).method
    if kind == 'class':
        class K:
            def __new__(*args, **kw):
                return act(*args[1:], **kw)
            other = 'other'
        return K
    if kind == 'contextualized':
        return ContextualizeCall(mk_callable('function', act), enter_func=lambda o: 'inner', exit_func=lambda *a: True)
    if kind == 'contextualized object':
        return ContextualizeCall(mk_callable('object with attributes', act))
    if kind == 'contextualized with its own call':
        class Mine(ContextualizeCall):
            def __call__(*args, **kw):
                return act(*args[1:], **kw)
        return Mine(lambda *a, **k: 'wrong')
    if kind == 'false object':
        class False_(Obj):
            def __bool__(self):
                return False

            def __len__(self):
                return 0
        return False_(act)
    if kind == 'wrapped':
        g = mk_callable('function', lambda *a, **k: 'wrong')

        @functools.wraps(g)
        def f(*args, **kw):
            return act(*args, **kw)
        return f
    raise KeyError(kind)


CALLABLES = ('function', 'function with attributes', 'object', 'object with attributes', 'slots', 'partial', 'method', 'class', 'contextualized',
             'contextualized object', 'contextualized with its own call', 'false object', 'wrapped')


class Hook:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


class Hook4:
    def __init__(self, f):
        self.f = f

    def __call__(self, a, b, c, d):
        return self.f(a, b, c, d)

    def four(self, a, b, c, d):
        return self.f(a, b, c, d)


def mk_enter(kind, f):
    return {'one': lambda o: f(o), 'star': lambda *o: f(*o), 'default': lambda o=None, p=3: f(o), 'object': Hook(f), 'partial': functools.partial(f),
            'named': lambda self: f(self)}[kind]


def mk_exit(kind, f):
    def posonly(a, b, c, d, /):
        return f(a, b, c, d)
    return {'four': lambda o, a, b, c: f(o, a, b, c), 'star': lambda *a: f(*a), 'one and star': lambda o, *a: f(o, *a), 'five': lambda a, b, c, d, e=1: f(a, b, c, d),
            'object': Hook4(f), 'bound': Hook4(f).four, 'posonly': posonly, 'star and keyword': lambda *a, x=1, **k: f(*a)}[kind]


ENTERS = ('one', 'star', 'default', 'object', 'partial', 'named')
EXITS = ('four', 'star', 'one and star', 'five', 'object', 'bound', 'posonly', 'star and keyword')
CALLS = [((), {}), ((1,), {}), ((1, None), {'x': 2}), ((), {'self': 1}), ((3,), {'args': 1, 'kwargs': 2, 'func': 3}), ((), {'obj': 1, 'instance': 2, 'a': 3, 'attrname': 3})]
OTHERS = [c('b') for c in (StopIteration, StopAsyncIteration, GeneratorExit, KeyboardInterrupt, SystemExit, TypeError, ValueError, KeyError, AttributeError,
                          RuntimeError, AssertionError, OSError)]
OWN = {'func', 'enter_func', 'exit_func', '__wrapped__'}


def run_use(case):
    from stream2py.util import ContextualizeCall
    log = []
    res = Odd()
    inner = {}

    def act(*args, **kw):
        inner.setdefault('calls', []).append(1)
        if 'call' not in inner:
            inner['call'] = (args, kw)
        if 'raise' in inner:
            raise inner['raise']
        return res
    try:
        f = mk_callable(case['callable'], act)
        er, xr = case.get('enter_result', 'Odd'), case.get('exit_result')
        er = Odd() if er == 'Odd' else er
        ent = mk_enter(case['enter'], lambda *a: (log.append(('enter', *a)), er)[1]) if case.get('enter') else None
        ext = mk_exit(case['exit'], lambda *a: (log.append(('exit', *a)), xr)[1]) if case.get('exit') else None
        kw = {}
        if ent is not None:
            kw['enter_func'] = ent
        if ext is not None:
            kw['exit_func'] = ext
        def attrs():
            return {k: v for k, v in getattr(f, '__dict__', {}).items() if not k.startswith('__') or k in OWN}
        own = OWN | set(vars(ContextualizeCall(act, lambda o: None, lambda *a: None)))    # the wrapper's own attributes
        before = attrs()
        c = ContextualizeCall(f, **kw)
        if log or 'call' in inner:
            raise Bad('constructing calls something')

        def calls():
            for i, (args, k) in enumerate(CALLS):
                for e in (None, Broken('c'), Abort('c'), *(OTHERS if i < 2 or case['callable'] == 'function' else ())):
                    inner.clear()
                    if e is not None:
                        inner['raise'] = e
                    del log[:]
                    try:
                        r = c(*args, **k)
                    except BaseException as x:
                        if x is not e:
                            raise Bad(f'calling raised {x!r}, the callable {e!r}')
                    else:
                        if e is not None:
                            raise Bad('the exception of the callable is swallowed')
                        if r is not res:
                            raise Bad(f'calling gives {r!r}, not the result')
                    if len(inner.get('calls', ())) != 1:
                        raise Bad(f'the callable is called {len(inner.get("calls", ()))} times')
                    if inner.get('call') != (args, k):
                        raise Bad(f'called with {inner.get("call")}, not {(args, k)}')
                    if log:
                        raise Bad(f'calling does {[x[0] for x in log]}')

        def entered():
            if ent is None:
                return
            if len(log) != 1 or log[0][0] != 'enter' or len(log[0]) != 2 or log[0][1] is not f:
                raise Bad(f'entering calls {log}')

        calls()
        for e in (None, Broken('b'), Abort('b'), *OTHERS):
            del log[:]
            try:
                with c as v:
                    if v is not (er if ent is not None else f):
                        raise Bad(f'entering gives {v!r}')
                    entered()
                    if e is None:
                        calls()
                    del log[:]
                    if e is not None:
                        raise e
            except BaseException as x:
                if x is not e:
                    raise
                if xr and ext is not None:
                    raise Bad('the exit function swallows the exception, the context does not')
            else:
                if e is not None and not (xr and ext is not None):
                    raise Bad('the context swallows the exception')
            if ext is not None:
                want = (None, None, None) if e is None else (type(e), e, e.__traceback__)
                if len(log) != 1 or log[0][0] != 'exit' or len(log[0]) != 5 or log[0][1] is not f or any(a is not b for a, b in zip(log[0][2:4], want)):
                    raise Bad(f'leaving calls {log}')
                if (log[0][4] is None) != (e is None):
                    raise Bad('the traceback is not passed on')
        # results as they are
        tb = Odd()
        del log[:]
        v = c.__enter__()
        if v is not (er if ent is not None else f):
            raise Bad(f'__enter__ gives {v!r}')
        e = Broken('q')
        del log[:]
        v = c.__exit__(Broken, e, tb)
        if v is not (xr if ext is not None else None):
            raise Bad(f'__exit__ gives {v!r}')
        if ext is not None and any(a is not b for a, b in zip(log[0][1:], (f, Broken, e, tb))):
            raise Bad(f'__exit__ calls {log}')
        # the hooks raise
        # attributes
        for k in before:
            if k not in own and getattr(c, k) is not before[k]:
                raise Bad(f'attribute {k} is {getattr(c, k)!r}')
        if attrs() != before:
            raise Bad('constructing changed the callable')
        for k in ('__name__', '__qualname__', '__module__', '__doc__', 'args', 'keywords', '__self__', '__func__', 'other', '__code__', '__defaults__', 'act'):
            miss = object()
            a, b = getattr(f, k, miss), getattr(c, k, miss)
            if a is not b and not (a is not miss and b is not miss and a == b):
                raise Bad(f'attribute {k} is {b!r}, of the callable {a!r}')
        if case['callable'] not in ('slots', 'method'):
            x = Odd()
            setattr(f, 'new_attribute', x)
            if c.new_attribute is not x:
                raise Bad('an attribute set later is not that of the callable')
            for x in (1, 2, 'a', b3, None, [], Odd()):
                setattr(f, 'new_attribute', x)
                if c.new_attribute is not x or getattr(c, 'new_attribute') is not x or not hasattr(c, 'new_attribute'):
                    raise Bad('an attribute changed again is not that of the callable')
            delattr(f, 'new_attribute')
            if hasattr(c, 'new_attribute') or getattr(c, 'new_attribute', e) is not e:
                raise Bad('an attribute that was taken away is still given')
            if 'name' in before:
                f.name = x
                if c.name is not x:
                    raise Bad('an attribute changed later is not that of the callable')
        try:
            c.no_such_attribute
            raise Bad('an attribute that does not exist is given')
        except AttributeError:
            pass
    except Bad as e:
        return f'{case}: {e}'
    except Exception as e:
        return f'{case}: unexpected {type(e).__name__}: {e}'
    return None


def run_raise(case):
    """what the enter and exit functions raise comes out"""
    from stream2py.util import ContextualizeCall
    e = Broken('hook') if case['cls'] is True else OTHERS[case['cls'] - 2] if case['cls'] else Abort('hook')

    def boom(*a):
        raise e
    f = mk_callable('function', lambda *a, **k: None)
    try:
        c = ContextualizeCall(f, **{case['hook'] + '_func': boom})
        try:
            with c:
                if case['hook'] == 'enter':
                    raise Bad('entered')
        except Bad:
            raise
        except BaseException as x:
            if x is not e:
                raise Bad(f'raised {x!r}, the function {e!r}')
        else:
            raise Bad('the exception is swallowed')
    except Bad as x:
        return f'{case}: {x}'
    except Exception as x:
        return f'{case}: unexpected {type(x).__name__}: {x}'
    return None


def b3(o, a, b):
    pass


def b3k(o, a, b, **k):
    pass


def kw4(*, a, b, c, d):
    pass


INVALID = {
    'func': [None, 1, 'f', Odd(), [len], {}],
    'enter_func': [None, 1, 'f', Odd(), lambda: None, functools.partial(lambda o: None, 1)],
    'exit_func': [None, 1, 'f', Odd(), lambda: None, lambda o: None, lambda o, a: None, b3, lambda **k: None, lambda o, **k: None,
                  lambda o, *, k=1: None, lambda o, a, **k: None, functools.partial(lambda a, b, c, d: None, 1), Hook4(None).__init__],
}
VALID = {
    'enter_func': [lambda o: o, lambda *o: o, lambda o, p=1: o, lambda **k: 1, functools.partial(lambda a, b: None, 1), Hook(None), Hook4(None).__init__],
    'exit_func': [lambda *a: 1, lambda o, *a: 1, lambda a, b, c, d: 1, lambda a, b, c, d, e: 1, lambda a, b, c, d=1: 1, b3k, lambda *a, **k: 1, Hook(None), Hook4(None),
                  Hook4(None).four, functools.partial(lambda *a: 1, 1), functools.partial(lambda a, b, c, d, e: 1, 1)],
}


def run_valid(case):
    from stream2py.util import ContextualizeCall
    nm, i, good = case['param'], case['index'], case['good']
    x = (VALID if good else INVALID)[nm][i]
    try:
        if nm == 'func':
            ContextualizeCall(x)
        else:
            ContextualizeCall(lambda: 1, **{nm: x})
    except TypeError as e:
        return f'{case}: {x} is refused: {e}' if good else None
    except Exception as e:
        return f'{case}: unexpected {type(e).__name__}: {e}'
    return None if good else f'{case}: {x} is accepted as {nm}'


def run_instance(case):
    from stream2py.util import contextualize_with_instance
    log = []
    res = Odd()
    er = Odd() if case.get('enter_result', 'Odd') == 'Odd' else case['enter_result']
    got = {}

    def act(*a, **k):
        got['call'] = a, k
        return res
    o = (Owner if case.get('owner', 'plain') == 'plain' else EmptyOwner)(act, log, er, case['exit_result'])
    try:
        c = contextualize_with_instance(o.method)
        for e in (None, Broken('b'), Abort('b'), *OTHERS):
            del log[:]
            try:
                with c as v:
                    if v is not er:
                        raise Bad(f'entering gives {v!r}')
                    if len(log) != 1 or log[0][0] != 'enter' or log[0][1] is not o:
                        raise Bad(f'entering does {log}')
                    if c(1, self=2) is not res or got['call'] != ((1,), {'self': 2}):
                        raise Bad('the call')
                    if e is not None:
                        raise e
            except Bad:
                raise
            except BaseException as x:
                if x is not e or case['exit_result']:
                    raise Bad(f'leaving raised {x!r}')
            else:
                if e is not None and not case['exit_result']:
                    raise Bad('the exception is swallowed')
            if len(log) != 2 or log[1][0] != 'exit' or log[1][1] is not o or log[1][3] is not e or log[1][2] is not (None if e is None else type(e)) or len(log[1]) != 5:
                raise Bad(f'leaving does {log[1:]}')
        x = Odd()
        if c.__exit__(None, None, None) is not case['exit_result']:
            raise Bad('__exit__ result')
        del log[:]
        c.__exit__(Broken, x, x)
        if log[0][2] is not Broken or log[0][3] is not x or log[0][4] is not x:
            raise Bad('__exit__ arguments')
        for what, e in itertools.product(('enter', 'exit'), (Broken('i'), Abort('i'), *OTHERS)):
            o.raises = what, e
            try:
                with c:
                    if what == 'enter':
                        raise Bad('entered although the instance raised')
            except Bad:
                raise
            except BaseException as x:
                if x is not e:
                    raise Bad(f'the instance raised {e!r}, the context {x!r}')
            else:
                raise Bad(f'the exception of the instance on {what} is swallowed')
    except Bad as e:
        return f'{case}: {e}'
    except Exception as e:
        return f'{case}: unexpected {type(e).__name__}: {e}'
    return None


def run(case):
    return (run_use if 'callable' in case else run_raise if 'hook' in case else run_valid if 'param' in case else run_instance)(case)


def c19(tier, seed, budget):
    rep = Report('callables of many kinds, every form of enter and exit function, calls with and without exceptions, valid and invalid arguments; '
                 'non-trivial: distinct combination', ('harness.util', 'run'), 'every combination of the kinds listed')
    t0 = time.time()

    def cases():
        for good, d in ((True, VALID), (False, INVALID)):
            for k, xs in d.items():
                for i in range(len(xs)):
                    yield dict(param=k, index=i, good=good)
        for k in CALLABLES:
            yield dict(callable=k)
            for a, b, er, xr in itertools.product((None, *ENTERS), (None, *EXITS), ('Odd', None), (None, False, True, 0, 'x')):
                yield dict(callable=k, enter=a, exit=b, enter_result=er, exit_result=xr)
        for h, c in itertools.product(('enter', 'exit'), (False, True, *range(2, 2 + len(OTHERS)))):
            yield dict(hook=h, cls=c)
        for x, e, o in itertools.product((None, False, True, 0, 'x'), ('Odd', None, False, 0, ''), ('plain', 'empty')):
            yield dict(exit_result=x, enter_result=e, owner=o)
    for c in cases():
        if time.time() - t0 > 120:
            break
        rep.case(repr(c))
        v = run(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 2:
                break
    return rep.result()
