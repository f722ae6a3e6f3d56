"""Contracts of the source base classes (C18): open state and context, iteration, time stamps."""
import itertools
import z3
from pyve.interp import Engine, State, is_raise, SReal
from pyve.solver import fresh, fresh_int, Item, RealS, BoolS, Opq
from pyve.values import *
from pyve.contract import Contract
from pyve.loops import LoopSpec
from .stream import call
from .world import only

import stream2py.stream_source as _ss
import stream2py.source_reader as _sr

SS, SR, QR = _ss.StreamSource, _sr.SourceReader, _sr.QuickSourceReader


# ------------------------------------------------------------------ arbitrary sources

def env(name, cls=BaseException, result=lambda: SOpq(fresh('result', Opq))):
    """an arbitrary method of a subclass: counts its calls, returns or raises anything"""
    def handler(eng, st, args, kw):
        k = f'n_{name}'
        st.ghost[k] = st.ghost[k] + 1
        st.ghost['args_' + name] = tuple(args[1:])
        b = st.copy()
        e = Exc(cls, (name,), arbitrary=True)
        b.ghost['raised'] = e.tag
        yield b, Raise(e)
        if eng.flags_itself:
            st.setf(args[0], '_closed', name == 'close')
        yield st, result()
    return NativeFn(handler, name, method=True)


def src_read(eng, st, args, kw):
    g = st.ghost
    eng.oblige(st, 'iteration: every valid value read is delivered before the source is read again', g['pending'] is None)
    eng.oblige(st, 'iteration: a value that is no valid data is followed by waiting', not g['owes_wait'])
    e = Exc(BaseException, ('read',), arbitrary=True)
    b = st.copy()
    b.ghost['raised'] = e.tag
    yield b, Raise(e)
    n = st.copy()
    g['stop_seen'] = n.ghost['stop_seen'] = None
    for s, x in ((n, None), (st, SItem(fresh('item', Item)))):
        s.ghost['last'] = x
        if eng.own_validity:
            s.ghost['unjudged'] = True
            v = fresh('valid', BoolS)
            a, b = s.copy(), s
            a.assume(v)
            b.assume(z3.Not(v))
            a.ghost['pending'], a.ghost['valid'] = ('value', x), True
            b.ghost['owes_wait'], b.ghost['valid'] = True, False
            yield a, x
            yield b, x
        else:
            if x is None:
                s.ghost['owes_wait'] = True
            else:
                s.ghost['pending'] = ('value', x)
            yield s, x


def src_valid(eng, st, args, kw):
    """an overridden is_valid_data: any judgement about the value just read"""
    vals = list(args[1:]) + list(kw.values())
    if len(vals) == 1 and zbool(sym_eq(vals[0], st.ghost['last'])) is not None:
        eng.oblige(st, 'iteration: validity is asked of the value read', zbool(sym_eq(vals[0], st.ghost['last'])))
    yield st, st.ghost['valid']


def src_no_data(eng, st, args, kw):
    st.ghost['owes_wait'] = False
    e = Exc(BaseException, ('when_no_data',), arbitrary=True)
    b = st.copy()
    b.ghost['raised'] = e.tag
    yield b, Raise(e)
    yield st, None


def src_stopped(eng, st, args, kw):
    b = fresh('is_stopped', BoolS)
    st.ghost['stop_seen'] = b
    yield st, SBool(b)


METHODS = dict(open=env('open'), close=env('close'), read=NativeFn(src_read, 'read', method=True))


class EnvReaderSource(SR):
    pass


class EnvQuick(QR):
    read = NativeFn(src_read, 'read', method=True)


class EnvQuickValid(EnvQuick):
    is_valid_data = NativeFn(src_valid, 'is_valid_data', method=True)


class EnvQuickNoData(EnvQuick):
    when_no_data = NativeFn(src_no_data, 'when_no_data', method=True)


class EnvQuickBoth(EnvQuickValid, EnvQuickNoData):
    pass


class EnvStreamSource(SS):
    pass


class EnvStoppable(SS):
    is_stopped = PropVal(NativeFn(src_stopped, 'is_stopped', method=True))


for _c in (EnvReaderSource, EnvStreamSource, EnvStoppable):
    for _k, _v in METHODS.items():
        setattr(_c, _k, _v)
EnvStoppable.is_stopped = PropVal(NativeFn(src_stopped, 'is_stopped', method=True))

GHOST = dict(n_open=0, n_close=0, raised=None, pending=None, owes_wait=False, stop_seen=None, last=None, valid=None)


def mk_engine(prefix=None):
    eng = Engine()
    eng.none_items = False
    eng.focus = (lambda n: n.startswith(prefix)) if prefix else None
    eng.flags_itself = False
    eng.own_validity = False

    def sleep(eng, st, t):
        st.ghost['owes_wait'] = False
        st.log('sleep', t)
        yield st, None
    eng.hooks['sleep'] = sleep
    return eng


def mk_source(eng, cls):
    st = State()
    st.ghost.update(GHOST)
    return only(eng.instantiate(st, cls, [], {}), cls.__name__)


def closed_is(eng, st, src, want, name):
    for s, v in eng.getattr(st.copy(), src, 'closed'):
        eng.oblige(s, name, v is want)


# ------------------------------------------------------------------ open state and context

PAIRS = (('__enter__', '__exit__'), ('enter', 'exit'))
BODY = ('normal', 'error', 'base error')


def exit_args(body):
    if body == 'normal':
        return None, [None] * 3
    e = Exc(Exception if body == 'error' else BaseException, ('body',), arbitrary=True)
    return e, [ExcType(e), e, SOpq(fresh('traceback', Opq))]


def c_context():
    """entering opens and leaving closes, from the state before any use and after an earlier use"""
    def scenarios():
        for (en, ex), body, itself, again in itertools.product(PAIRS, BODY, (False, True), (False, True)):
            if again and (en == 'enter' or body == 'base error'):
                continue

            def setup(eng, en=en, ex=ex, body=body, itself=itself, again=again):
                eng.flags_itself = itself
                s, src = mk_source(eng, EnvReaderSource)
                if again:
                    for nm, a in ((en, []), (ex, [None] * 3)):
                        outs = [(x, r) for x, r in call(eng, s, src, nm, *a) if not is_raise(r) and eng.feasible(x)]
                        if len(outs) != 1:
                            raise Unsupported(f'{nm}: {len(outs)} outcomes')
                        s = outs[0][0]
                    s.ghost.update(GHOST)
                closed_is(eng, s, src, True, 'context: the source reports itself closed before its context')
                yield s, [src, en, ex, body], {}
            yield f'{en}/{ex}, body {body}, flag kept {"by the source too" if itself else "by the base"}' + \
                (', used before' if again else ''), setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], args[1])

    def post(eng, pre, s, args, out, rep):
        src, en, ex, body = args
        ob = lambda st, nm, g: eng.oblige(st, f'context: {nm}', g)
        ob(s, 'entering opens the source once', s.ghost['n_open'] == 1)
        ob(s, 'entering does not close the source', s.ghost['n_close'] == 0)
        if is_raise(out):
            ob(s, 'entering raises only what opening raised', out.exc.tag == s.ghost['raised'])
            closed_is(eng, s, src, True, 'context: a source that failed to open reports itself closed')
            return
        ob(s, 'opening without an error enters the context', s.ghost['raised'] is None)
        ob(s, 'entering gives the source itself', isinstance(out, Ref) and out == src)
        closed_is(eng, s, src, False, 'context: the source reports itself open inside its context')
        err, a = exit_args(body)
        for s2, r in call(eng, s.copy(), src, ex, *a):
            ob(s2, 'leaving closes the source once', s2.ghost['n_close'] == 1)
            ob(s2, 'leaving does not open the source', s2.ghost['n_open'] == 1)
            if is_raise(r):
                ob(s2, 'leaving raises only what closing raised', r.exc.tag == s2.ghost['raised'])
                continue
            ob(s2, 'an error while closing is not swallowed', s2.ghost['raised'] is None)
            for s3, t in eng.truth(s2.copy(), r):
                ob(s3, 'leaving swallows no exception', t is False)
            closed_is(eng, s2, src, True, 'context: the source reports itself closed after its context')
    c = Contract('SourceReader.__enter__/__exit__/closed', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('context')
    return c


def c_quick():
    """open and close of the ready-made quick source, with and without a context, any number of times"""
    def scenarios():
        for how, again in itertools.product(('open', '__enter__', 'enter'), (False, True)):
            def setup(eng, how=how, again=again):
                s, src = mk_source(eng, EnvQuick)
                if again:
                    s, _ = only(call(eng, s, src, how), how)
                    s, _ = only(call(eng, s, src, 'close'), 'close')
                    # what its user did with the public attributes meanwhile
                    s.setf(src, 'read_idx', SInt(fresh_int('read_idx')))
                    s.setf(src, 'open_time', SInt(fresh_int('open_time')))
                closed_is(eng, s, src, True, 'quick: it reports itself closed before it is opened')
                yield s, [src, how], {}
            yield f'{how}' + (', again' if again else ''), setup

    def run(eng, st, args, kw):
        st.trace = ()
        yield from call(eng, st, args[0], args[1])

    def post(eng, pre, s, args, out, rep):
        src, how = args
        ob = lambda st, nm, g: eng.oblige(st, f'quick: {nm}', g)
        ob(s, 'opening succeeds', not is_raise(out))
        if is_raise(out):
            return
        if how != 'open':
            ob(s, 'entering gives the source itself', isinstance(out, Ref) and out == src)
        closed_is(eng, s, src, False, 'quick: it reports itself open after opening')
        for s2, v in eng.getattr(s.copy(), src, 'read_idx'):
            ob(s2, 'opening resets the index', zbool(sym_eq(v, 0)))
        for s2, v in eng.getattr(s.copy(), src, 'open_time'):
            stamp(eng, s2, v, 'quick: opening resets the open time')
        for s2, v in eng.getattr(s.copy(), src, 'info'):
            if isinstance(v, Ref) and 'd' in s2.get(v).fields:
                t = s2.f(v, 'd').get('open_time')
                ob(s2, 'the info tells the open time', zbool(sym_eq(t, s2.f(src, 'open_time'))))
        item = SItem(fresh('data', Item))
        for s2, v in call(eng, s.copy(), src, 'key', item):
            ob(s2, 'data are ordered by themselves', zbool(sym_eq(v, item)))
        for ex, body in (('close', None), ('__exit__', 'normal'), ('__exit__', 'error'), ('exit', 'normal')):
            for s2, r in call(eng, s.copy(), src, ex, *(exit_args(body)[1] if body else [])):
                ob(s2, 'closing succeeds', not is_raise(r))
                if ex != 'close' and not is_raise(r):
                    for s3, t in eng.truth(s2.copy(), r):
                        ob(s3, 'leaving swallows no exception', t is False)
                closed_is(eng, s2, src, True, 'quick: it reports itself closed after closing')
    c = Contract('QuickSourceReader.open/close/key/info/closed', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('quick')
    return c


# ------------------------------------------------------------------ time stamps

def stamp(eng, s, v, name):
    """v is the integer number of microseconds of the current time (either neighbour)"""
    times = [x[1] for x in s.trace if x[0] == 'time']
    ok = isinstance(v, (int, SInt)) and not isinstance(v, bool)
    if not eng.oblige(s, f'{name}: it is an integer', ok):
        return
    if len(times) == 0:
        eng.oblige(s, f'{name}: it is the current time', False)
        return
    d = [z3.ToReal(zint(as_int(v))) - t * 1000000 for t in times]
    eng.oblige(s, f'{name}: it is the current time in microseconds', z3.Or(*[z3.And(x < 1, x > -1) for x in d]))


def c_timestamp():
    def scenarios():
        for cls in (SR, QR, SS, EnvReaderSource):
            def setup(eng, cls=cls):
                yield State(), [cls], {}
            yield f'{cls.__name__}.get_timestamp', setup

            def setup2(eng, cls=cls):
                s, src = mk_source(eng, {SR: EnvReaderSource, QR: EnvQuick, SS: EnvStreamSource}.get(cls, cls))
                yield s, [src], {}
            yield f'get_timestamp of an instance of {cls.__name__}', setup2

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'get_timestamp')

    def post(eng, pre, s, args, out, rep):
        if not eng.oblige(s, 'time stamp: taking one succeeds', not is_raise(out)):
            return
        stamp(eng, s, out, 'time stamp')
    c = Contract('get_timestamp', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('time stamp')
    return c


# ------------------------------------------------------------------ iteration

class IterLoop(LoopSpec):
    """invariant of a loop that iterates: one of the situations, found by execution, in which a round starts - what
    was read last, whether it is still to be delivered or to be waited upon, and which variable holds it.  That
    nothing is still to be delivered or waited upon is obliged where the source is read (src_read)."""
    ghost_ok = True
    KEYS = ('owes_wait', 'valid', 'unjudged')

    def __init__(self):
        self.alts = []

    def situation(self, st, fid):
        loc = {k: v for k, v in st.frames[fid].items() if not k.startswith('__') and (v is None or isinstance(v, SItem))}
        last, pend = st.ghost['last'], st.ghost['pending']
        if last is not None:
            last = next((k for k, v in sorted(loc.items()) if v is not None and sym_eq(v, last) is True), True)
        if pend is not None:
            l = st.ghost['last']
            pend = 'last' if pend[1] is l or (l is not None and sym_eq(pend[1], l) is True) else 'other'
        return (tuple(sorted((k, v is None) for k, v in loc.items())), last, pend, st.ghost['stop_seen'] is None,
                tuple(st.ghost.get(k) for k in self.KEYS))

    def enter(self, eng, st, fid):
        self.alts.append(self.situation(st, fid))

    def havoc(self, eng, st, fid):
        for loc, last, pend, unseen, rest in self.alts:
            s = st.copy()
            fr = s.frames[fid]
            if any((fr[k] is None) != none for k, none in loc if k in fr and (fr[k] is None or isinstance(fr[k], SItem))):
                continue
            if isinstance(last, str):
                if fr.get(last) is None and last in fr:
                    continue
                # a variable without a value at the head leaves open what was read last
                s.ghost['last'] = fr[last] if isinstance(fr.get(last), SItem) else SItem(fresh('last', Item))
            else:
                s.ghost['last'] = None if last is None else SItem(fresh('last', Item))
            s.ghost['pending'] = (None if pend is None else
                                  ('value', s.ghost['last'] if pend == 'last' else SItem(fresh('pending', Item))))
            s.ghost['stop_seen'] = None if unseen else fresh('is_stopped', BoolS)
            for k, v in zip(self.KEYS, rest):
                s.ghost[k] = v
            yield s

    def cover(self, eng, st, fid):
        a = self.situation(st, fid)
        if a in self.alts:
            return True
        if len(self.alts) > 12:
            raise Unsupported('iteration: too many situations')
        self.alts.append(a)
        return False


ITERS = ((EnvReaderSource, False), (EnvQuick, False), (EnvQuickValid, True), (EnvQuickNoData, False), (EnvQuickBoth, True),
         (EnvStreamSource, False), (EnvStoppable, False))


def c_iter():
    def scenarios():
        for cls, own in ITERS:
            def setup(eng, cls=cls, own=own):
                eng.own_validity = own
                s, src = mk_source(eng, cls)
                s, _ = only(call(eng, s, src, 'set_sleep_time_on_iter_none', SReal(fresh('pause', RealS))), 'set_sleep')
                eng.loop_spec = lambda e, n, st_, fid: IterLoop() if type(n).__name__ == 'While' else None
                yield s, [src], {}
            yield f'iteration of {cls.__mro__[1].__name__} ({cls.__name__})', setup

    def run(eng, st, args, kw):
        def on_yield(eng, s, v):
            p = s.ghost['pending']
            eng.oblige(s, 'iteration: only values read that are valid data are delivered, once', p is not None)
            if p is not None:
                eng.oblige(s, 'iteration: the value delivered is the value read', zbool(sym_eq(v, p[1])))
            s.ghost['pending'] = None
            yield s, None
        for s, m in eng.getattr(st, args[0], '__iter__'):
            for s1, g in eng.call(s, m, [], {}):
                if not isinstance(g, GenObj):
                    raise Unsupported('iter(source) is not a generator')
                yield from eng.run_body(s1, g.fn, g.binding, on_yield)

    def post(eng, pre, s, args, out, rep):
        cls = s.get(args[0]).cls
        eng.oblige(s, 'iteration: every valid value read is delivered before it ends', s.ghost['pending'] is None)
        if is_raise(out):
            eng.oblige(s, 'iteration: it raises only what the source raised', out.exc.tag == s.ghost['raised'])
            return
        seen = s.ghost['stop_seen']
        g = False
        if issubclass(cls, SS) and seen is not None and s.ghost['last'] is None:
            g = seen
        eng.oblige(s, 'iteration: it ends only when a source that has stopped has no data', zbool(g) if g is False else g)
    c = Contract('iteration of sources', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('iteration')
    return c


def for_c18():
    return [c_context(), c_quick(), c_timestamp(), c_iter()]
