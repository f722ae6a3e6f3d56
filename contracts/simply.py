"""Contracts of mk_stream_buffer (C17): a stream made from plain functions.

open, read, close, info and key are arbitrary functions: they return or raise anything.  Their calls are recorded; the
obligations say when they are called and with what, and what the stream does with what they return."""
import itertools
from types import SimpleNamespace
import z3
from pyve.interp import State, is_raise, SReal
from pyve.solver import fresh, fresh_int, Item, RealS, BoolS, Opq
from pyve.values import *
from pyve.natives import NDict, NThread
from pyve.contract import Contract
from . import stream
from .container import V
from .stream import SB, call, session_objects, GHOST, RunLoop, world_while, world_rely, adopt
from .world import only

import stream2py.simply as _sp

MK = _sp.mk_stream_buffer


def mk_engine(prefix=('plain',)):
    eng = stream.mk_engine(lambda n: n.startswith(prefix))
    eng.on_open = None
    eng.in_session = False
    eng.quiet = False
    return eng


# ------------------------------------------------------------------ the plain functions

def opened(st):
    """what the open function returned last; None if there is no open function"""
    return st.ghost['instance']


def fn_open(eng, st, args, kw):
    eng.oblige(st, 'plain: the open function is called without arguments', not args and not kw)
    st.ghost['open_calls'] += 1
    b = st.copy()
    e = Exc(BaseException, ('open',), arbitrary=True)
    b.ghost['open_exc'] = e.tag
    st.ghost['instance'] = SOpq(fresh('instance', Opq))
    st.ghost.update(is_open=True, closes=0, info=SOpq(fresh('info', Opq)))
    if not eng.quiet:
        yield b, Raise(e)
    yield st, st.ghost['instance']


def on_instance(eng, st, args, kw, what):
    vals = list(args) + list(kw.values())
    eng.oblige(st, f'plain: the {what} function is called with the opened instance',
               zbool(sym_eq(vals[0], opened(st))) if len(vals) == 1 else False)


def fn_read(eng, st, args, kw):
    on_instance(eng, st, args, kw, 'read')
    if eng.in_session:
        yield from stream.src_read(eng, st, [None], {})
        return
    st.ghost['read_calls'] += 1
    b = st.copy()
    e = Exc(BaseException, ('read',), arbitrary=True)
    b.ghost['fn_exc'] = e.tag
    n = st.copy()
    st.ghost['value'], n.ghost['value'] = SItem(fresh('value', Item)), None
    yield b, Raise(e)
    yield n, None
    yield st, st.ghost['value']


def fn_close(eng, st, args, kw):
    on_instance(eng, st, args, kw, 'close')
    st.ghost['close_calls'] += 1
    if eng.in_session:
        yield from stream.src_close(eng, st, [None], {})
        return
    b = st.copy()
    e = Exc(Exception, ('close',), arbitrary=True)
    b.ghost['fn_exc'] = e.tag
    yield b, Raise(e)
    yield st, SOpq(fresh('closed', Opq))


def fn_info(eng, st, args, kw):
    on_instance(eng, st, args, kw, 'info')
    yield st, st.ghost['info']


def fn_key(eng, st, args, kw):
    vals = list(args) + list(kw.values())
    eng.oblige(st, 'plain: the key function is called with the data', zbool(sym_eq(vals[0], st.ghost['data'])) if len(vals) == 1
               else False)
    st.ghost['key'] = SKey(fresh('key', RealS))
    yield st, st.ghost['key']


EXTRA = dict(open_calls=0, read_calls=0, close_calls=0, instance=None, value=None, fn_exc=None, body=0, sb=None)

SETTINGS = ('open', 'close', 'info', 'key', 'limit', 'pause')


def functions(eng, st, given, enum):
    kw = dict(read_stream=NativeFn(fn_read, 'read_stream'))
    if 'open' in given:
        kw['open_stream'] = NativeFn(fn_open, 'open_stream')
    if 'close' in given:
        kw['close_stream'] = NativeFn(fn_close, 'close_stream')
    if 'info' in given:
        kw['info'] = NativeFn(fn_info, 'info')
    if 'key' in given:
        kw['key'] = eng.w.key
    if 'limit' in given:
        t = fresh_int('maxlen')
        st.assume(t >= 1)
        kw['maxlen'] = SInt(t)
        kw['auto_drop'] = SBool(fresh('auto_drop', BoolS))
    if 'no limit' in given:
        kw['maxlen'] = None
        kw['auto_drop'] = SBool(fresh('auto_drop', BoolS))
    if 'pause' in given:
        kw['sleep_time_on_read_none_seconds'] = SReal(fresh('pause', RealS))
    if enum is not None:
        kw['enumerate_data'] = enum
    return kw


def begin(eng, given, enum):
    st = State()
    st.ghost.update(GHOST)
    st.ghost.update(EXTRA)
    st.ghost['info'] = SOpq(fresh('info', Opq))
    eng.w = SimpleNamespace(events=(), maxlen=100, auto_drop=True, pause=None, src_pause=None, key=KeyFn('key'), event=None,
                            window=None, locked=None, flag_stable=True, source=None)
    kw = functions(eng, st, given, enum)
    return st, kw


def source_of(st, sb):
    """the source object the stream reads"""
    fs = [v for v in st.get(sb).fields.values() if isinstance(v, Ref) and isinstance(st.get(v).cls, SymClass)]
    if len(fs) != 1:
        raise Unsupported('the source of the stream is not found')
    return fs[0]


def in_context(eng, st, kw, body):
    """with mk_stream_buffer(...) as sb: body"""
    for s, cm in eng.call(st, MK, [], dict(kw)):
        if is_raise(cm):
            yield s, ('exc', cm.exc)
        else:
            yield from eng.with_cm(s, cm, body)


ENDS = ('end', 'error', 'base error')


def c_context():
    """entering, leaving normally and by an exception, failing to open"""
    def scenarios():
        for given, enum in (((), None), (('open', 'close', 'info', 'key', 'limit', 'pause'), True),
                            (('open', 'close', 'no limit'), False), (('open', 'key', 'pause'), None)):
            for end in ENDS:
                def setup(eng, given=given, enum=enum, end=end):
                    s, kw = begin(eng, given, enum)
                    yield s, [kw, given, end], {}
                yield f'given {", ".join(given) or "read only"}, enumerate {enum}, body ends by {end}', setup

    def run(eng, st, args, kw):
        fns, given, end = args
        w = eng.w

        def body(s, sb):
            ob = lambda nm, g: eng.oblige(s, f'plain: {nm}', g)
            s.ghost['body'] += 1
            ob('the context gives a stream', isinstance(sb, Ref) and s.get(sb).cls is SB)
            s.ghost['sb'] = sb
            for s2, r in eng.getattr(s.copy(), sb, 'is_running'):
                eng.oblige(s2, 'plain: the stream runs inside its context', r is True)
            if 'open' in given:
                ob('the open function is called once on entry', s.ghost['open_calls'] == 1)
            ob('nothing is closed on entry', s.ghost['close_calls'] == 0)
            ev, th, buf, ld, d = session_objects(s, sb)
            ob('one reading thread runs inside the context', s.ghost.get('started') == (th.oid,))
            v = V(eng, s, d)
            if 'limit' in given or 'no limit' in given:
                ob('the limit is that given', zbool(sym_eq(v.maxlen, fns['maxlen'])))
                for s2, r in eng.getattr(s.copy(), sb, 'auto_drop'):
                    eng.oblige(s2, 'plain: auto-drop is as given', zbool(sym_eq(r, fns['auto_drop'])))
            if 'info' in given:
                for s2, r in eng.getattr(s.copy(), sb, 'source_reader_info'):
                    eng.oblige(s2, 'plain: the info is what the info function returns', zbool(sym_eq(r, s.ghost['info'])))
            # the reading thread may end by itself meanwhile
            s.setf(ev, 'set', SBool(fresh('stopped', BoolS)))
            s.ghost['_event'] = ev
            if end == 'end':
                yield s, ('norm', None)
            else:
                e = Exc(Exception if end == 'error' else BaseException, ('body',), arbitrary=True)
                s.ghost['body_exc'] = e.tag
                yield s, ('exc', e)
        for s, out in in_context(eng, st, fns, body):
            if out[0] == 'exc':
                yield s, Raise(out[1])
            else:
                yield s, None

    def post(eng, pre, s, args, out, rep):
        fns, given, end = args
        ob = lambda nm, g: eng.oblige(s, f'plain: {nm}', g)
        g = s.ghost
        if g['open_exc'] is not None:
            ob('a failing open function fails the entry', is_raise(out) and out.exc.tag == g['open_exc'])
            ob('the body is not run if opening failed', g['body'] == 0)
            ob('no reading is started if opening failed', not g.get('started'))
            return
        ob('the body is run once', g['body'] == 1)
        if end == 'end':
            ob('leaving the context succeeds', not is_raise(out))
        else:
            ob('an exception in the context is not swallowed', is_raise(out) and out.exc.tag == g['body_exc'])
        if g['sb'] is not None:
            for s2, r in eng.getattr(s.copy(), g['sb'], 'is_running'):
                eng.oblige(s2, 'plain: the stream is stopped when its context is left', r is False)
            ob('the stop flag of the session is set when the context is left', s.f(g['_event'], 'set') is True)
    c = Contract('mk_stream_buffer: context', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


# ------------------------------------------------------------------ the source made of the functions

def reading(eng, s, src, enum, k, what):
    """one read: yields the states after a value was delivered"""
    s.ghost['value'] = s.ghost['fn_exc'] = None
    n0 = s.ghost['read_calls']
    for s2, r in call(eng, s, src, 'read'):
        ob = lambda nm, g: eng.oblige(s2, f'plain: {nm}{what}', g)
        ob('a read calls the read function once', s2.ghost['read_calls'] == n0 + 1)
        if is_raise(r):
            ob('a read raises only what the read function raised', r.exc.tag == s2.ghost['fn_exc'])
            continue
        v = s2.ghost['value']
        ob('an error in the read function is not swallowed', s2.ghost['fn_exc'] is None)
        if v is None:
            ob('None means no data yet', r is None)
        elif enum is False:
            ob('a value is delivered bare when enumeration is off', zbool(sym_eq(r, v)))
        else:
            ob('a value is delivered with its index', zbool(sym_eq(r, (k, v))) if isinstance(r, tuple) else False)
        yield s2, v


def valued(eng, it):
    out = [s for s, v in it if v is not None]
    if len(out) != 1:
        raise Unsupported('a successful read has several outcomes')
    return out[0]


def ints(st, src):
    return {k: v for k, v in st.get(src).fields.items() if isinstance(v, int) and not isinstance(v, bool)}


def index_field(eng, s, src, enum):
    """the attribute that holds the next index, found by what reading does to it"""
    zero = ints(s, src)
    s = valued(eng, reading(eng, s.copy(), src, enum, 0, ''))
    one = ints(s, src)
    s = valued(eng, reading(eng, s, src, enum, 1, ''))
    two = ints(s, src)
    fs = [k for k in two if two[k] == 2 and one.get(k) == 1 and zero.get(k, 0) == 0]
    if len(fs) != 1:
        raise Unsupported('no attribute of the source counts its values')
    return fs[0]


def c_source():
    """the source behind the stream, after any number of reads and re-openings"""
    def scenarios():
        for given, enum, again in itertools.product(
                ((), ('open', 'close'), ('open', 'close', 'info', 'key', 'limit')), (None, True, False), (False, True)):
            def setup(eng, given=given, enum=enum, again=again):
                s, kw = begin(eng, given, enum)
                if 'key' in given:
                    kw['key'] = NativeFn(fn_key, 'key')
                yield s, [kw, given, enum, again], {}
            yield f'source of {", ".join(given) or "read only"}, enumerate {enum}' + (', opened again' if again else ''), setup

    def run(eng, st, args, kw):
        fns, given, enum, again = args

        def body(s, sb):
            eng.quiet = True
            src = source_of(s, sb)
            fld = index_field(eng, s, src, enum) if enum is not False else None
            if again:
                # any history of reads, then closed and opened again
                if fld:
                    k = fresh_int('k')
                    s.assume(k >= 0)
                    s.setf(src, fld, SInt(k))
                outs = [x for x, r in call(eng, s, src, 'close') if not is_raise(r)]
                if len(outs) != 1:
                    raise Unsupported('closing has several outcomes')
                s = outs[0]
                before, calls = opened(s), s.ghost['open_calls']
                s, r = only(call(eng, s, src, 'open'), 'open')
                if 'open' in given:
                    eng.oblige(s, 'plain: opening again calls the open function again', s.ghost['open_calls'] == calls + 1)
            check(eng, s, src, given, enum, fld)
            eng.quiet = False
            yield s, ('norm', None)
        for s, out in in_context(eng, st, fns, body):
            yield s, (Raise(out[1]) if out[0] == 'exc' else None)

    def check(eng, s, src, given, enum, fld):
        ob = lambda st, nm, g: eng.oblige(st, f'plain: {nm}', g)
        for s2, v in reading(eng, s.copy(), src, enum, 0, ', the first after opening'):
            # after a None the index is unchanged, after a value it is the next one
            for s3, v3 in reading(eng, s2, src, enum, 0 if v is None else 1, ', the second after opening'):
                pass
        if fld:
            t = s.copy()
            k = fresh_int('k')
            t.assume(k >= 0)
            t.setf(src, fld, SInt(k))
            for s2, v in reading(eng, t, src, enum, SInt(k), ', after any number of values'):
                want = SInt(k) if v is None else SInt(k + 1)
                for s3, v3 in reading(eng, s2, src, enum, want, ', after any number of values and one more read'):
                    pass
        if 'close' in given:
            n = s.ghost['close_calls']
            for s2, r in call(eng, s.copy(), src, 'close'):
                ob(s2, 'closing calls the close function once', s2.ghost['close_calls'] == n + 1)
                if is_raise(r):
                    ob(s2, 'closing raises only what the close function raised', r.exc.tag == s2.ghost['fn_exc'])
        for s2, r in eng.getattr(s.copy(), src, 'info'):
            if 'info' in given:
                ob(s2, 'the info is what the info function returns', zbool(sym_eq(r, s2.ghost['info'])))
        x = SItem(fresh('x', Item))
        data = x if enum is False else (SInt(fresh_int('i')), x)
        if 'key' not in given:
            for s2, r in call(eng, s.copy(), src, 'key', data):
                ob(s2, 'without a key function data are ordered by themselves', zbool(sym_eq(r, data)))
        else:
            t = s.copy()
            t.ghost.update(data=data, key=None)
            for s2, r in call(eng, t, src, 'key', data):
                ob(s2, 'the key is what the key function returns',
                   False if s2.ghost['key'] is None else zbool(sym_eq(r, s2.ghost['key'])))

    def post(eng, pre, s, args, out, rep):
        pass
    c = Contract('mk_stream_buffer: the source', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


# ------------------------------------------------------------------ the reading loop of such a stream

def c_loop():
    """the reading loop over the functions themselves: values reach the buffer, pause, limit and auto-drop as given"""
    def scenarios():
        for given in (('open', 'close', 'info', 'key', 'limit', 'pause'), ('open', 'close', 'key', 'no limit', 'pause')):
            def setup(eng, given=given):
                s, kw = begin(eng, given, False)
                yield s, [kw, given], {}
            yield f'reading loop of {", ".join(given)}', setup

    def run(eng, st, args, kw):
        fns, given = args
        w = eng.w
        w.maxlen, w.auto_drop, w.pause = fns['maxlen'], fns['auto_drop'], fns['sleep_time_on_read_none_seconds']

        def body(s, sb):
            adopt(eng, s, sb, contents=False)
            w.source = source_of(s, sb)
            w.flag_stable = False
            world_rely(eng)
            eng.in_session = True
            s.ghost.update(opens=1, is_open=True, closes=0, pending=None, owes_pause=False, check=None, read=False, ends=())
            eng.loop_spec = lambda e, n, st_, fid: RunLoop(e, st_) if world_while(n) else None
            th = w.thread
            tgt, a, k = s.f(th, 'target'), s.f(th, 'args') or (), s.f(th, 'kwargs') or {}
            if tgt is None or isinstance(k, Ref):
                raise Unsupported('thread target')
            for s2, out in eng.call(s, tgt, list(a), dict(k)):
                g = s2.ghost
                eng.oblige(s2, 'each value read is buffered before reading ends, unless buffering fails', g['pending'] is None)
                eng.oblige(s2, 'plain: the opened instance is closed once with the close function when the stream stops',
                           g['close_calls'] == 1 and not g['is_open'])
            eng.in_session = False
            eng.loop_spec = None
            w.flag_stable = True
            return
            yield
        yield from ((s, None) for s, out in in_context(eng, st, fns, body))
    c = Contract('mk_stream_buffer: reading', None, None, scenarios, run=run, post=lambda *a: None)
    c.mk_engine = lambda: mk_engine(('plain', 'each value read', 'a read of None', 'the pause after', 'only a value just read',
                                     'the value added', 'values read enter', 'with automatic dropping', 'a round reads'))
    return c


def for_c17():
    return [c_context(), c_source(), c_loop()]
