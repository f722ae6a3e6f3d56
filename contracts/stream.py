"""Contracts of StreamBuffer: the reading loop (C12-C14), sessions (C15), lock discipline (C06), attaching (C10).

The source is an arbitrary environment object: open, read and close may return or raise anything; read gives None or an
arbitrary item.  Ghost state records the protocol: the value read and not yet buffered, whether a None still has to be
followed by a pause, the stop test made since the last read, how often the source was opened and closed."""
import itertools
import threading
from types import SimpleNamespace
import z3
from pyve.interp import State, is_raise, SReal
from pyve.solver import fresh, fresh_int, Item, RealS, BoolS, Opq
from pyve.values import *
from pyve.natives import NList, NEvent, NDict, NLock, NRLock, NThread, sub
from pyve.contract import Contract, Cmp, compare_with_spec, Anything, AnyExc
from pyve.loops import LoopSpec
from . import container, world
from .container import V, fill, ANY
from .world import SD, LD, RWLock, Guarded, LockOp, registry, only, key_value, SEARCH, MUTATE

import stream2py.stream_buffer as _sb
import stream2py.buffer_reader as _br
import stream2py.source_reader as _sr
from stream2py.protocols import Source
from stream2py.exceptions import StreamNotStartedError

LOCKS = NLock, NRLock
SB, BR = _sb.StreamBuffer, _br.BufferReader


# ------------------------------------------------------------------ the source

def src_open(eng, st, args, kw):
    g = st.ghost
    eng.on_open(eng, st) if eng.on_open else None
    if eng.open_fails is not False:
        b = st.copy()
        e = Exc(BaseException, ('open',), arbitrary=True)
        b.ghost['open_exc'] = e.tag
        yield b, Raise(e)
    if eng.open_fails is not True:
        g['opens'] = g['opens'] + 1
        g['is_open'] = True
        g['closes'] = 0
        g['info'] = SOpq(fresh('info', Opq))
        if eng.new_key:
            g['key'] = KeyFn('source key, as opened')
        st.log('open')
        yield st, None


def src_read(eng, st, args, kw):
    g = st.ghost
    ob = lambda nm, x: eng.oblige(st, nm, x)
    ob('source: it is read only between opening and closing', g['is_open'])
    ob('each value read is buffered before the source is read again', g['pending'] is None)
    ob('a value that could not be buffered is not skipped by reading the source again', not g.get('refused'))
    ob('a read of None is followed by a pause before the source is read again', not g['owes_pause'])
    c = g['check']
    ob('the source is read only after the stop flag was found unset since the last read',
       False if c is None else True if c is False else z3.Not(c.t) if isinstance(c, SBool) else False)
    room(eng, st, 'with automatic dropping off the source is read only while the buffer has room')
    g['check'] = None
    g['read'] = True
    e = Exc(BaseException, ('read',), arbitrary=True)
    b = st.copy()
    b.ghost['ends'] = b.ghost['ends'] + (e.tag,)
    b.log('read', 'raises')
    yield b, Raise(e)
    n = st.copy()
    n.ghost['owes_pause'] = True
    n.log('read', None)
    yield n, None
    x = SItem(fresh('item', Item))
    st.ghost['pending'] = x
    st.log('read', x)
    yield st, x


def room(eng, st, name):
    w = eng.w
    if w.auto_drop is True or w.maxlen is None:
        return
    v = V(eng, st, w.window)
    g = v.zn < zint(as_int(w.maxlen))
    if isinstance(w.auto_drop, SBool):
        g = z3.Or(w.auto_drop.t, g)
    eng.oblige(st, name, g)


def src_close(eng, st, args, kw):
    g = st.ghost
    eng.oblige(st, 'the source is closed once', g['is_open'] and g['closes'] == 0)
    g['closes'] += 1
    g['is_open'] = False
    st.log('close')
    e = Exc(BaseException, ('close',), arbitrary=True)
    b = st.copy()
    b.ghost['close_exc'] = e.tag
    yield b, Raise(e)
    yield st, None


def src_key(eng, st, args, kw):
    yield st, st.ghost.get('key') or eng.w.key


def src_info(eng, st, args, kw):
    yield st, st.ghost['info']


def src_pause(eng, st, args, kw):
    yield st, eng.w.src_pause


def src_reader_cls(eng, st, args, kw):
    yield st, MyReader


class MyReader(BR):
    """a reader class chosen by the source"""


def src_other(eng, st, ref, name):
    """attributes a source may have or not have, besides those of the protocol"""
    cls = st.get(ref).cls
    if eng.class_has(cls, name) or name in st.get(ref).fields or name.startswith('__') or name == 'buffer_reader_class':
        return None

    def outcomes():
        has = st.ghost.get(f'source has {name}')
        for v in (False, True) if has is None else (has,):
            s = st.copy()
            s.ghost[f'source has {name}'] = v
            s.log('the source has' if v else 'the source has no', name)
            yield s, (SOpq(fresh(name, Opq)) if v else Raise(Exc(AttributeError, (name,))))
    return outcomes()


class EnvSource(Source):
    native_getattr = src_other
    open = NativeFn(src_open, 'open', method=True)
    read = NativeFn(src_read, 'read', method=True)
    close = NativeFn(src_close, 'close', method=True)
    key = PropVal(NativeFn(src_key, 'key', method=True))
    info = PropVal(NativeFn(src_info, 'info', method=True))
    sleep_time_on_read_none_s = PropVal(NativeFn(src_pause, 'pause', method=True))


class EnvSourceWithClass(EnvSource):
    buffer_reader_class = PropVal(NativeFn(src_reader_cls, 'cls', method=True))


class EnvSourceReader(_sr.SourceReader):
    """a source of a class derived from SourceReader, which takes the pause of that class"""
    native_getattr = src_other
    open = NativeFn(src_open, 'open', method=True)
    read = NativeFn(src_read, 'read', method=True)
    close = NativeFn(src_close, 'close', method=True)
    key = PropVal(NativeFn(src_key, 'key', method=True))
    info = PropVal(NativeFn(src_info, 'info', method=True))


class EnvSourceReaderPause(EnvSourceReader):
    """the same with a pause of its own"""
    sleep_time_on_read_none_s = PropVal(NativeFn(src_pause, 'pause', method=True))


# ------------------------------------------------------------------ engine for streams

class StreamGuard(Guarded):
    """the window contracts as seen by the session: only the value just read is added"""

    def apply(self, eng, st, args, kw):
        nm = self.name.split('.')[-1]
        if nm in MUTATE and isinstance(args[0], Ref):
            if nm == 'append' and eng.in_session:
                item = args[1] if len(args) > 1 else kw.get('item')
                p = st.ghost['pending']
                if p is None:
                    eng.oblige(st, 'only a value just read from the source is added to the buffer, once', False)
                else:
                    eng.oblige(st, 'the value added is the value read, unmodified', zbool(sym_eq(item, p)))
                if args[0] == eng.w.window:
                    st.ghost['room'] = True
                    room(eng, st, 'with automatic dropping off no buffered item is evicted')
                else:
                    eng.oblige(st, 'values read enter the buffer of their session', False)
                st.ghost['pending'] = None
            elif nm != 'drop':
                eng.oblige(st, 'nothing but the values read from the source is added to the buffer and nothing removed', False)
            elif eng.in_session:
                eng.oblige(st, 'reading drops nothing itself', False)
        return super().apply(eng, st, args, kw)

    def _apply(self, eng, st, args, r):
        lock = lock_owner(st, args[0])
        if lock is not None:
            held = st.ghost.get(f'held{lock}')
            if self.need == 'w':
                eng.oblige(st, 'items are added or dropped only while holding the lock for writing', held == 'w')
            else:
                eng.oblige(st, 'items are searched or copied only while holding the lock', held in ('r', 'w'))
        if self.anyexc:
            s = st.copy()
            e = Exc(Exception, ('any failure',), arbitrary=True)
            s.ghost['ends'] = s.ghost.get('ends', ()) + (e.tag,)
            if eng.in_session and self.need == 'w':
                s.ghost['refused'] = True
            yield s, Raise(e)
        for s, x in r:
            if is_raise(x):
                s.ghost['ends'] = s.ghost.get('ends', ()) + (x.exc.tag,)
                if eng.in_session and self.need == 'w':
                    s.ghost['refused'] = True
            yield s, x


def lock_owner(st, d):
    for oid, o in st.heap.items():
        if o.cls is LD and any(isinstance(v, Ref) and v == d for v in o.fields.values()):
            return oid
    return None


def mk_engine(focus=None, anyexc=False):
    eng = world.mk_engine(focus)
    for fid, c in registry().items():
        nm = c.name.split('.')[-1]
        if nm in SEARCH + MUTATE:
            eng.contracts[fid] = StreamGuard(c, 'w' if nm in MUTATE else 'r', anyexc)
    eng.in_session = False
    eng.open_fails = False
    eng.on_open = None
    eng.new_key = False
    eng.thread_fails = False
    eng.hooks.pop('getfield', None)

    def event(eng, st, ref, what):
        if what == 'is_set':
            if any(ref == e for e in eng.w.events):
                world.rely_flag(eng, st, ref)
            if ref == getattr(eng.w, 'event', None):
                st.ghost['check'] = st.f(ref, 'set')
    eng.hooks['event'] = event

    def sleep(eng, st, t):
        for e in eng.w.events:
            world.rely_flag(eng, st, e)
        pause(eng, st, t)
        st.log('sleep', t)
        yield st, None

    def wait(eng, st, ref, t):
        if t is None:
            raise Unsupported('Event.wait without a limit')
        pause(eng, st, t)
        world.rely_flag(eng, st, ref)
        if ref == getattr(eng.w, 'event', None):
            st.ghost['check'] = st.f(ref, 'set')
        yield st, st.f(ref, 'set')
    eng.hooks['sleep'], eng.hooks['wait'] = sleep, wait

    def thread(eng, st, ref, what, args, kw):
        state = st.f(ref, 'state')
        if what == 'start':
            if not eng.oblige(st, 'session: a thread is started once', state == 'new'):
                return
            if eng.thread_fails is not False:
                b = st.copy()
                e = Exc(RuntimeError, ("can't start new thread",), arbitrary=True)
                b.ghost['thread_exc'] = e.tag
                yield b, Raise(e)
                if eng.thread_fails is True:
                    return
            st.setf(ref, 'state', 'started')
            st.ghost['started'] = st.ghost.get('started', ()) + (ref.oid,)
            st.log('thread start')
            yield st, None
            return
        if state == 'new':
            yield st, (False if what == 'is_alive' else Raise(Exc(RuntimeError, ('cannot join thread before it is started',))))
            return
        e0 = st.f(ref, 'ended') if 'ended' in st.get(ref).fields else False
        if what == 'join' and not (args and args[0] is not None or kw.get('timeout') is not None):
            st.setf(ref, 'ended', True)
            st.log('join')
            yield st, None
            return
        e1 = e0
        if e0 is not True:
            b = fresh('ended', BoolS)
            if isinstance(e0, SBool):
                st.assume(z3.Implies(e0.t, b))
            e1 = SBool(b)
            st.setf(ref, 'ended', e1)
        yield st, (None if what == 'join' else mkbool(z3.Not(zbool(e1 if isinstance(e1, bool) else e1.t))))
    eng.hooks['thread'] = thread
    return eng


def pause(eng, st, t):
    g = st.ghost
    if g.get('owes_pause') and eng.in_session:
        want = eng.w.pause
        eng.oblige(st, 'the pause after a read of None has the configured length', zbool(sym_eq(t, want)))
        g['owes_pause'] = False


# ------------------------------------------------------------------ sessions

GHOST = dict(opens=0, closes=0, is_open=False, pending=None, owes_pause=False, check=None, read=False, ends=(),
             open_exc=None, close_exc=None, thread_exc=None)


def session_objects(st, sb):
    """(event, thread, _SourceBuffer, locked buffer, window) of the current session, found by type"""
    f = st.get(sb).fields
    pick = lambda p: [v for v in f.values() if isinstance(v, Ref) and p(st.get(v))]
    evs, ths = pick(lambda o: o.cls is NEvent), pick(lambda o: o.cls is NThread)
    bufs = pick(lambda o: o.cls is _sb._SourceBuffer)
    if len(evs) != 1 or len(ths) != 1 or len(bufs) != 1:
        raise Unsupported('representation of StreamBuffer changed')
    lds = [v for v in st.get(bufs[0]).fields.values() if isinstance(v, Ref) and st.get(v).cls is LD]
    if len(lds) != 1:
        raise Unsupported('representation of _SourceBuffer changed')
    ds = [v for v in st.get(lds[0]).fields.values() if isinstance(v, Ref) and st.get(v).cls is SD]
    if len(ds) != 1:
        raise Unsupported('representation of RWLockSortedDeque changed')
    return evs[0], ths[0], bufs[0], lds[0], ds[0]


def mk_stream(eng, maxlen='any', auto_drop='any', pause='arg', cls=EnvSource, natural=False):
    """a stream buffer made by the real constructor: yields (st, sb)"""
    st = State()
    st.ghost.update(GHOST)
    m = maxlen
    if maxlen == 'any':
        t = fresh_int('maxlen')
        st.assume(t >= 1)
        m = SInt(t)
    ad = auto_drop if auto_drop != 'any' else SBool(fresh('auto_drop', BoolS))
    num = lambda nm: SReal(fresh(nm, RealS))
    arg = num('pause') if pause == 'arg' else SInt(fresh_int('pause')) if pause == 'argint' else None
    srcp = num('src_pause') if pause in ('arg', 'source') else SInt(fresh_int('src_pause')) if pause in ('argint', 'sourceint') else None
    want = arg if arg is not None else srcp if srcp is not None else _sb.DFLT_SLEEP_TIME_ON_READ_NONE_S
    st.ghost['info'] = SOpq(fresh('info_before_open', Opq))
    eng.w = SimpleNamespace(events=(), maxlen=m, auto_drop=ad, pause=want, src_pause=srcp, key=KeyFn('source key'),
                            event=None, window=None, locked=None, flag_stable=False)
    src = st.alloc(cls, {})
    eng.w.source = src
    opts = dict(maxlen=m, sleep_time_on_read_none_s=arg, auto_drop=ad)
    if issubclass(cls, _sr.SourceReader):
        if arg is None:
            del opts['sleep_time_on_read_none_s']
        if ad is True:
            del opts['auto_drop']
        s, sb = only(call(eng, st, src, 'stream_buffer', **opts), 'SourceReader.stream_buffer(...)')
        if s.get(sb).cls is not SB:
            raise Unsupported('stream_buffer() makes a stream buffer of another class')
    else:
        s, sb = only(eng.instantiate(st, SB, [], dict(opts, source_reader=src)), 'StreamBuffer(...)')
    eng.w.sb = sb
    return s, sb


def call(eng, st, obj, name, *args, **kw):
    for s, m in eng.getattr(st, obj, name):
        if is_raise(m):
            yield s, m
        else:
            yield from eng.call(s, m, list(args), kw)


def started(eng, s, sb, contents=True):
    """start a first session through the real start()"""
    saved = eng.open_fails
    eng.open_fails = False
    outs = [(x, r) for x, r in call(eng, s, sb, 'start') if not is_raise(r) and eng.feasible(x)]
    eng.open_fails = saved
    if len(outs) != 1:
        raise Unsupported('start() has several successful outcomes')
    s = outs[0][0]
    adopt(eng, s, sb, contents)
    return s


def adopt(eng, s, sb, contents=True):
    ev, th, buf, ld, d = session_objects(s, sb)
    w = eng.w
    w.event, w.thread, w.source_buffer, w.locked, w.window, w.deque = ev, th, buf, ld, d, d
    w.events = (ev,)
    eng.lock_of = {d.oid: ld.oid}
    s.ghost[f'held{ld.oid}'] = None
    s.ghost[f'sections{ld.oid}'] = 0
    if contents:
        fill(eng, s, d, 'win', strict=True)


# ------------------------------------------------------------------ the reading loop

class RunLoop(LoopSpec):
    """invariant of the reading loop: source open, everything read so far buffered, lock free; other threads may have
    dropped the oldest items and may have set the stop flag"""
    ghost_ok = True

    def __init__(self, eng, st):
        w = eng.w
        self.locs = {(w.event.oid, 'set')}
        for f in ('_items', '_keys'):
            self.locs.add((st.f(w.window, f).oid, 'seq'))
            self.locs.add((w.window.oid, f))

    def handles(self, oid, f):
        return (oid, f) in self.locs

    def enter(self, eng, st, fid):
        self.inv(eng, st)

    def inv(self, eng, st):
        g = st.ghost
        eng.oblige(st, 'each value read is buffered before the source is read again', g['pending'] is None)
        eng.oblige(st, 'a value that could not be buffered is not skipped by reading the source again', not g.get('refused'))
        eng.oblige(st, 'a read of None is followed by a pause before the source is read again', not g['owes_pause'])
        eng.oblige(st, 'source: it stays open while the loop runs', g['is_open'] and g['closes'] == 0)
        eng.oblige(st, 'lock: not held between two rounds of the loop',
                   all(v is None for k, v in g.items() if isinstance(k, str) and k.startswith('held')))

    def havoc(self, eng, st, fid):
        w = eng.w
        fill(eng, st, w.window, 'loop', strict=True)
        world.rely_flag(eng, st, w.event)
        st.ghost['read'] = False
        st.ghost['check'] = None
        st.ghost[f'sections{w.locked.oid}'] = 0
        st.ghost['n0'] = V(eng, st, w.window).zn
        yield st

    def check(self, eng, st, fid, head):
        self.inv(eng, st)
        w = eng.w
        if not st.ghost['read']:
            full = z3.BoolVal(False)
            if w.maxlen is not None and w.auto_drop is not True:
                full = st.ghost['n0'] >= zint(as_int(w.maxlen))
                if isinstance(w.auto_drop, SBool):
                    full = z3.And(z3.Not(w.auto_drop.t), full)
            eng.oblige(st, 'a round reads the source unless automatic dropping is off and the buffer is full', full)


def drops(eng, st, lock):
    """other threads may have dropped oldest items before the lock was obtained"""
    d = eng.w.window
    v = V(eng, st, d)
    if isinstance(v.n, int) and v.n == 0:
        return
    k = fresh_int('dropped')
    st.assume(z3.And(0 <= k, k <= v.zn))
    for f, q in (('_items', v.items), ('_keys', v.keys)):
        st.setf(st.f(d, f), 'seq', sub(q, k, v.n))


RUNS = [dict(maxlen='any', auto_drop=True, pause='arg'), dict(maxlen='any', auto_drop=False, pause='source'),
        dict(maxlen=None, auto_drop=False, pause='default'), dict(maxlen=None, auto_drop=True, pause='sourceint'),
        dict(maxlen='any', auto_drop='any', pause='argint'),
        dict(maxlen='any', auto_drop='any', pause='arg', cls=EnvSourceReaderPause),
        dict(maxlen='any', auto_drop=True, pause='source', cls=EnvSourceReaderPause),
        dict(maxlen=None, auto_drop=False, pause='default', cls=EnvSourceReader)]

FOCUS = {
    'C12': ('each value read', 'a value that could not', 'a read of None', 'the pause after', 'only a value just read', 'the value added',
            'values read enter', 'nothing but the values'),
    'C13': ('run:', 'the source is closed once', 'source:', 'the source is read only after the stop flag'),
    'C14': ('with automatic dropping', 'a round reads the source', 'reading drops nothing', 'limit:', 'drop:'),
    'C06': ('lock:', 'items are'),
    'C15': ('session:', 'a lock is not', 'only a held lock'),
}


def focus(pid):
    return lambda n: n.startswith(FOCUS[pid])


def c_run(pid, anyexc=False):
    def scenarios():
        for o in RUNS:
            def setup(eng, o=o):
                s, sb = mk_stream(eng, **o)
                s = started(eng, s, sb, contents=False)
                world_rely(eng)
                eng.in_session = True
                eng.loop_spec = lambda e, n, st_, fid: RunLoop(e, st_) if world_while(n) else None
                # the thread runs at any later time: the user may already have asked to stop
                yield s, [sb], {}
            yield 'session: ' + ', '.join(f'{k}={getattr(v, "__name__", v)}' for k, v in o.items()), setup

    def run(eng, st, args, kw):
        th = eng.w.thread
        tgt, a, k = st.f(th, 'target'), st.f(th, 'args') or (), st.f(th, 'kwargs') or {}
        if tgt is None or isinstance(k, Ref):
            raise Unsupported('thread target')
        yield from eng.call(st, tgt, list(a), dict(k))

    def post(eng, pre, s, args, out, rep):
        g = s.ghost
        w = eng.w
        flag = s.f(w.event, 'set')
        eng.oblige(s, 'each value read is buffered before reading ends, unless buffering fails', g['pending'] is None)
        eng.oblige(s, 'run: the stream is marked stopped when reading has ended', flag if isinstance(flag, bool) else flag.t)
        eng.oblige(s, 'run: the source is closed when reading has ended', g['closes'] == 1 and not g['is_open'])
        if is_raise(out):
            # what is no Exception (an interrupt, an exit request) may escape
            eng.oblige(s, 'run: an error while closing does not escape',
                       out.exc.tag != g['close_exc'] or Exception in out.exc.excl)
        if is_raise(out) and out.exc.tag != g['close_exc']:
            eng.oblige(s, 'limit: reading ends only on request or because reading or buffering failed', out.exc.tag in g['ends'])
        else:
            # it ended without an error escaping: then it was asked to stop or some read or append failed
            c = g['check']
            asked = c.t if isinstance(c, SBool) else z3.BoolVal(c is True)
            eng.oblige(s, 'limit: reading ends only on request or because reading or buffering failed (normal end)',
                       z3.Or(asked, z3.BoolVal(bool(g['ends']))))
        eng.oblige(s, 'limit: the buffer of the session has the limit given, if any', zbool(sym_eq(V(eng, s, w.window).maxlen, w.maxlen)))
        eng.oblige(s, 'lock: the reading thread leaves it released',
                   all(v is None for k, v in g.items() if isinstance(k, str) and k.startswith('held')))
        eng.oblige(s, 'run: the buffered items stay readable in the same buffer',
                   session_objects(s, args[0])[2:] == (w.source_buffer, w.locked, w.window))
    c = Contract('StreamBuffer reading loop', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(focus(pid), anyexc)
    return c


def world_rely(eng):
    """in the reading thread other threads only drop items (manual dropping) and set the stop flag"""
    eng.rely_contents = drops


def world_while(n):
    import ast
    return isinstance(n, ast.While)


# ------------------------------------------------------------------ drop

def drop_arg(eng, s, given=True):
    """a number of items that are there"""
    v = V(eng, s, eng.w.window)
    if not given:
        s.assume(v.zn >= 1)
        return None
    n = fresh_int('n')
    s.assume(z3.And(0 <= n, n <= v.zn))
    return SInt(n)


def c_drop():
    def scenarios():
        made = (dict(cls=EnvSource), dict(cls=EnvSourceReader, pause='default'), dict(cls=EnvSourceReader, pause='default', maxlen=None))
        for ad, n, how in itertools.product((True, False), (True, False), made):
            def setup(eng, ad=ad, n=n, how=how):
                s, sb = mk_stream(eng, auto_drop=ad, **how)
                s = started(eng, s, sb)
                eng.w.flag_stable = True
                yield s, [sb, drop_arg(eng, s, n)], {}
            yield f'drop{"(n)" if n else "()"}, auto_drop={ad}, {how["cls"].__name__}{", no limit" if "maxlen" in how else ""}', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'drop', *([] if args[1] is None else [args[1]]))

    def spec(eng, st, a):
        w = eng.w
        if w.auto_drop is True:
            yield st, Raise(Exc(RuntimeError, ('spec',)))
            return
        yield from container.s_drop(eng, st, [w.window, 1 if a[1] is None else a[1]])
    c = Contract('drop: StreamBuffer.drop', None, spec, scenarios, run=run)
    c.mk_engine = lambda: mk_engine(focus('C14'))
    return c


# ------------------------------------------------------------------ start, stop, restart

PREV = ('never started', 'running', 'stopping', 'ended', 'failed to open', 'got no thread')


def previous(eng, kind, used=False, **kw):
    """a stream buffer in any state a user can have brought it into: yields (st, sb)"""
    s, sb = mk_stream(eng, **kw)
    w = eng.w
    w.old = None
    if kind == 'never started':
        return s, sb
    if kind in ('failed to open', 'got no thread'):
        eng.open_fails, eng.thread_fails = kind == 'failed to open', kind == 'got no thread'
        outs = [(x, r) for x, r in call(eng, s, sb, 'start') if is_raise(r)]
        eng.open_fails = eng.thread_fails = False
        if len(outs) != 1:
            raise Unsupported('a failing start has several outcomes')
        s = outs[0][0]
        return s, sb
    s = started(eng, s, sb)
    ev, th = w.event, w.thread
    # a reader of this session, and the implicit one of next()
    s, r = only(call(eng, s, sb, 'mk_reader'), 'mk_reader')
    eng.w.reader = r
    if used:
        # next(stream buffer) has been used in this session
        v = V(eng, s, w.window)
        s.assume(v.zn >= 1)
        w.flag_stable = True
        outs = [(x, r) for x, r in call(eng, s, sb, '__next__') if eng.feasible(x)]
        w.flag_stable = False
        if len(outs) != 1:
            raise Unsupported('next() has several outcomes')
        s = outs[0][0]
    if kind == 'running':
        s.setf(ev, 'set', SBool(fresh('stop', BoolS)))       # it may stop at any moment
        s.setf(th, 'ended', SBool(fresh('ended', BoolS)))
    elif kind == 'stopping':
        s.setf(ev, 'set', True)
        s.setf(th, 'ended', SBool(fresh('ended', BoolS)))
    else:
        s.setf(ev, 'set', True)
        s.setf(th, 'ended', True)
    w.old = SimpleNamespace(event=ev, thread=th, locked=w.locked, window=w.window, reader=r, buf=w.source_buffer,
                            info=s.ghost['info'])
    return s, sb


def others(eng, st, sb):
    """what another thread finds while start opens the source (or it waits until start is done)"""
    eng.observing = True
    try:
        for s, r in eng.getattr(st.copy(), sb, 'is_running'):
            eng.oblige(s, 'session: it is not running while the source is being opened', zbool(sym_eq(r, False)))
        if eng.w.old is not None:
            for s, r in call(eng, st.copy(), sb, 'mk_reader'):
                eng.oblige(s, 'session: a reader can be made while the stream is restarted', not is_raise(r))
    finally:
        eng.observing = False


def c_start():
    """start() from every state"""
    def scenarios():
        for kind, o in itertools.product(PREV, (dict(cls=EnvSource), dict(cls=EnvSourceWithClass, maxlen=None, used=True),
                                                 dict(cls=EnvSourceReader, pause='default', maxlen=None))):
            def setup(eng, kind=kind, o=o):
                s, sb = previous(eng, kind, **o)
                eng.open_fails = eng.thread_fails = 'both'
                eng.new_key = True          # the key of a source may be known only once it is open
                s.ghost['opens'] = 0
                s.ghost['open_exc'] = s.ghost['thread_exc'] = None
                s.ghost['started'] = ()
                w = eng.w

                def on_open(eng, st):
                    eng.oblige(st, 'session: each start opens the source once', st.ghost['opens'] == 0)
                    if w.old is not None:
                        f = st.f(w.old.event, 'set')
                        eng.oblige(st, 'session: the previous session is stopped before the source is opened',
                                   f if isinstance(f, bool) else f.t)
                        e = st.f(w.old.thread, 'ended')
                        eng.oblige(st, 'session: the source is opened only after the previous session\'s reading has ended',
                                   e if isinstance(e, bool) else e.t)
                    others(eng, st, sb)
                eng.on_open = on_open
                yield s, [sb], {}
            yield f'start, {kind}, {o["cls"].__name__}', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'start')

    def post(eng, pre, s, args, out, rep):
        sb, w = args[0], eng.w
        ob = lambda nm, g: eng.oblige(s, f'session: {nm}', g)
        w.flag_stable = True
        try:
            old_unchanged(eng, pre, s, w)
            run_ = [r for x, r in eng.getattr(s.copy(), sb, 'is_running')]
            if is_raise(out):
                ob('start raises only what opening the source or starting the thread raised',
                   out.exc.tag in (s.ghost['open_exc'], s.ghost['thread_exc']))
                ob('it is not running after a failed start', run_ == [False])
                ob('a failed start starts no reading', not s.ghost['started'])
                if w.old is not None and s.ghost['open_exc'] is not None:
                    for s2, r in call(eng, s.copy(), sb, 'mk_reader'):
                        eng.oblige(s2, 'session: no reader of an earlier session is made after a start that failed',
                                   is_raise(r) or w.old.locked not in [v for v in s2.get(r).fields.values() if isinstance(v, Ref)])
                return
            ob('start succeeds only if the source was opened and its reading started',
               s.ghost['open_exc'] is None and s.ghost['thread_exc'] is None and s.ghost['opens'] == 1)
            ob('it is running after start', run_ == [True])
            ev, th, buf, ld, d = session_objects(s, sb)
            ob('one reading thread is started', s.ghost['started'] == (th.oid,))
            if w.old is not None:
                ob('the new session has its own stop flag', ev != w.old.event)
                ob('the new session has its own buffer', ld != w.old.locked and d != w.old.window)
                ob('the new session has its own thread', th != w.old.thread)
            v = V(eng, s, d)
            ob('the buffer of a new session is empty', simp(v.zn == 0))
            ob('the buffer has the key of the source as opened', v.key is s.ghost['key'])
            ob('the buffer has the limit given', zbool(sym_eq(v.maxlen, w.maxlen)))
            infos = [r for x, r in eng.getattr(s.copy(), sb, 'source_reader_info')]
            ob('the stream shows the info of the source as opened', len(infos) == 1 and infos[0] is s.ghost['info'])
            for s2, r in call(eng, s.copy(), sb, 'mk_reader'):
                check_reader(eng, s2, r, 'a reader made after start', ev, ld, s.ghost['info'],
                             MyReader if s.get(w.source).cls is EnvSourceWithClass else BR)
            implicit(eng, s.copy(), sb, ev, ld, d)
        finally:
            w.flag_stable = False
    c = Contract('session: StreamBuffer.start', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(lambda n: n.startswith(('session:', 'a lock is not', 'only a held')))
    return c


def check_reader(eng, s, r, what, ev, ld, info, cls):
    ob = lambda nm, g: eng.oblige(s, f'session: {what} {nm}', g)
    if is_raise(r) or not isinstance(r, Ref):
        ob('is made', False)
        return
    ob('has the reader class of the source', s.get(r).cls is cls)
    refs = [v for v in s.get(r).fields.values() if isinstance(v, Ref)]
    ob('reads the buffer of the session', ld in refs and not any(s.get(x).cls is LD and x != ld for x in refs))
    ob('sees the stop flag of the session', ev in refs and not any(s.get(x).cls is NEvent and x != ev for x in refs))
    for s2, i in eng.getattr(s.copy(), r, 'source_reader_info'):
        eng.oblige(s2, f'session: {what} shows the info of the source', zbool(sym_eq(i, info)) if not is_raise(i) else False)
    for s2, i in eng.getattr(s.copy(), r, 'last_item'):
        eng.oblige(s2, f'session: {what} has seen nothing', i is None)


def implicit(eng, s, sb, ev, ld, d):
    """next(stream buffer) after start reads the new session from its first item"""
    eng.w.event, eng.w.events, eng.w.locked, eng.w.window = ev, (ev,), ld, d
    eng.lock_of = {d.oid: ld.oid}
    s.ghost[f'held{ld.oid}'] = None
    fill(eng, s, d, 'new', strict=True)
    v0 = V(eng, s, d)
    s.assume(v0.zn >= 1)
    for s2, r in call(eng, s, sb, '__next__'):
        eng.oblige(s2, 'session: next() of a restarted stream delivers the first item of the new session',
                   False if is_raise(r) else zbool(sym_eq(r, v0.items.at(0))))


def old_unchanged(eng, pre, s, w):
    """earlier readers keep the items of their session and see it as stopped"""
    if w.old is None:
        return
    o = w.old
    c = Cmp(eng, s, pre.heap, s, pre, 'session')
    keep = [o.reader, o.buf, o.locked, o.window, pre.f(o.window, '_items'), pre.f(o.window, '_keys')]
    for r in keep:
        if s.heap[r.oid] is not pre.heap[r.oid]:
            c.obj('the objects of an earlier session are not changed', r, r)
    f = s.f(o.event, 'set')
    eng.oblige(s, 'session: earlier readers see their session as stopped', f if isinstance(f, bool) else f.t)


def c_stop():
    def scenarios():
        for kind, how in itertools.product(('running', 'stopping', 'ended'), ('stop', '__exit__', '__exit__ with an exception')):
            def setup(eng, kind=kind, how=how):
                s, sb = previous(eng, kind)
                yield s, [sb, how], {}
            yield f'{how}, {kind}', setup

    def run(eng, st, args, kw):
        e = Exc(BaseException, ('body',), arbitrary=True)
        a = {'stop': [], '__exit__': [None] * 3}.get(args[1], [ExcType(e), e, SOpq(fresh('traceback', Opq))])
        yield from call(eng, st, args[0], args[1].split()[0], *a)

    def post(eng, pre, s, args, out, rep):
        w = eng.w
        eng.oblige(s, 'session: stopping succeeds', not is_raise(out))
        if args[1] != 'stop' and not is_raise(out):
            for s2, t in eng.truth(s.copy(), out):
                eng.oblige(s2, 'session: leaving the context swallows no exception', t is False)
        f = s.f(w.old.event, 'set')
        eng.oblige(s, 'session: stopping marks the session stopped', f if isinstance(f, bool) else f.t)
        for s2, r in eng.getattr(s.copy(), args[0], 'is_running'):
            eng.oblige(s2, 'session: it is not running after stop', r is False)
        old_unchanged(eng, pre, s, w)
        eng.oblige(s, 'session: stopping opens nothing', s.ghost['opens'] == pre.ghost['opens'])
    c = Contract('session: StreamBuffer.stop', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(lambda n: n.startswith(('session:', 'a lock is not', 'only a held')))
    return c


def c_enter():
    def scenarios():
        def setup(eng):
            s, sb = previous(eng, 'never started')
            eng.open_fails = 'both'
            yield s, [sb], {}
        yield 'enter', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], '__enter__')

    def post(eng, pre, s, args, out, rep):
        if is_raise(out):
            eng.oblige(s, 'session: entering raises only what opening raised', out.exc.tag == s.ghost['open_exc'])
            return
        eng.oblige(s, 'session: entering gives the stream buffer', isinstance(out, Ref) and out == args[0])
        eng.oblige(s, 'session: entering starts it', s.ghost['opens'] == 1)
        eng.w.flag_stable = True
        for s2, r in eng.getattr(s.copy(), args[0], 'is_running'):
            eng.oblige(s2, 'session: it is running after entering', r is True)
    c = Contract('session: StreamBuffer.__enter__', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(lambda n: n.startswith(('session:', 'a lock is not', 'only a held')))
    return c


def c_state():
    """is_running follows the session; making and attaching readers needs a start"""
    def scenarios():
        for kind in PREV:
            def setup(eng, kind=kind):
                s, sb = previous(eng, kind)
                yield s, [sb, kind], {}
            yield kind, setup

    def run(eng, st, args, kw):
        yield from eng.getattr(st, args[0], 'is_running')

    def post(eng, pre, s, args, out, rep):
        sb, kind = args[:2]
        w = eng.w
        if kind == 'running':
            f = s.f(w.old.event, 'set')
            want = z3.Not(f.t) if isinstance(f, SBool) else not f
            got = out if isinstance(out, bool) else (out.t if isinstance(out, SBool) else None)
            eng.oblige(s, 'session: it is running exactly while it is not stopped',
                       False if got is None else zbool(got) == zbool(want))
        else:
            eng.oblige(s, f'session: it is not running when {kind}', out is False)
        if kind == 'never started':
            for what, a in (('mk_reader', []), ('attach_reader', [s.alloc(BR, {})])):
                for s2, r in call(eng, s.copy(), sb, what, *a):
                    eng.oblige(s2, f'session: {what} before any start raises StreamNotStartedError',
                               is_raise(r) and issubclass(r.exc.cls, StreamNotStartedError))
            infos = [r for _, r in eng.getattr(s.copy(), sb, 'source_reader_info')]
            eng.oblige(s, 'session: no info before any start', infos == [None])
        elif w.old is not None:
            infos = [r for _, r in eng.getattr(s.copy(), sb, 'source_reader_info')]
            eng.oblige(s, 'session: the stream shows the info of the source', len(infos) == 1 and infos[0] is w.old.info)
    c = Contract('session: state queries', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(lambda n: n.startswith(('session:', 'a lock is not', 'only a held')))
    return c


# ------------------------------------------------------------------ nothing else adds; locking; attaching

def stream_ops(eng, n):
    return {'start': [('start', [])], 'stop': [('stop', [])], 'enter': [('__enter__', [])], 'exit': [('__exit__', [None] * 3)],
            'readers': [('mk_reader', []), ('attach_reader', [eng.w.reader])],
            'next': [('__next__', []), ('__call__', [])], 'drop': [('drop', []), ('drop', [n])],
            'queries': [('is_running', None), ('source_reader_info', None)]}


def c_ops(pid, anyexc):
    """public operations add nothing to the buffer (C12) and respect its lock (C06)"""
    def scenarios():
        for op in ('start', 'stop', 'enter', 'exit', 'readers', 'next', 'drop', 'queries'):
            def setup(eng, op=op):
                s, sb = previous(eng, 'running', auto_drop=False)
                eng.open_fails = 'both'
                n = drop_arg(eng, s)
                for c in stream_ops(eng, n)[op]:
                    t = s.copy()
                    if c == ('drop', []):
                        drop_arg(eng, t, False)
                    yield t, [sb, c], {}
            yield f'{op}', setup

    def run(eng, st, args, kw):
        nm, a = args[1]
        if a is None:
            yield from eng.getattr(st, args[0], nm)
        else:
            yield from call(eng, st, args[0], nm, *a)

    def post(eng, pre, s, args, out, rep):
        if pid == 'C06':
            for k, v in s.ghost.items():
                if isinstance(k, str) and k.startswith('held'):
                    eng.oblige(s, f'lock: StreamBuffer.{args[1][0]} leaves it released', v is None)
            rep.covered.add(args[1][0])
        else:
            w = eng.w
            n0, n1 = V(eng, pre, w.old.window), V(eng, s, w.old.window)
            if args[1][0] != 'drop':
                eng.oblige(s, 'nothing but the values read from the source is added to the buffer and nothing removed: '
                              f'{args[1][0]}', n0.items is n1.items or simp(n0.zn == n1.zn))
    c = Contract('StreamBuffer operations', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(focus(pid), anyexc)
    return c


def c_attach():
    """a reader attached to a running buffer reads that buffer, sees its stop state and its source info"""
    def scenarios():
        for via in ('StreamBuffer', '_SourceBuffer'):
            def setup(eng, via=via):
                s, sb = previous(eng, 'ended')
                w = eng.w
                reader = w.old.reader
                eng.lock_of = {}
                # a second, running stream buffer of another source
                old_window, old_reader = w.old.window, w.old.reader
                s2 = started(eng, s, sb, contents=True)
                w.new_info = s2.ghost['info']
                s2, other = only(call(eng, s2, sb, 'mk_reader'), 'mk_reader')
                w.other = other
                eng.lock_of = {w.window.oid: w.locked.oid}
                yield s2, [sb if via == 'StreamBuffer' else w.source_buffer, reader], {}
            yield f'attach through {via}', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'attach_reader', args[1])

    def post(eng, pre, s, args, out, rep):
        w, r = eng.w, args[1]
        w.flag_stable = True
        ob = lambda st, nm, g: eng.oblige(st, f'attached reader: {nm}', g)
        ob(s, 'attaching succeeds', not is_raise(out))
        for s2, v in eng.getattr(s.copy(), r, 'source_reader_info'):
            ob(s2, 'shows the info of the source it is attached to', not is_raise(v) and zbool(sym_eq(v, w.new_info)))
        f = s.f(w.event, 'set')
        for s2, v in eng.getattr(s.copy(), r, 'is_stopped'):
            ob(s2, 'sees the stop state of the buffer it is attached to', not is_raise(v) and zbool(sym_eq(v, f)))
        v0 = V(eng, s, w.window)
        t = s.copy()
        t.assume(v0.zn >= 1)
        for nm, ix in (('head', 0), ('tail', simp(v0.zn - 1))):
            for s2, v in call(eng, t.copy(), r, nm, peek=True):
                ob(s2, f'{nm} reads the buffer it is attached to', not is_raise(v) and zbool(sym_eq(v, v0.items.at(ix))))
        opts = {}
        for when, st in (('before', pre), ('after', s)):
            opts[when] = [v for nm in ('read_size', 'peek', 'strict_n', 'ignore_no_item_found')
                          for _, v in eng.getattr(st.copy(), r, nm)]
        ob(s, 'has its own options as before', len(opts['before']) == len(opts['after']) and
           all(zbool(sym_eq(a, b)) is not False and not is_raise(a) for a, b in zip(*opts.values())))
        # and reads with them: the next items of the buffer it is attached to
        c = Cmp(eng, s, pre.heap, s, pre, 'attached reader')
        for oid, o in pre.heap.items():
            if oid not in (r.oid,) and s.heap[oid] is not o and o.cls not in LOCKS:
                c.obj('other objects are not changed', Ref(oid), Ref(oid))
    c = Contract('attach_reader', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(lambda n: n.startswith('attached reader'))
    return c


def c_made():
    """readers made by a running stream buffer: each one an object of its own that has seen nothing; nothing else changes"""
    from . import readers

    def scenarios():
        for via, opts in itertools.product(('StreamBuffer', '_SourceBuffer'), ('fixed', 'any')):
            def setup(eng, via=via, opts=opts):
                s, sb = previous(eng, 'running', cls=EnvSourceWithClass)
                w = eng.w
                x = SItem(fresh('last_old', Item))
                s.setf(w.old.reader, '_last_item', x)
                s.setf(w.old.reader, '_last_key', key_value(eng, s, w.window, x))
                yield s, [sb if via == 'StreamBuffer' else w.source_buffer, readers.options(s, opts)], {}
            yield f'mk_reader through {via}, options {opts}', setup

    def run(eng, st, args, kw):
        for s, r in call(eng, st, args[0], 'mk_reader', **args[1]):
            if is_raise(r):
                yield s, r
                continue
            for s2, q in call(eng, s, args[0], 'mk_reader', **args[1]):
                yield s2, (q if is_raise(q) else Pair(r, q))

    def post(eng, pre, s, args, out, rep):
        w = eng.w
        w.flag_stable = True
        try:
            ob = lambda st, nm, g: eng.oblige(st, f'made reader: {nm}', g)
            if is_raise(out):
                ob(s, 'is made', False)
                return
            r, q = out.a, out.b
            if not (isinstance(r, Ref) and isinstance(q, Ref)):
                raise Unsupported('mk_reader gives no reader')
            ob(s, 'is an object of its own', r != q and r.oid not in pre.heap and q.oid not in pre.heap)
            f = s.f(w.event, 'set')
            for x in (r, q):
                ob(s, 'has the reader class of the source', s.get(x).cls is MyReader)
                for nm, want in (('last_item', None), ('last_key', None), ('source_reader_info', w.old.info), ('is_stopped', f)):
                    for s2, v in eng.getattr(s.copy(), x, nm):
                        ob(s2, nm, False if is_raise(v) else zbool(sym_eq(v, want)))
                fs = s.get(x).fields.values()
                ob(s, 'reads the buffer of the session', w.locked in [v for v in fs if isinstance(v, Ref)])
                ob(s, 'shares no state with other readers',
                   not [1 for v in fs if isinstance(v, Ref) and v not in (w.locked, w.event) and (
                       v.oid in pre.heap or v in [y for y in s.get(r if x == q else q).fields.values() if isinstance(y, Ref)])])
            c = Cmp(eng, s, pre.heap, s, pre, 'made reader')
            for oid, o in pre.heap.items():
                if oid != w.event.oid and s.heap[oid] is not o and o.cls not in LOCKS:
                    c.obj('existing objects are not changed', Ref(oid), Ref(oid))
        finally:
            w.flag_stable = False
    c = Contract('mk_reader', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(lambda n: n.startswith('made reader'))
    return c


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b


def c_made_read():
    """a reader made by a running stream buffer reads with the options it was made with"""
    from . import readers

    def scenarios():
        for via, mode in itertools.product(('StreamBuffer', '_SourceBuffer', 'attach_reader'), ('fixed', 'any')):
            def setup(eng, via=via, mode=mode):
                s, sb = previous(eng, 'ended' if via == 'attach_reader' else 'running')
                w = eng.w
                o = readers.options(s, mode)
                w.opts = dict(n=o.get('read_size', 1), peek=o.get('peek', False), strict_n=o.get('strict_n', False),
                              ignore_no_item_found=o.get('ignore_no_item_found', False))
                s, r = only(call(eng, s, w.source_buffer if via == '_SourceBuffer' else sb, 'mk_reader', **o), 'mk_reader')
                if via == 'attach_reader':
                    # made by an earlier session, attached to the buffer of a running one
                    eng.lock_of = {}
                    s = started(eng, s, sb, contents=True)
                    s, _ = only(call(eng, s, sb, 'attach_reader', r), 'attach_reader')
                w.reader = r
                given, omitted = readers.given_options('default')
                yield s, [r, given, omitted], {}
            yield f'read of a reader made through {via}, options {mode}', setup
    return readers.ReaderContract('read of a reader made by a stream buffer', scenarios, readers.read_run,
                                  readers.read_spec(('got', 'none', 'strict')),
                                  engine=lambda: mk_engine(lambda n: not n.startswith(('lock:', 'items are', 'session', 'a lock'))))


def attaching():
    return [c_attach(), c_made(), c_made_read()]


def locking():
    return [c_run('C06', anyexc=True), c_ops('C06', True)]


def for_c12():
    return [c_run('C12'), c_ops('C12', False), container.contract(SD, 'append', respects=False)]


def for_c13():
    return [c_run('C13'), c_run_failing()]


def c_run_failing():
    """the same loop when buffering fails in any way"""
    c = c_run('C13', anyexc=True)
    c.name = 'StreamBuffer reading loop, buffering may raise anything'
    return c


def for_c14():
    return [c_run('C14'), c_drop(), container.contract(SD, 'drop', respects=False), container.contract(SD, 'append', respects=False),
            container.contract(SD, '__len__', respects=False)]


def for_c15():
    return [c_start(), c_stop(), c_enter(), c_state()]
