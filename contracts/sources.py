"""Contracts of the source base classes: reference counting of StreamSource (C16), open state, context and iteration of
the bases (C18)."""
import itertools
from types import SimpleNamespace
import z3
from pyve.interp import State, is_raise, SReal
from pyve.solver import fresh, fresh_int, Item, RealS, BoolS, Opq
from pyve.values import *
from pyve.natives import NList, NEvent, NDict, NLock, NRLock, NThread
from pyve.contract import Contract, Cmp
from pyve.loops import LoopSpec
from . import container, world, stream
from .container import V
from .stream import SB, BR, call, session_objects, adopt, src_open, src_read, src_close, src_key, src_info, GHOST
from .world import only

import stream2py.stream_source as _ss
import stream2py.source_reader as _sr

SS, SR, QR = _ss.StreamSource, _sr.SourceReader, _sr.QuickSourceReader

LOCKS = NLock, NRLock


# ------------------------------------------------------------------ C16

def rd_open(eng, st, args, kw):
    st.ghost['reader_opens'] = st.ghost.get('reader_opens', 0) + 1
    if eng.reader_open_fails:
        b = st.copy()
        e = Exc(BaseException, ('reader open',), arbitrary=True)
        b.ghost['reader_exc'] = e.tag
        if eng.reader_open_fails == 'closing':          # it closes what it has of itself before it fails
            for b2, r in call(eng, b, args[0], 'close'):
                eng.oblige(b2, 'counted: closing a reader that fails to open succeeds', not is_raise(r))
                yield b2, Raise(e)
        else:
            yield b, Raise(e)
    yield st, args[0]


def rd_onclose(eng, st, args, kw):
    yield st, None


class EnvReader(BR):
    """a reader class configured by the user; its open may fail, and it has an onclose of its own"""
    onclose = NativeFn(rd_onclose, 'onclose', method=True)
    open = NativeFn(rd_open, 'open', method=True)


class CountedSource(SS):
    open = NativeFn(src_open, 'open', method=True)
    read = NativeFn(src_read, 'read', method=True)
    close = NativeFn(src_close, 'close', method=True)
    key = PropVal(NativeFn(src_key, 'key', method=True))
    info = PropVal(NativeFn(src_info, 'info', method=True))


CONFIGS = ('none', 'given', 'no limit')


def mk_source(eng, config, cls='given'):
    """a new source, configured in some way: yields (st, src)"""
    st = State()
    st.ghost.update(GHOST)
    st.ghost['info'] = SOpq(fresh('info_before_open', Opq))
    eng.reader_open_fails = False
    kw = dict(reader_cls=EnvReader) if cls == 'given' else {}
    s, src = only(eng.instantiate(st, CountedSource, [], kw), 'StreamSource(...)')
    w = eng.w = SimpleNamespace(events=(), maxlen=100, auto_drop=True, pause=None, src_pause=None, key=KeyFn('source key'),
                                event=None, window=None, locked=None, flag_stable=True, source=src,
                                cls=EnvReader if cls == 'given' else BR, settings={})
    if config != 'none':
        w.settings = settings(s, config)
        s, r = only(call(eng, s, src, 'configure_buffer', **w.settings), 'configure_buffer')
        w.maxlen, w.auto_drop = w.settings['maxlen'], w.settings.get('auto_drop', True)
    return s, src


def settings(s, config):
    if config == 'no limit':
        return dict(maxlen=None)
    t = fresh_int('maxlen')
    s.assume(t >= 1)
    return dict(maxlen=SInt(t), sleep_time_on_read_none_s=SReal(fresh('pause', RealS)), auto_drop=SBool(fresh('auto_drop', BoolS)))


def ints(st, src):
    return {k: v for k, v in st.get(src).fields.items() if isinstance(v, int) and not isinstance(v, bool)}


def stream_of(st, src):
    sbs = [v for v in st.get(src).fields.values() if isinstance(v, Ref) and st.get(v).cls is SB]
    if len(sbs) != 1:
        raise Unsupported('representation of StreamSource changed')
    return sbs[0]


def succeed(eng, it, what):
    out = [(x, r) for x, r in it if not is_raise(r) and eng.feasible(x)]
    if len(out) != 1:
        raise Unsupported(f'{what}: {len(out)} outcomes')
    return out[0]


def count_field(eng):
    """the attribute that counts the open readers, found by what opening and closing do to it"""
    s, src = mk_source(eng, 'none')
    eng.open_fails = False
    s, a = succeed(eng, call(eng, s, src, 'open_reader'), 'open_reader')
    one = ints(s, src)
    s, b = succeed(eng, call(eng, s, src, 'open_reader'), 'open_reader')
    two = ints(s, src)
    s, _ = only(call(eng, s, a, 'close'), 'close')
    s, _ = only(call(eng, s, b, 'close'), 'close')
    zero = ints(s, src)
    fs = [k for k in two if two[k] == 2 and one.get(k) == 1 and zero.get(k, 0) == 0]
    if len(fs) != 1:
        raise Unsupported('no attribute of the source counts its open readers')
    return fs[0]


KINDS = ('new', 'one', 'many', 'closed', 'failed')


def situation(eng, kind, config='none', cls='given'):
    """a source after any history of opening and closing readers: (st, src, reader or None)"""
    eng.on_open = None
    fld = count_field(eng) if kind == 'many' else None
    s, src = mk_source(eng, config, cls)
    w = eng.w
    w.old, w.count = None, fld
    eng.open_fails = False
    if kind == 'new':
        return s, src, None
    if kind == 'failed':
        eng.open_fails = True
        outs = [(x, r) for x, r in call(eng, s, src, 'open_reader') if is_raise(r)]
        eng.open_fails = False
        if len(outs) != 1:
            raise Unsupported('a failing open has several outcomes')
        return outs[0][0], src, None
    s, r = succeed(eng, call(eng, s, src, 'open_reader'), 'open_reader')
    adopt(eng, s, stream_of(s, src))
    w.old = SimpleNamespace(event=w.event, thread=w.thread, locked=w.locked, window=w.window, buf=w.source_buffer, reader=r,
                            info=s.ghost['info'])
    if kind == 'many':
        n = fresh_int('open_readers')
        s.assume(n >= 2)
        s.setf(src, fld, SInt(n))
    if kind == 'closed':
        s, _ = only(call(eng, s, r, 'close'), 'close')
        s.setf(w.thread, 'ended', SBool(fresh('ended', BoolS)))
    else:
        # the stream may also have ended by itself
        s.setf(w.event, 'set', SBool(fresh('stopped', BoolS)))
        s.setf(w.thread, 'ended', SBool(fresh('ended', BoolS)))
    s.ghost['opens'] = 0
    s.ghost['open_exc'] = None
    s.ghost['started'] = ()
    return s, src, r


OPTS = dict(read_size=lambda: SInt(fresh_int('read_size')), strict_n=lambda: SBool(fresh('strict', BoolS)),
            ignore_no_item_found=lambda: SBool(fresh('ignore', BoolS)))
DEFAULTS = dict(read_size=1, strict_n=False, ignore_no_item_found=False)


class AtFirstStart:
    """sees every start of a stream buffer: the stream has the settings configured"""

    def __init__(self, name):
        self.name = name

    def apply(self, eng, st, args, kw):
        if getattr(eng, 'at_start', None) is not None:
            eng.at_start(eng, st, args[0])
        return None


class AtStop:
    """sees every stop of a stream buffer: a reader opened from here on (by another thread, say) is served"""
    name = 'StreamBuffer.stop'

    def apply(self, eng, st, args, kw):
        if getattr(eng, 'at_stop', None) is not None:
            f, eng.at_stop = eng.at_stop, None
            f(eng, st, args[0])
        return None


def mk_engine(prefix):
    eng = stream.mk_engine(lambda n: n.startswith(prefix))
    eng.contracts[id(SB.start)] = AtFirstStart('StreamBuffer.start')
    eng.contracts[id(SB.stop)] = AtStop()
    eng.at_start = eng.at_stop = None
    eng.reader_open_fails = False
    return eng


def c_open_reader():
    def scenarios():
        for kind, given, config in itertools.product(KINDS, (True, False), CONFIGS):
            if config != 'none' and (kind in ('many', 'failed') or not given):
                continue
            for fails in (False, True, 'closing'):
                if fails and not given or fails == 'closing' and config != 'none':
                    continue
                for cls in ('given', 'default'):
                    if cls == 'default' and (fails or given):
                        continue

                    def setup(eng, kind=kind, given=given, config=config, fails=fails, cls=cls):
                        s, src, r = situation(eng, kind, config, cls)
                        w = eng.w
                        eng.open_fails = 'both'
                        eng.reader_open_fails = fails
                        o = {k: f() for k, f in OPTS.items()} if given else {}
                        if config != 'none' and kind == 'new':
                            eng.at_start = same_settings
                        yield s, [src, o, kind], {}
                    yield f'open_reader, {kind}, settings {config}, options {"given" if given else "omitted"}' + \
                        (', reader may fail' if fails else '') + (' after closing itself' if fails == 'closing' else ''), setup

    def same_settings(eng, st, sb):
        w = eng.w
        eng.at_start = None
        t = st.copy()
        t, ref = only(eng.instantiate(t, SB, [w.source], dict(w.settings)), 'StreamBuffer(...)')
        for k in set(t.get(ref).fields) | set(t.get(sb).fields):
            a, b = t.get(sb).fields.get(k), t.get(ref).fields.get(k)
            if isinstance(a, Ref) and isinstance(b, Ref) and t.get(a).cls is t.get(b).cls and t.get(a).cls in LOCKS:
                continue
            eng.oblige(t, 'counted: buffer settings are applied to the stream', zbool(sym_eq(a, b)))

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'open_reader', **args[1])

    def post(eng, pre, s, args, out, rep):
        src, o, kind = args
        w = eng.w
        ob = lambda nm, g: eng.oblige(s, f'counted: {nm}', g)
        opened_before = kind in ('one', 'many')
        opens = s.ghost['opens'] - (pre.ghost['opens'])
        if opened_before:
            ob('opening a further reader leaves the source alone', opens == 0 and s.ghost['open_exc'] == pre.ghost['open_exc'])
            f0, f1 = pre.f(w.old.event, 'set'), s.f(w.old.event, 'set')
            ob('opening a further reader does not stop the stream', zbool(sym_eq(f0, f1)))
            ob('opening a further reader shares the stream',
               session_objects(s, stream_of(s, src)) == (w.old.event, w.old.thread, w.old.buf, w.old.locked, w.old.window))
        if is_raise(out):
            e = out.exc.tag
            ob('opening a reader raises only what the source or the reader class raised',
               e is not None and e in (s.ghost['open_exc'], s.ghost.get('reader_exc')))
            if not opened_before:
                for s2, r in eng.getattr(s.copy(), stream_of(s, src), 'is_running'):
                    eng.oblige(s2, 'counted: the source does not run when no reader is open (opening failed)', r is False)
            if w.count is not None:
                ob('a reader that failed to open is not counted', zbool(sym_eq(s.f(src, w.count), pre.f(src, w.count))))
            return
        ob('the reader opened is a reader of the configured class', isinstance(out, Ref) and s.get(out).cls is w.cls)
        if not isinstance(out, Ref):
            return
        ev, th, buf, ld, d = session_objects(s, stream_of(s, src))
        if not opened_before:
            ob('the first open reader starts the source once', opens == 1)
            ob('the first open reader starts one reading thread', s.ghost['started'][-1:] == (th.oid,) and
               (w.old is None or th != w.old.thread))
            ob('the stream started is running', s.f(ev, 'set') is False)
            v = V(eng, s, d)
            ob('the stream started is a fresh one', simp(v.zn == 0))
            ob('the limit configured is that of the stream', zbool(sym_eq(v.maxlen, w.maxlen)))
        refs = [v for v in s.get(out).fields.values() if isinstance(v, Ref)]
        ob('the reader reads the running stream', ld in refs and ev in refs)
        for k in OPTS:
            for s2, v in eng.getattr(s.copy(), out, k):
                eng.oblige(s2, f'counted: option {k} reaches the reader', zbool(sym_eq(v, o.get(k, DEFAULTS[k]))))
        if w.count is not None:
            ob('one more reader is open', zbool(sym_eq(s.f(src, w.count), SInt(pre.f(src, w.count).t + 1))))
        # closing the new reader: stops the stream exactly if it is the only one
        for s2, r in call(eng, s.copy(), out, 'close'):
            f = s2.f(ev, 'set')
            if kind in ('one', 'many'):
                eng.oblige(s2, 'counted: closing one of several readers does not stop the stream', zbool(sym_eq(f, s.f(ev, 'set'))))
            else:
                eng.oblige(s2, 'counted: closing the only open reader stops the stream', f is True)
    c = Contract('StreamSource.open_reader', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('counted')
    return c


def c_close_reader():
    def scenarios():
        for kind, how in itertools.product(('one', 'two', 'many'), ('close', 'exit', '__exit__', '__exit__(error)')):
            def setup(eng, kind=kind, how=how):
                s, src, r = situation(eng, 'one' if kind == 'two' else kind)
                if kind == 'two':
                    s, r2 = only(call(eng, s, src, 'open_reader'), 'open_reader')
                    eng.w.other = r2
                eng.at_stop = served if kind == 'one' else None
                yield s, [src, r, how, kind], {}
            yield f'{how}, {kind} open', setup

    def served(eng, st, sb):
        if any(o.cls in LOCKS and o.fields.get('held') for o in st.heap.values()):
            return              # nobody gets in here
        st = st.copy()
        eng.open_fails = False
        for s2, r in call(eng, st, eng.w.source, 'open_reader'):
            eng.oblige(s2, 'counted: a reader opened while the last one is being closed has the source started for it',
                       not is_raise(r) and s2.ghost['opens'] == st.ghost['opens'] + 1)

    def close(eng, st, r, how):
        x = Exc(BaseException, ('body',), arbitrary=True)
        e = [ExcType(x), x, SOpq(fresh('traceback', Opq))] if how == '__exit__(error)' else [None] * 3
        yield from call(eng, st, r, how.split('(')[0], *(e if how.startswith('__exit__') else []))

    def run(eng, st, args, kw):
        yield from close(eng, st, args[1], args[2])

    def post(eng, pre, s, args, out, rep):
        src, r, how, kind = args
        w = eng.w
        ob = lambda st, nm, g: eng.oblige(st, f'counted: {nm}', g)
        ob(s, 'closing a reader succeeds and swallows no exception', out is None or out is False)
        check(eng, pre, s, src, kind)
        # closing it again
        for s2, o2 in close(eng, s.copy(), r, how):
            ob(s2, 'closing a reader again succeeds', not is_raise(o2))
            same_heap(eng, s, s2, 'counted: closing a reader again has no effect')
        if kind == 'two':
            for s2, o2 in close(eng, s.copy(), w.other, how):
                ob(s2, 'closing the last open reader stops the stream', s2.f(w.old.event, 'set') is True)

    def check(eng, pre, s, src, kind):
        w = eng.w
        f0, f1 = pre.f(w.old.event, 'set'), s.f(w.old.event, 'set')
        if kind == 'one':
            eng.oblige(s, 'counted: closing the last open reader stops the stream', f1 is True)
        else:
            eng.oblige(s, 'counted: closing one of several readers does not stop the stream', zbool(sym_eq(f0, f1)))
        if w.count is not None:
            eng.oblige(s, 'counted: one reader less is open', zbool(sym_eq(s.f(src, w.count), SInt(pre.f(src, w.count).t - 1))))
        eng.oblige(s, 'counted: closing a reader opens nothing', s.ghost['opens'] == pre.ghost['opens'])
        c = Cmp(eng, s, pre.heap, s, pre, 'counted')
        for x in (w.old.locked, w.old.window, pre.f(w.old.window, '_items'), pre.f(w.old.window, '_keys')):
            if s.heap[x.oid] is not pre.heap[x.oid]:
                c.obj('closing a reader leaves the buffered items alone', x, x)
    c = Contract('closing readers of a StreamSource', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('counted')
    return c


def same_heap(eng, a, b, name):
    c = Cmp(eng, b, a.heap, b, a, name)
    for oid, o in a.heap.items():
        if b.heap[oid] is not o and o.cls not in LOCKS:
            c.obj('changed', Ref(oid), Ref(oid))


def c_enter_reader():
    """a reader used as a context manager: entering gives the reader itself and changes no stream"""
    def scenarios():
        def setup(eng):
            s, src, r = situation(eng, 'one')
            yield s, [src, r], {}
        yield 'with reader', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[1], '__enter__')

    def post(eng, pre, s, args, out, rep):
        eng.oblige(s, 'counted: entering the context of a reader gives the reader', isinstance(out, Ref) and out == args[1])
        same_heap(eng, pre, s, 'counted: entering the context of a reader')
    c = Contract('BufferReader.__enter__', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('counted')
    return c


def c_configure():
    def scenarios():
        for kind, config in itertools.product(('one', 'many', 'closed'), ('given', 'no limit')):
            def setup(eng, kind=kind, config=config):
                s, src, r = situation(eng, kind)
                yield s, [src, settings(s, config)], {}
            yield f'configure_buffer, {kind}, {config}', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'configure_buffer', **args[1])

    def post(eng, pre, s, args, out, rep):
        eng.oblige(s, 'counted: configuring once the stream exists raises ValueError',
                   is_raise(out) and isinstance(out.exc.cls, type) and issubclass(out.exc.cls, ValueError))
        same_heap(eng, pre, s, 'counted: refused configuration')
    c = Contract('StreamSource.configure_buffer', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine('counted')
    return c


def for_c16():
    return [c_open_reader(), c_close_reader(), c_enter_reader(), c_configure()]
