"""Histories of StreamBuffer with scripted sources (C12-C15)."""
import itertools
import queue
import random
import threading
import time

from . import Report
from .stage import Stage, TooLong, REAL_SLEEP, short

PAUSE = 0.25


class Broken(Exception):
    pass


class Abort(BaseException):
    pass


def ident(x):
    return x


def fails(x):
    raise Broken('key')


def source_class():
    from stream2py.source_reader import SourceReader

    class ScriptSource(SourceReader):
        """gives the values of a script; what happens is logged"""

        def __init__(self, script, key=None, info=None, end='raise', pause=None, close_error=None):
            self.script, self._key, self._info, self.end = list(script), key, info, end
            self._pause, self.close_error = pause, close_error
            self.log, self.at = [], 0
            self.stop = self.on_read = None

        sleep_time_on_read_none_s = property(lambda self: self._pause)

        @property
        def info(self):
            return self._info

        def key(self, x):
            return x

        def open(self):
            self.log.append(('open',))

        def read(self):
            if self.on_read is not None:
                self.on_read(self.at)
            if self.at >= len(self.script):
                self.at += 1
                self.log.append(('read', None))
                if self.end == 'raise' or self.at > len(self.script) + 20:
                    raise Broken('end of script')
                self.stop()
                return None
            x = self.script[self.at]
            self.at += 1
            self.log.append(('read', x))
            if isinstance(x, str) and x == 'raise':
                raise Broken('read')
            if isinstance(x, str) and x == 'abort':
                raise Abort('read')
            if isinstance(x, type):
                raise x('read')
            return x

        def close(self):
            self.log.append(('close',))
            if self.close_error is not None:
                raise self.close_error

    return ScriptSource


def ScriptSource(script, key=None, **kw):
    s = source_class()(script, **kw)
    if key == 'fails':
        s.key = fails
    elif callable(key):
        s.key = key
    return s


def make(stage, src, via=0, **kw):
    """a stream buffer, made directly or (via odd) by the source itself with the options that differ from the defaults"""
    from stream2py.stream_buffer import StreamBuffer
    if via % 2:
        dflt = dict(sleep_time_on_read_none_s=None, auto_drop=True)
        return src.stream_buffer(**{k: v for k, v in kw.items() if k not in dflt or v is not dflt[k]})
    return StreamBuffer(src, **kw)


def drain(r):
    out = []
    while True:
        try:
            x = r.read(n=1, peek=False, ignore_no_item_found=False)
        except ValueError:
            return out
        out.append(x)
        if len(out) > 20000:
            return out


def contents(s):
    return drain(s.mk_reader())


class Bad(Exception):
    pass


class Val:
    """a value with an order key; may count as false"""

    def __init__(self, k, true=True):
        self.k, self.true = k, true

    def __bool__(self):
        return self.true

    def __repr__(self):
        return f'Val({self.k},{self.true})'


class Same(Val):
    """says it equals anything"""
    __hash__ = None

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False


class Array(Val):
    """compares like an array: comparing gives no truth value"""
    __hash__ = None

    def __eq__(self, o):
        return Array(self.k)

    __ne__ = __eq__

    def __bool__(self):
        raise ValueError('the truth value of an array is ambiguous')


KEYS = {}           # id of a value of a class of its own: (the value, its key)
PLAIN = {'L': lambda k: [k, k + 1], 'T': lambda k: (k, k + 1), 'D': lambda k: {k: 1, k + 1: 2}, 'S': lambda k: 'ab%d' % k,
         'B': lambda k: b'ab%d' % k, 'E': lambda k: {k, k + 1}, 'G': lambda k: iter([k, k + 1]), 'F': lambda k: k + 0.5,
         'Z': lambda k: 10 ** 6 + k, 'A': lambda k: bytearray(b'ab%d' % k), 'C': lambda k: (lambda: k), 'M': lambda k: [],
         'H': lambda k: [None, k], 'I': lambda k: Broken(k), 'J': lambda k: [[k], [k + 1]]}


def val_key(x):
    return x.k if isinstance(x, Val) else KEYS[id(x)][1]


def is_val(x):
    return isinstance(x, Val) or id(x) in KEYS


BUILTIN = dict(zip('0123456789!$%&/=?+*#', (
    StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, TypeError, ValueError, TimeoutError, EOFError, RuntimeError, BlockingIOError,
    MemoryError, RecursionError, AssertionError, OSError, InterruptedError, IndexError, KeyError, NotImplementedError, AttributeError,
    StopAsyncIteration)))


def values(script):
    """script letters to values: v true value, f false value, q equals anything, w like an array, capitals lists, strings and so on, N None, r/a/digits exceptions, o out of order value, s the latest value again"""
    out, k = [], 0
    KEYS.clear()
    for c in script:
        if c in 'vfqw':
            k += 1
            out.append(Val(k, c == 'v') if c in 'vf' else Same(k) if c == 'q' else Array(k))
        elif c in PLAIN:
            k += 1
            x = PLAIN[c](k)
            KEYS[id(x)] = x, k
            out.append(x)
        elif c == 's':
            out.append(next((x for x in reversed(out) if is_val(x)), None))
        elif c == 'o':
            out.append(Val(k - 1))
        else:
            out.append({'N': None, 'r': 'raise', 'a': 'abort', **BUILTIN}[c])
    return out


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def run_loop(case):
    """one session with a scripted source; returns what is wrong with it"""
    vals = values(case['script'] * case.get('times', 1))
    maxlen, auto = case['maxlen'], case['auto_drop']
    props = case['props']
    with Stage(limit=600 + 10 * len(vals) if len(vals) > 100 else 600 + 25 * case.get('hold', 0)) as st:
        src = ScriptSource(vals, key=val_key, end='stop', pause=case.get('src_pause'),
                           close_error={'abort': Abort, 'exit': SystemExit, **BUILTIN}.get(case.get('close'), Broken)('close') if case.get('close') else None)
        s = make(st, src, len(case['script']) + (maxlen or 0), maxlen=maxlen, auto_drop=auto, sleep_time_on_read_none_s=case.get('pause'))
        src.stop = s.stop
        want_pause = case.get('pause') if case.get('pause') is not None else case.get('src_pause') \
            if case.get('src_pause') is not None else __import__('stream2py.stream_buffer', fromlist=['x']).DFLT_SLEEP_TIME_ON_READ_NONE_S
        model, read, dropped = [], [], [0]
        absorbed = [0]
        stop_at = case.get('stop_at')           # ('read', i) or ('point', i)
        stopped = [None]
        points = [0]
        pauses0 = [0]

        def fit():
            if maxlen is not None:
                del model[:max(0, len(model) - maxlen)]

        def check(where):
            got = contents(s)
            if not same(got, model):
                raise Bad(f'{where}: the buffer holds {got!r}, should hold {model!r}')

        def absorb():
            """the values read so far must be in the buffer"""
            if src.log and src.log[-1][0] == 'read' and is_val(src.log[-1][1]):
                x = src.log[-1][1]
                if absorbed[0] != len(src.log):
                    absorbed[0] = len(src.log)
                    read.append(x)
                    if not (model and val_key(x) <= val_key(model[-1])):
                        model.append(x)
                        fit()
                    else:
                        case_state['refused'] = x

        def problem(f, *a):
            if 'problem' not in case_state:
                try:
                    f(*a)
                except Bad as e:
                    case_state['problem'] = str(e)
                except Exception as e:
                    case_state['problem'] = f'unexpected {type(e).__name__}: {e}'
        case_state = {}

        def stop_now(where):
            if stopped[0] is None:
                stopped[0] = (where, src.at)
                busy, st.busy = st.busy, True
                s.stop()
                st.busy = busy

        def before_read(i):
            prev = src.log[-1] if src.log else None
            absorb()
            if src.log and src.log[-1] == ('close',):
                case_state.setdefault('problem', 'the source is read after it was closed')
            if ('C12' in props or 'C14' in props) and (len(vals) < 100 or i % 2500 == 2499):
                problem(check, f'before read {i}')
            if 'C12' in props and 'refused' in case_state:
                case_state.setdefault('problem', f'the source is read again although {case_state["refused"]!r} could not be added to the buffer')
            if 'C12' in props and prev is not None and prev[0] == 'read' and prev[1] is None:
                new = st.pauses[pauses0[0]:]
                if not new or new[0] != want_pause:
                    case_state.setdefault('problem', f'after a read of None the pauses were {new!r}, the configured one is {want_pause!r}')
            if 'C14' in props and auto is False and maxlen is not None and len(model) >= maxlen:
                case_state.setdefault('problem', f'the source is read with automatic dropping off and the buffer full ({model!r})')
            if stopped[0] is not None and 'C13' in props:
                if src.at > stopped[0][1] + (1 if stopped[0][0] == 'point' else 0) - (1 if stopped[0][0] == 'read' else 0) + \
                        (1 if stopped[0][0] == 'read' else 0):
                    case_state.setdefault('problem', f'the source is read again after the stop request ({stopped[0]})')
            pauses0[0] = len(st.pauses)
            if stop_at and stop_at[0] == 'read' and stop_at[1] == i:
                stop_now('read')
                stopped[0] = ('read', src.at)
        src.on_read = before_read
        drops = list(case.get('drops', ()))
        held, hold = [0], case.get('hold', 0)   # the buffer stays full for so many pauses before room is made

        def env(what, x):
            points[0] += 1
            absorb()
            if stop_at and stop_at[0] == 'point' and stop_at[1] == points[0]:
                stop_now('point')
            if what in ('sleep', 'wait') and drops and auto is False and maxlen is not None and len(model) >= maxlen:
                held[0] += 1
                if held[0] <= hold:
                    return
                held[0] = 0
                n = min(drops.pop(0), len(model))
                problem(check, 'before a manual drop')
                s.drop(n)
                del model[:n]
                problem(check, f'after drop({n})')
            elif what in ('sleep', 'wait') and auto is False and maxlen is not None and len(model) >= maxlen and not drops:
                stop_now('point')
        try:
            s.start()
            st.env = env
            st.threads[-1].run_now()
        except TooLong as e:
            return f'{case}: reading does not end or does not go on: {e}'
        except Exception as e:
            return f'{case}: unexpected {type(e).__name__}: {e}'
        st.env = None
        th = st.threads[-1]
        absorb()
        if 'problem' in case_state:
            return f'{case}: {case_state["problem"]}'
        try:
            check('after reading ended')
        except Bad as e:
            return f'{case}: {e}'
        if 'C13' in props:
            if s.is_running:
                return f'{case}: running although reading has ended'
            n = src.log.count(('close',))
            if n != 1 or src.log[-1] != ('close',):
                return f'{case}: the source was closed {n} times, log {src.log[-4:]}'
            if isinstance(th.error, Broken) and str(th.error) == 'close':
                return f'{case}: the error of closing escaped'
        if 'C12' in props:
            cut = next((i for i, c in enumerate(case['script'] * case.get('times', 1)) if c in 'raos' or c in BUILTIN), len(vals))
            if stopped[0] is None and not same([v for v in vals[:cut] if v is not None], read[:len([v for v in vals[:cut] if v is not None])]):
                return f'{case}: values read {read!r}, the source had {vals!r}'
        if 'C14' in props and auto is False and stopped[0] is None:
            if src.at < len(vals):
                return f'{case}: reading stopped after {src.at} of {len(vals)} values'
        if 'C14' in props and auto is False and len(vals) < 100:
            for n in (1, 0, 2):
                if n > len(model):
                    continue
                try:
                    s.drop(n)
                except Exception as e:
                    return f'{case}: drop({n}) at the end, {len(model)} items, raises {e!r}'
                del model[:n]
                if not same(contents(s), model):
                    return f'{case}: drop({n}) at the end leaves {contents(s)}, should leave {model}'
        if 'C14' in props and auto is True:
            for a in ((), (1,), (0,)):
                try:
                    s.drop(*a)
                    return f'{case}: drop{a} with automatic dropping on is accepted'
                except RuntimeError:
                    pass
                except Exception as e:
                    return f'{case}: drop{a} with automatic dropping on raises {e!r}'
            if not same(contents(s), model):
                return f'{case}: a refused drop changed the buffer'
    return None


def loop_cases(pid, tier, rnd):
    n = 4 if tier == 'quick' else 5
    base = dict(props=[pid])
    if pid == 'C12':
        for ln in range(0, n + 1):
            for sc in itertools.product('vfN', repeat=ln):
                for m, p in ((None, {}), (2, dict(pause=PAUSE)), (1, dict(src_pause=2)), (3, dict(pause=0, src_pause=2))):
                    yield dict(base, script=''.join(sc), maxlen=m, auto_drop=True, **p)
        for sc in ('q', 'w', 'qv', 'wv', 'vqN', 'Nwq', 'qqq', 'wfw', 'qNw', 'vrv', 'vov', 'NNr', 'fav', 'vNvr', 'vsv', 'vvsv', 'vNsv', 'vss', 'fsv'):
            for m in (None, 2):
                yield dict(base, script=sc, maxlen=m, auto_drop=True)
        for c in PLAIN:
            for sc in (c, c + c, 'v' + c + 'N' + c, c + 'v', 'f' + c + c + 'vr'):
                for m in (None, 2):
                    yield dict(base, script=sc, maxlen=m, auto_drop=True)
        for sc in ('LTDSBEGFZACMHIJ', 'JIHMCAZFGEBSDTL'):
            yield dict(base, script=sc, maxlen=None, auto_drop=True)
    if pid == 'C13':
        for sc in [''.join(x) for ln in range(0, 4) for x in itertools.product('vNrao', repeat=ln)]:
            for close in (False, True, 'abort', 'exit'):
                yield dict(base, script=sc, maxlen=2, auto_drop=True, close=close)
        for c in BUILTIN:
            for sc in (c, 'v' + c, c + 'v', 'N' + c, 'v' + c + c + 'v'):
                yield dict(base, script=sc, maxlen=2, auto_drop=True, close=False)
            for sc in ('v', '', 'r', c):
                yield dict(base, script=sc, maxlen=2, auto_drop=True, close=c)
        for sc in ('', 'v', 'vN', 'vvv', 'NN', 'vNv', 'vr'):
            for close in (False, True):
                for auto in (True, False):
                    for at in [('read', i) for i in range(len(sc))] + [('point', i) for i in range(1, 14)]:
                        yield dict(base, script=sc, maxlen=None if not auto else 2, auto_drop=auto, close=close, stop_at=list(at))
        for sc in ('vvv', 'vNvv', 'vv', 'vvNvr'):
            for m in (1, 2):
                for d in ([], [1], [2]):
                    for at in [('read', 0)] + [('point', i) for i in range(1, 10)]:
                        yield dict(base, script=sc, maxlen=m, auto_drop=False, close=False, drops=d, stop_at=list(at))
    if pid == 'C14':
        yield dict(base, script='v', times=10100, maxlen=None, auto_drop=False, drops=[])
        for hold in (1, 3, 30, 150):
            for sc, m in (('vvv', 1), ('vvNv', 2), ('vNvvv', 1), ('vvvvvv', 3)):
                for d in ([1] * 6, [2] * 6):
                    yield dict(base, script=sc, maxlen=m, auto_drop=False, drops=d, hold=hold)
        for sc in [''.join(x) for ln in range(0, n + 2) for x in itertools.product('vN', repeat=ln)]:
            for m in (1, 2, 3, None):
                for d in ([1] * 12, [2] * 12, [1, 0, 3] * 6):
                    yield dict(base, script=sc, maxlen=m, auto_drop=False, drops=d)
                yield dict(base, script=sc, maxlen=m, auto_drop=True)
                yield dict(base, script=sc, maxlen=m, auto_drop=False, drops=[])


def _loop(pid, tier, seed, budget):
    rep = Report('sessions with scripted sources (true and false values, None, exceptions), stop requests and manual drops at '
                 'chosen steps; non-trivial: distinct case with at least one read', ('harness.stream', 'replay'),
                 'scripts of <= 7 reads')
    rnd = random.Random(seed)
    cs = list(loop_cases(pid, tier, rnd))
    if tier == 'quick' and len(cs) > 2500:
        cs = [c for c in cs if set(c['script']) - set('vfN')][:250] + rnd.sample(cs, 2500)
    t0 = time.time()
    for c in cs:
        rep.case(repr(c), bool(c['script']))
        v = run_loop(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 3:
                break
        if time.time() - t0 > 2 * budget:
            break
    return rep.result()


def c12(tier, seed, budget):
    return _loop('C12', tier, seed, budget)


def c13(tier, seed, budget):
    return _loop('C13', tier, seed, budget)


def c14(tier, seed, budget):
    return _loop('C14', tier, seed, budget)


# ------------------------------------------------------------------ C15

class Feed:
    """a source fed by the harness, with real threads"""

    @staticmethod
    def make(with_class):
        from stream2py.source_reader import SourceReader
        from stream2py.buffer_reader import BufferReader

        class MyReader(BufferReader):
            pass

        class FeedSource(SourceReader):
            def __init__(self):
                self.q = queue.Queue()
                self.opens = self.closes = self.tries = 0
                self.reading = self.active = 0
                self.fail = None
                self.bad = None
                self.slow = threading.Event()
                self.slow.set()
                self.waiting = threading.Event()
                self.base = 0
                self.opening = None

            sleep_time_on_read_none_s = 0.001

            @property
            def info(self):
                return {'opened': self.opens}

            def key(self, x):
                return x * 2

            def open(self):
                if self.reading or self.opens > self.closes:
                    self.bad = self.bad or 'the source is opened while the previous session still reads or has not closed it'
                self.tries += 1
                if self.opening is not None:
                    self.opening[0].set()
                    self.opening[1].wait(5)
                if self.fail is not None:
                    raise self.fail
                self.opens += 1

            def read(self):
                self.reading += 1
                try:
                    if not self.slow.is_set():
                        self.waiting.set()
                        self.slow.wait(5)
                    try:
                        x = self.q.get(timeout=0.002)
                    except queue.Empty:
                        return None
                    if isinstance(x, BaseException):
                        raise x
                    return x
                finally:
                    self.reading -= 1

            def close(self):
                self.closes += 1
                if self.closes > self.opens:
                    self.bad = self.bad or 'the source is closed twice'

        if with_class == 'keyed':
            # has its key only once it is open, another one each time
            class Keyed(FeedSource):
                key = None

                def open(self):
                    super().open()
                    m = self.opens + 1
                    self.key = lambda x: x * m
            return Keyed(), BufferReader
        if with_class == 'keeping':
            # keeps track of being open itself; closing raises before it has noted that it is closed
            class Keeping(FeedSource):
                closed = True
                is_open = opened = False

                def open(self):
                    super().open()
                    self.closed, self.is_open, self.opened = False, True, True

                def close(self):
                    super().close()
                    raise Broken('close')
            return Keeping(), BufferReader
        if with_class == 'changing':
            class Changing(FeedSource):
                buffer_reader_class = property(lambda self: MyReader if self.opens % 2 else BufferReader)
            return Changing(), None
        if with_class:
            FeedSource.buffer_reader_class = MyReader
        return FeedSource(), (MyReader if with_class else BufferReader)


def until(f, what, secs=3.0):
    t0 = time.time()
    while not f():
        if time.time() - t0 > secs:
            raise Bad(f'{what} did not happen')
        REAL_SLEEP(0.0005)


fails_with = (Broken, OSError, Abort, TimeoutError, ConnectionResetError, ValueError, RuntimeError, KeyboardInterrupt, StopIteration, TypeError,
              AttributeError, GeneratorExit, NotImplementedError, EOFError, ImportError, BlockingIOError)
errors = [(c, c('body'), None) for c in (KeyboardInterrupt, Broken, GeneratorExit, Abort, ValueError, SystemExit, StopIteration)]


def run_sessions(case):
    saved = time.sleep, threading.excepthook
    import logging
    logging.disable(logging.CRITICAL)
    time.sleep = short
    threading.excepthook = lambda *a: None
    s = src = None
    done = []
    try:
        src, cls = Feed.make(case['cls'])
        s = make(None, src, len(case['ops']), maxlen=case['maxlen'])
        sess = []           # per session: dict(items, stopped, readers)
        state = 'new'
        fed = 0
        implicit = []

        def check():
            if src.bad:
                raise Bad(src.bad)
            if s.is_running != (state == 'running'):
                raise Bad(f'is_running is {s.is_running}, the state is {state}')
            for i, x in enumerate(sess):
                cur = i == len(sess) - 1 and state == 'running'
                for r in x['readers']:
                    if r.is_stopped == cur:
                        raise Bad(f'a reader of session {i + 1} sees its session as {"stopped" if cur else "running"}')
                    if r.source_reader_info != {'opened': i + 1}:
                        raise Bad(f'a reader of session {i + 1} shows the info {r.source_reader_info}')
                    want = [q for q in x['items'][-(case['maxlen'] or 10 ** 9):]]
                    try:
                        got = r.range(-10, 10 ** 6, peek=True, ignore_no_item_found=True) or []
                    except ValueError:
                        got = []
                    if got != want:
                        raise Bad(f'a reader of session {i + 1} reads {got}, its session has {want}')
            if sess and state != 'failed' and s.source_reader_info != {'opened': len(sess)}:
                raise Bad(f'the stream shows the info {s.source_reader_info} in session {len(sess)}')

        def started():
            nonlocal state
            if src.opens != len(sess) + 1:
                raise Bad(f'start opened the source {src.opens - len(sess)} times')
            r = s.mk_reader()
            if type(r) is not (cls or src.buffer_reader_class):
                raise Bad(f'reader class {type(r).__name__}')
            if r.last_item is not None:
                raise Bad('a new reader has seen something')
            sess.append(dict(items=[], readers=[r]))
            implicit[:] = []
            state = 'running'
        for op in case['ops']:
            done.append(op)
            if op in ('start', 'enter'):
                src.fail = None
                if op == 'start':
                    s.start()
                elif s.__enter__() is not s:
                    raise Bad('entering does not give the stream buffer')
                started()
            elif op == 'failstart':
                src.fail = fails_with[(len(done) + len(case['ops'])) % len(fails_with)]('open')
                tries = src.tries
                try:
                    s.start()
                except BaseException as e:
                    if e is not src.fail:
                        raise Bad(f'start raised {e!r}, opening {src.fail!r}')
                else:
                    raise Bad('start succeeded although opening failed')
                if src.tries != tries + 1:
                    raise Bad(f'start opened the source {src.tries - tries} times')
                src.fail = None
                state = 'failed'
                implicit[:] = []
            elif op == 'nothread':
                n, real = src.opens, threading.Thread.start
                err = RuntimeError("can't start new thread")

                def no_thread(t):
                    raise err
                threading.Thread.start = no_thread
                try:
                    s.start()
                    raise Bad('start succeeded although no thread could be started')
                except RuntimeError as e:
                    if e is not err:
                        raise Bad(f'start raised {e!r}')
                finally:
                    threading.Thread.start = real
                src.opens = src.closes = n          # whether it is closed then is left open
                state = 'failed'
                implicit[:] = []
            elif op in ('stop', 'exit', 'exit with'):
                if state == 'new':
                    continue
                if op == 'stop':
                    s.stop()
                elif s.__exit__(*(None, None, None) if op == 'exit' else errors[len(done) % len(errors)]):
                    raise Bad('leaving the context swallows exceptions')
                if state == 'running':
                    state = 'stopped'
                elif state == 'failed':
                    continue
                implicit[:] = []
            elif op == 'end':
                if state != 'running':
                    continue
                src.q.put(Broken('read'))
                until(lambda: not s.is_running, 'the end of reading after an error')
                until(lambda: src.closes == src.opens, 'closing after an error')
                state = 'ended'
            elif op == 'feed':
                if state != 'running':
                    continue
                fed += 1
                sess[-1]['items'].append(fed)
                src.q.put(fed)
                k = src.key(fed)
                until(lambda: fed in (s.mk_reader().range(k, k, peek=True, ignore_no_item_found=True) or []), f'buffering of {fed}')
            elif op == 'flood':
                if state != 'running':
                    continue
                for _ in range(2600):
                    fed += 1
                    sess[-1]['items'].append(fed)
                    src.q.put(fed)
                k = src.key(fed)
                until(lambda: fed in (s.mk_reader().range(k, k, peek=True, ignore_no_item_found=True) or []), f'buffering of {fed}', 10)
            elif op == 'next':
                if state != 'running':
                    continue
                x = next(s)
                left = [q for q in sess[-1]['items'][-(case['maxlen'] or 10 ** 9):] if not implicit or q > implicit[-1]]
                if x != (left[0] if left else None):
                    raise Bad(f'next() gives {x!r}, not read of this session are {left}')
                if x is not None:
                    implicit.append(x)
            elif op == 'reader':
                if state in ('new', 'failed'):
                    if state == 'new':
                        from stream2py.exceptions import StreamNotStartedError
                        for f in (s.mk_reader, lambda: s.attach_reader(object())):
                            try:
                                f()
                                raise Bad('a reader is made or attached before any start')
                            except StreamNotStartedError:
                                pass
                    elif sess:
                        try:
                            r = s.mk_reader()
                        except Exception:
                            continue
                        if r.is_same_buffer(sess[-1]['readers'][0]):
                            raise Bad('a reader made after a start that failed reads the items of the session before')
                    continue
                sess[-1]['readers'].append(s.mk_reader())
            elif op in ('slowopen', 'slowfail'):
                # what another thread finds while start opens the source
                opening, go = src.opening = threading.Event(), threading.Event()
                src.fail = Broken('open') if op == 'slowfail' else None
                outs = dict(start=[], running=[], reader=[])

                def ask(what, f):
                    try:
                        outs[what].append((f(), go.is_set()))
                    except BaseException as e:
                        outs[what].append((e, go.is_set()))
                ts = [threading.Thread(target=ask, args=a, daemon=True)
                      for a in (('start', s.start), ('running', lambda: s.is_running), ('reader', s.mk_reader))]
                ts[0].start()
                until(opening.is_set, 'the opening of the source')
                for t in ts[1:]:
                    t.start()
                for t in ts[1:]:
                    t.join(0.01)
                src.opening = None
                go.set()
                for t in ts:
                    t.join(5)
                    if t.is_alive():
                        raise Bad('start, is_running or mk_reader does not return')
                (x, _), (run, after), (r, after_r) = (outs[k][0] for k in ('start', 'running', 'reader'))
                if x is not src.fail:
                    raise Bad(f'start gives {x!r}')
                if not after and run is not False:
                    raise Bad(f'is_running is {run!r} while the source is being opened')
                if isinstance(r, BaseException) and sess and not after_r and state != 'failed':
                    raise Bad(f'making a reader while the stream is restarted raises {r!r}')
                src.fail = None
                if op == 'slowfail':
                    state = 'failed'
                    implicit[:] = []
                else:
                    started()
            elif op == 'slow':
                # restart while the source is slow to return from a read
                if state != 'running':
                    continue
                src.waiting.clear()
                src.slow.clear()
                until(src.waiting.is_set, 'a read')
                box = []

                def f():
                    try:
                        s.start()
                    except BaseException as e:
                        box.append(e)
                t = threading.Thread(target=f, daemon=True)
                t.start()
                t.join(0.03)
                src.slow.set()
                t.join(5)
                if t.is_alive() or box:
                    raise Bad(f'restart while a read is in progress: {box or "does not return"}')
                started()
            check()
    except Bad as e:
        return f'{case}, after {done}: {e}'
    except Exception as e:
        return f'{case}, after {done}: unexpected {type(e).__name__}: {e}'
    finally:
        if src is not None:
            src.slow.set()
        try:
            s.stop()
        except Exception:
            pass
        time.sleep, threading.excepthook = saved
    return None


def c15(tier, seed, budget):
    rep = Report('sequences of start, stop, failing start, end of reading, restart during a slow read, readers and items, '
                 'with real threads; non-trivial: distinct sequence', ('harness.stream', 'replay'), '<= 7 operations')
    rnd = random.Random(seed)
    lim = {'quick': 25, 'search': 80}.get(tier, 600)
    fixed = [['reader', 'start', 'feed', 'next', 'end', 'start', 'feed', 'next'], ['start', 'feed', 'next', 'start', 'feed', 'next'],
             ['start', 'feed', 'slow', 'feed', 'next'], ['slowopen', 'feed', 'slowopen', 'next'], ['start', 'stop', 'slowopen', 'slowfail', 'start'], ['nothread', 'start', 'feed', 'nothread', 'start'], ['failstart', 'start', 'feed', 'stop', 'reader'],
             ['start', 'feed', 'failstart', 'reader', 'start', 'feed'], ['start', 'slow', 'slow', 'feed'],
             ['enter', 'feed', 'exit', 'enter', 'next', 'feed', 'next'], ['start', 'start', 'start'],
             ['start', 'feed', 'feed', 'feed', 'next', 'stop', 'start', 'next', 'feed', 'next'],
             ['start', 'end', 'start', 'feed', 'reader', 'start', 'feed', 'reader'],
             *[['failstart'] * k + ['start', 'feed'] for k in range(2, 9)],
             *[['start', 'feed', *['reader'] * k, 'exit with', 'start', 'feed', 'next'] for k in range(7)]]
    ops = ['exit with', 'start', 'start', 'stop', 'end', 'failstart', 'nothread', 'feed', 'feed', 'next', 'reader', 'slow', 'enter', 'exit', 'slowopen', 'slowfail']
    t0 = time.time()

    def cases():
        for f in fixed:
            for cls in (False, True, 'keeping', 'keyed', 'changing'):
                yield dict(session=True, ops=f, cls=cls, maxlen=2)
        for m in (None, 2500, 40, 5000):
            for more in ([], ['next']):
                yield dict(session=True, ops=['start', 'flood', 'next', 'reader', 'start', 'flood', 'flood', 'next'] + more, cls=False, maxlen=m)
        while True:
            yield dict(session=True, ops=[rnd.choice(ops) for _ in range(rnd.randint(2, 7))], cls=rnd.choice([False, False, True, True, 'keeping', 'keyed', 'changing']), maxlen=rnd.choice([1, 2, 5]))
    for c in cases():
        if time.time() - t0 > lim:
            break
        rep.case(repr(c))
        v = run_sessions(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 2:
                break
    return rep.result()


def replay(case):
    return run_sessions(case) if 'session' in case else run_loop(case)
