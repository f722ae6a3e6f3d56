"""Reference counting of StreamSource (C16); context, open state, iteration and time stamps of the source bases (C18)."""
import itertools
import random
import time

from . import Report
from .stage import Stage, TooLong

DFLT = dict(read_size=1, strict_n=False, ignore_no_item_found=False)


class Broken(Exception):
    pass


class Abort(BaseException):
    pass


class Bad(Exception):
    pass


def unique(e):
    """the exception itself, not an equal one"""
    return e


# ------------------------------------------------------------------ C16

def counted_class():
    from stream2py.stream_source import StreamSource

    class Counted(StreamSource):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.log, self.fail, self.script, self.at, self.on_read = [], None, [], 0, None

        def open(self):
            self.log.append('open')
            self.at = 0
            if self.fail is not None:
                raise self.fail

        def read(self):
            self.log.append('read')
            if self.on_read is not None:
                self.on_read(self.at)
            if self.at >= len(self.script):
                raise Broken('end')
            x = self.script[self.at]
            self.at += 1
            return x

        def close(self):
            self.log.append('close')

        def key(self, x):
            return x

        @property
        def info(self):
            return {'opens': self.log.count('open')}
    return Counted


def reader_class():
    from stream2py.buffer_reader import BufferReader

    class Mine(BufferReader):
        fail = None
        made = []

        def onclose(self):
            pass

        def open(self):
            if Mine.fail is not None:
                if isinstance(Mine.fail, Broken):
                    self.close()            # what it has of itself
                raise Mine.fail
            return super().open()
    return Mine


def run_counted(case):
    """case: ops, cfg (buffer settings or None), cls (own reader class or not)"""
    done = []
    with Stage(limit=3000) as st:
        try:
            Counted, Mine = counted_class(), reader_class()
            from stream2py.buffer_reader import BufferReader
            mk = lambda own: Counted(reader_cls=Mine) if own else Counted()
            mk(not case['cls'])             # another source of the class, made before and one made after
            src = mk(case['cls'])
            mk(not case['cls'])
            cfg = case['cfg']
            if cfg is not None and src.configure_buffer(**cfg) is not src:
                raise Bad('configure_buffer does not give the source')
            maxlen = 100 if cfg is None else cfg.get('maxlen')
            live, dead = [], []             # readers [(reader, session)]
            opens, ended, exists, sess = 0, False, False, 0

            def check():
                if src.log.count('open') != opens:
                    raise Bad(f'the source was opened {src.log.count("open")} times, not {opens}')
                for r, q in live:
                    if q == sess and not ended and r.is_stopped:
                        raise Bad('the stream is stopped while a reader is open')
                    if q != sess:
                        raise Bad('harness')
                if not live:
                    for r, q in dead:
                        if not r.is_stopped:
                            raise Bad('the stream runs on after all readers have been closed')
                    before = src.log.count('read')
                    for t in st.threads:
                        t.run_now()
                    if src.log.count('read') > before:
                        raise Bad('the source is read after all readers have been closed')
                    if st.threads and src.log.count('close') < ran():
                        raise Bad('the source is not closed after all readers have been closed')

            def ran():
                return sum(t.state == 'ended' for t in st.threads)

            for op in case['ops']:
                done.append(op)
                nm = op[0]
                if nm == 'open':
                    o = op[1]
                    r = src.open_reader(**o)
                    if not live:
                        opens += 1
                        sess += 1
                        ended = False
                        src.script = []
                    exists = True
                    if type(r) is not (Mine if case['cls'] else BufferReader):
                        raise Bad(f'the reader is a {type(r)}')
                    for k, v in dict(DFLT, **o).items():
                        if getattr(r, k) is not v:
                            raise Bad(f'option {k} of the reader is {getattr(r, k)!r}, not {v!r}')
                    if r.source_reader_info != {'opens': opens}:
                        raise Bad(f'the new reader has the source info {r.source_reader_info}')
                    for q, _ in live:
                        if not q.is_same_buffer(r):
                            raise Bad('readers open at the same time do not share a stream')
                    for q, _ in dead:
                        if q.is_same_buffer(r) != (_ == sess):
                            raise Bad('a reader shares the stream of an earlier opening')
                    live.append((r, sess))
                elif nm in ('failopen', 'failreader'):
                    e = Broken('x') if op[1] else Abort('x')
                    if nm == 'failopen':
                        src.fail = e
                    else:
                        if not case['cls']:
                            continue
                        Mine.fail = e
                    try:
                        r = src.open_reader()
                    except (Broken, Abort) as x:
                        if x is not e:
                            raise Bad(f'opening raised {x!r}')
                        if nm == 'failopen' and live:
                            raise Bad('a further reader opens the source again')
                        if not live:
                            opens += 1
                            sess += 1
                            ended = False
                    else:
                        if nm == 'failreader' or not live:
                            raise Bad('opening succeeded')
                        live.append((r, sess))
                    src.fail = Mine.fail = None
                    if nm == 'failopen' and not live:
                        # the thread of a start that failed never runs
                        st.threads[:] = [t for t in st.threads if t.state != 'new']
                elif nm in ('close', 'again'):
                    pool = live if nm == 'close' else dead
                    if not pool:
                        continue
                    i, how = op[1] % len(pool), op[2]
                    r, q = pool[i]
                    if how == 'close':
                        r.close()
                    elif how == 'exit':
                        r.exit()
                    elif how == 'with':
                        with r as rr:
                            if rr is not r:
                                raise Bad('the context of a reader is not the reader')
                    else:
                        e = Broken('body') if how == 'error' else Abort('body') if how == 'abort' else OTHERS[how]('body')
                        try:
                            with r:
                                raise e
                        except BaseException as x:
                            if x is not e:
                                raise
                        else:
                            raise Bad('leaving the context of a reader swallowed the exception')
                    if nm == 'close':
                        del live[i]
                        dead.append((r, q))
                elif nm == 'cfg':
                    if not exists:
                        continue
                    try:
                        src.configure_buffer(maxlen=op[1])
                        raise Bad('configuring an existing stream is accepted')
                    except ValueError:
                        pass
                elif nm == 'end':
                    # the source delivers some values and ends by itself
                    if not live or ended:
                        continue
                    n = op[1]
                    src.script = list(range(n))
                    t = [t for t in st.threads if t.state == 'started']
                    if len(t) != 1:
                        raise Bad(f'{len(t)} reading threads')
                    if cfg is not None and cfg.get('auto_drop', True) is False and maxlen is not None and n >= maxlen:
                        continue
                    t[0].run_now()
                    ended = True
                    want = src.script if maxlen is None else src.script[-maxlen:]
                    for r, _ in live:
                        got = []
                        while True:
                            x = r.read(n=1, strict_n=False, ignore_no_item_found=True)
                            if x is None or (isinstance(x, list) and not x):
                                break
                            got.append(x)
                        if got != want:
                            raise Bad(f'a reader gave {got}, the source {src.script} with a limit of {maxlen}')
                check()
            while live:
                live.pop()[0].close()
            for t in st.threads:
                t.run_now()
            if src.log.count('close') < ran():
                raise Bad('not every session closed the source')
            depth = 0
            for x in src.log:
                if x == 'read' and depth == 0:
                    raise Bad('the source is read while closed')
                depth = 1 if x == 'open' else 0 if x == 'close' else depth
        except Bad as e:
            return f'{case}, after {done}: {e}'
        except TooLong as e:
            return f'{case}, after {done}: no end: {e}'
        except (Exception, Abort) as e:
            return f'{case}, after {done}: unexpected {type(e).__name__}: {e}'
        finally:
            st.env = None
    return None


def run_pair(case):
    """several sources of one class: each is counted by itself; case['pair']: [(which, open?)]"""
    done = []
    with Stage(limit=3000) as st:
        try:
            Counted = counted_class()
            srcs = [Counted() for _ in range(2)]
            live, dead, opens = [[], []], [[], []], [0, 0]
            for i, op in case['pair']:
                done.append((i, op))
                if op == 'open':
                    r = srcs[i].open_reader()
                    opens[i] += not live[i]
                    live[i].append(r)
                elif op == 'close' and live[i]:
                    r = live[i].pop()
                    r.close()
                    dead[i].append(r)
                for k in (0, 1):
                    if srcs[k].log.count('open') != opens[k]:
                        raise Bad(f'source {k} was opened {srcs[k].log.count("open")} times, not {opens[k]}')
                    for r in live[k]:
                        if r.is_stopped:
                            raise Bad(f'source {k} is stopped while it has an open reader')
                        if r.source_reader_info != {'opens': opens[k]}:
                            raise Bad(f'a reader of source {k} has the info {r.source_reader_info}')
                    for r in dead[k]:
                        if not live[k] and not r.is_stopped:
                            raise Bad(f'source {k} runs on after all its readers have been closed')
        except Bad as e:
            return f'{case}, after {done}: {e}'
        except TooLong as e:
            return f'{case}, after {done}: no end: {e}'
        except (Exception, Abort) as e:
            return f'{case}, after {done}: unexpected {type(e).__name__}: {e}'
        finally:
            st.env = None
    return None


def run_overlap(case):
    """a reader is opened while the last one is just being closed (which takes the source some time)"""
    import logging
    import threading
    logging.disable(logging.CRITICAL)
    from .stage import REAL_SLEEP
    saved = threading.excepthook, time.sleep
    threading.excepthook, time.sleep = lambda *a: None, lambda t: REAL_SLEEP(min(t, 0.05))
    src = None
    go = threading.Event()
    closing = threading.Event()
    try:
        Counted = counted_class()

        class Slow(Counted):
            slow = False
            sleep_time_on_read_none_s = 0.001

            def read(self):
                time.sleep(0.001)
                return None

            def close(self):
                super().close()
                if self.slow:
                    closing.set()
                    go.wait(5)
        src = Slow()
        for _ in range(case['before']):
            src.open_reader().close()
        readers = [src.open_reader() for _ in range(case['readers'])]
        for r in readers[:-1]:
            r.close()
        src.slow = True
        box, errors = [], []

        def run(f):
            try:
                f()
            except BaseException as e:
                errors.append(e)
        ts = [threading.Thread(target=run, args=(readers[-1].close,), daemon=True)]
        ts[0].start()
        if not closing.wait(3):
            raise Bad('closing the last reader does not close the source')
        ts.append(threading.Thread(target=run, args=(lambda: box.append(src.open_reader()),), daemon=True))
        ts[1].start()
        ts[1].join(0.03)
        src.slow = False
        go.set()
        for t in ts:
            t.join(5)
        if errors:
            raise Bad(f'unexpected {errors}')
        if any(t.is_alive() for t in ts):
            raise Bad('opening or closing does not come back')
        time.sleep(0.01)
        if box[0].is_stopped:
            raise Bad('the stream is stopped while a reader is open (opened while the last one was being closed)')
        if box[0].source_reader_info != {'opens': case['before'] + 2}:
            raise Bad(f'the source was not started afresh: {box[0].source_reader_info}')
        box[0].close()
        if not box[0].is_stopped:
            raise Bad('the stream runs on after all readers have been closed')
    except Bad as e:
        return f'{case}: {e}'
    except Exception as e:
        return f'{case}: unexpected {type(e).__name__}: {e}'
    finally:
        go.set()
        threading.excepthook, time.sleep = saved
    return None


def run_settings(case):
    """buffer settings given to the source reach its stream: limit with manual dropping, pause"""
    cfg = case['settings']
    with Stage(limit=3000) as st:
        try:
            src = counted_class()()
            src.configure_buffer(**cfg)
            full = cfg.get('auto_drop', True) is False and cfg.get('maxlen') is not None
            src.script = [0, None, 1, 2, 3, 4]
            r = src.open_reader()
            st.pauses.clear()
            seen = []

            def env(what, x):
                if what in ('sleep', 'wait'):
                    seen.append((x, [v for v in src.log if v == 'read'].__len__()))
                    if len(seen) > 3:
                        r.close()
            st.env = env
            st.threads[-1].run_now()
            st.env = None
            want = cfg.get('sleep_time_on_read_none_s')
            if want is None:
                from stream2py import stream_buffer
                want = stream_buffer.DFLT_SLEEP_TIME_ON_READ_NONE_S
            if not seen or seen[0][0] != want:
                return f'{case}: the pause after a read of None is {seen[:1]}, not {want}'
            reads = src.log.count('read')
            if full and cfg['maxlen'] < 5 and reads != cfg['maxlen'] + (1 if cfg['maxlen'] > 1 else 0):
                return f'{case}: {reads} reads, the limit is {cfg["maxlen"]} without automatic dropping'
            if not full and reads != 7:
                return f'{case}: {reads} reads instead of 7'
        except TooLong as e:
            return f'{case}: no end: {e}'
        except Exception as e:
            return f'{case}: unexpected {type(e).__name__}: {e}'
    return None


def c16(tier, seed, budget):
    rep = Report('sequences of opening (with options, failing source, failing reader class), closing (every way, repeatedly), '
                 'configuring and a source ending by itself, against a count of open readers; non-trivial: distinct sequence',
                 ('harness.sources', 'replay'), '<= 9 operations')
    rnd = random.Random(seed)
    lim = {'quick': 15, 'search': 60}.get(tier, 400)
    t0 = time.time()
    hows = ('close', 'exit', 'with', 'error', 'abort')

    def rnd_op():
        k = rnd.random()
        if k < 0.35:
            return ('open', {a: rnd.choice(b) for a, b in (('read_size', (2, 3)), ('strict_n', (True, False)),
                                                           ('ignore_no_item_found', (True, False))) if rnd.random() < 0.4})
        if k < 0.65:
            return ('close', rnd.randrange(4), rnd.choice(hows))
        if k < 0.75:
            return ('again', rnd.randrange(4), rnd.choice(hows))
        if k < 0.83:
            return ('end', rnd.choice([0, 1, 2, 3, 4, 120]))
        if k < 0.89:
            return ('failopen', rnd.random() < 0.5)
        if k < 0.95:
            return ('failreader', rnd.random() < 0.5)
        return ('cfg', rnd.choice([None, 3]))

    def cases():
        for n in (0, 1):
            for m in (1, 2):
                yield dict(before=n, readers=m)
        for a, d, p in itertools.product((None, 1, 2, 200), (True, False), (None, 0.25, 0, 3)):
            yield dict(settings=dict(maxlen=a, auto_drop=d, sleep_time_on_read_none_s=p))
        o = ('open', {})
        for cfg in (None, dict(maxlen=None), dict(maxlen=110)):
            yield dict(ops=[o, o, ('end', 120)], cfg=cfg, cls=True)
        for h in OTHERS:
            yield dict(ops=[o, ('close', 0, h), o], cfg=None, cls=False)
        c = [('close', i, h) for i in (0, 1) for h in hows]
        for n in (2, 3, 4, 5):
            for ops in itertools.product([(0, 'open'), (1, 'open'), (0, 'close'), (1, 'close')], repeat=n - 2):
                yield dict(pair=[(0, 'open'), (1, 'open'), *ops, (0, 'close')])
        small = [o, *c, ('again', 0, 'close'), ('again', 0, 'error'), ('failopen', True), ('failreader', True), ('end', 3), ('cfg', 3)]
        for n in (1, 2, 3):
            for ops in itertools.product(small if n < 3 else small[:3] + small[11:], repeat=n):
                yield dict(ops=[o, *ops, o], cfg=None, cls=True)
        while True:
            cfg = rnd.choice([None, None, dict(maxlen=2), dict(maxlen=None), dict(maxlen=4, auto_drop=False)])
            yield dict(ops=[rnd_op() for _ in range(rnd.randint(3, 9))], cfg=cfg, cls=rnd.random() < 0.7)
    for c in cases():
        if time.time() - t0 > lim:
            break
        rep.case(repr(c))
        v = replay(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 2:
                break
    return rep.result()


# ------------------------------------------------------------------ C18

class Odd:
    """compares equal to everything, counts as false"""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __bool__(self):
        raise RuntimeError('truth value of data was asked for')

    __hash__ = None

    def __repr__(self):
        return 'Odd()'


LETTERS = {'N': None, '0': 0, 'F': False, 'e': '', 'l': [], 'd': {}, 'O': Odd(), 'x': 'x', 's': -1}


def bases():
    from stream2py.source_reader import SourceReader, QuickSourceReader
    from stream2py.stream_source import StreamSource
    return SourceReader, QuickSourceReader, StreamSource


def scripted(base, log, script):
    """a concrete source of this base class"""
    ns = {}

    def read(self):
        log.append('read')
        x = next(script)
        if isinstance(x, BaseException):
            raise x
        return x
    ns['read'] = read
    SR, QR, SS = bases()
    if base is not QR:
        # what they return is of no interest
        returns = itertools.cycle((None, True, log, 0, 'done'))
        ns['open'] = lambda self: (log.append('open'), next(returns))[1]
        ns['close'] = lambda self: (log.append('close'), next(returns))[1]
        ns['key'] = lambda self, x: x
    return type('Scripted', (base,), ns)


def run_iter(case):
    base = dict(zip(('SR', 'QR', 'SS'), bases()))[case['base']]
    vals = [LETTERS[c] for c in case['script']]
    end = Broken('end') if case.get('exc', True) else Abort('end')
    log = []
    with Stage(limit=3000) as st:
        st.env = lambda what, x: log.append('wait') if what in ('sleep', 'wait') else None
        src = scripted(base, log, iter([*vals, end]))()
        valid = lambda x: x is not None
        if case.get('valid') == 'truthy':
            # validity redefined
            valid = lambda x: x is not None and x == 'x'
            type(src).is_valid_data = lambda self, x: valid(x)
        if case.get('valid') == 'none too':
            valid = lambda x: x is None or x == 'x'
            type(src).is_valid_data = lambda self, x: valid(x)
        if case.get('valid') == 'no string':
            valid = lambda x: not isinstance(x, str)
            type(src).is_valid_data = lambda self, x: valid(x)
        good = [valid(x) for x in vals]
        if (case.get('valid') or '').startswith('bits'):
            # a judgement that depends on more than the value: the same value may be valid now and not later
            good = [b == '1' for b in case['valid'][4:]][:len(vals)]
            type(src).is_valid_data = lambda self, x: good[log.count('read') - 1]
        none = []
        if case.get('stop') is not None:
            # a source that stops with its k-th read; it may still have data then
            type(src).is_stopped = property(lambda self: log.count('read') >= case['stop'])
        if case.get('nodata'):
            type(src).when_no_data = lambda self, x=None: (none.append(x), log.append('wait'))
        if case.get('sleep') is not None:
            src.set_sleep_time_on_iter_none(case['sleep'])
        got = []
        try:
            if case.get('open'):
                (src.open if case['open'] == 'open' else src.__enter__)()
                log[:] = [x for x in log if x != 'open']
            for x in src:
                log.append('yield')
                got.append(x)
            n = log.count('read')
            if case.get('stop') is None or n < case['stop'] or not n or vals[n - 1] is not None:
                return f'{case}: iteration ended after {got}'
            vals, good = vals[:n], good[:n]
            log.append('wait')              # in place of the end
        except (Broken, Abort) as e:
            if e is not end:
                return f'{case}: unexpected {e!r}'
        except TooLong as e:
            return f'{case}: {e}'
        except Exception as e:
            return f'{case}: unexpected {type(e).__name__}: {e}'
        want = [x for x, g in zip(vals, good) if g]
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            return f'{case}: iterating gives {got}, the reads {vals}'
        i = 0
        for v, ok in zip(vals, good):
            if i >= len(log) or log[i] != 'read':
                return f'{case}: order of events {log}'
            i += 1
            if ok:
                if log[i] != 'yield':
                    return f'{case}: a value is not delivered before the next read: {log}'
                i += 1
            else:
                if log[i] != 'wait':
                    return f'{case}: no wait after a read without data: {log}'
                while i < len(log) and log[i] == 'wait':
                    i += 1
        if case.get('nodata') and (len(none) != len(vals) - len(want) or any(a is not b for a, b in zip(none, [v for v, g in zip(vals, good) if not g]))):
            return f'{case}: when_no_data called with {none}'
    return None


OTHERS = {c.__name__: c for c in (StopIteration, StopAsyncIteration, GeneratorExit, KeyboardInterrupt, SystemExit, TypeError, ValueError, KeyError,
                                  AttributeError, RuntimeError, AssertionError, OSError)}


def run_ctx(case):
    """a sequence of contexts; cls SR or QR"""
    SR, QR, SS = bases()
    base = dict(SR=SR, QR=QR)[case['ctx']]
    log = []
    src = scripted(base, log, iter([]))()
    fails = {}
    if base is SR:
        def op(self):
            log.append('open')
            if fails.get('open'):
                raise fails['open']
            return log if len(done) % 2 else None
        type(src).open = op
    done = []
    try:
        if src.closed is not True:
            raise Bad('closed is not true at first')
        for op in case['ops']:
            done.append(op)
            del log[:]
            if op in ('with', 'error', 'abort', 'enter') or op in OTHERS:
                e = None if op in ('with', 'enter') else Broken('b') if op == 'error' else Abort('b') if op == 'abort' else OTHERS[op]('b')
                try:
                    if op == 'enter':
                        x = src.enter()
                        if x is not src or src.closed is not False:
                            raise Bad('enter()')
                        if src.exit(None, None, None):
                            raise Bad('exit()')
                    else:
                        with src as x:
                            if x is not src:
                                raise Bad('the context is not the source')
                            if src.closed is not False:
                                raise Bad('inside its context a source says it is closed')
                            if base is SR and log != ['open']:
                                raise Bad(f'on entry: {log}')
                            if e is not None:
                                raise e
                        if e is not None:
                            raise Bad('the exception is swallowed')
                except BaseException as x:
                    if x is not e:
                        raise
                if src.closed is not True:
                    raise Bad('after its context a source says it is open')
                if base is SR and log != ['open', 'close']:
                    raise Bad(f'a context does {log}')
            elif op == 'failopen' and base is SR:
                fails['open'] = Broken('open')
                try:
                    with src:
                        raise Bad('entered although opening failed')
                except Broken as x:
                    if x is not fails['open']:
                        raise Bad(f'unexpected {x!r}')
                fails.clear()
                if src.closed is not True:
                    raise Bad('open although opening failed')
            elif op in ('open', 'close') and base is QR:
                (src.open if op == 'open' else src.close)()
                if src.closed is not (op == 'close'):
                    raise Bad(f'closed is {src.closed} after {op}()')
    except Bad as e:
        return f'{case}, after {done}: {e}'
    except Exception as e:
        return f'{case}, after {done}: unexpected {type(e).__name__}: {e}'
    return None


def run_quick(case):
    SR, QR, SS = bases()
    log = []
    src = scripted(QR, log, iter([]))()
    now = [0.0]
    saved = time.time, time.time_ns
    time.time, time.time_ns = lambda: now[0], lambda: int(now[0] * 10**9)
    try:
        for t in case['times']:
            now[0] = t
            if case['how'] == 'open':
                src.open()
            else:
                src.__enter__()
            if src.read_idx != 0 or type(src.read_idx) is not int:
                return f'{case}: index {src.read_idx!r} after opening'
            if type(src.open_time) is not int or abs(src.open_time - int(t * 1e6)) > 1:
                return f'{case}: open time {src.open_time!r} at {t} s'
            if src.info['open_time'] != src.open_time:
                return f'{case}: info {src.info}'
            src.read_idx = 7
            now[0] += 5
            if abs(src.open_time - int(t * 1e6)) > 1 or abs(src.info['open_time'] - int(t * 1e6)) > 1:
                return f'{case}: the open time changes'
            if case['close']:
                src.close()
            x = Odd()
            if src.key(x) is not x or src.key(None) is not None:
                return f'{case}: key'
        for b in (SR, QR, SS):
            for t in case['times']:
                now[0] = t
                s = scripted(b, log, iter([]))
                for o in (b, s, s()):
                    ts = o.get_timestamp()
                    if type(ts) is not int or abs(ts - int(t * 1e6)) > 1:
                        return f'{case}: {b.__name__}.get_timestamp() is {ts!r} at {t} s'
    except Exception as e:
        return f'{case}: unexpected {type(e).__name__}: {e}'
    finally:
        time.time, time.time_ns = saved
    return None


def run18(c):
    return run_iter(c) if 'base' in c else run_ctx(c) if 'ctx' in c else run_quick(c)


def c18(tier, seed, budget):
    rep = Report('read scripts of the three base classes, sequences of contexts and openings, clock values; non-trivial: distinct case',
                 ('harness.sources', 'replay'), 'scripts <= 4 exhaustively (8 at random), <= 4 contexts')
    rnd = random.Random(seed)
    lim = {'quick': 12, 'search': 40}.get(tier, 200)
    t0 = time.time()

    def cases():
        for b in ('SR', 'QR'):
            for o in OTHERS:
                yield dict(ctx=b, ops=['with', o])
            for n in (1, 2, 3):
                for ops in itertools.product(('with', 'error', 'abort', 'enter', 'failopen', 'open', 'close'), repeat=n):
                    yield dict(ctx=b, ops=ops)
        for how, close in itertools.product(('open', 'enter'), (True, False)):
            for ts in ([0.0, 1.5], [1700000000.123456, 1700000001.999999, 3.0], [1e-6, 2.0000005]):
                yield dict(times=ts, how=how, close=close)
        for n in (1, 2, 3):
            for s in itertools.product('N0FlxO', repeat=n):
                for b in ('SR', 'QR', 'SS'):
                    yield dict(base=b, script=''.join(s))
        for n in (1, 2, 3):
            for s in itertools.product('N0x', repeat=n):
                for k in range(n + 2):
                    yield dict(base='SS', script=''.join(s), stop=k)
        for n in (1, 2, 3):
            for s in itertools.product('N0xl', repeat=n):
                for v, nd in itertools.product((None, 'truthy', 'none too', 'no string'), (False, True)):
                    yield dict(base='QR', script=''.join(s), valid=v, nodata=nd)
        for n in (2, 3):
            for s in itertools.product('Nxl', repeat=n):
                for bits in itertools.product('01', repeat=n):
                    yield dict(base='QR', script=''.join(s), valid='bits' + ''.join(bits), nodata=bits[0] == '1')
        while True:
            if rnd.random() < 0.4:
                n = rnd.randint(3, 8)
                yield dict(base='QR', script=''.join(rnd.choice('NNxlO') for _ in range(n)), nodata=rnd.random() < 0.3,
                           valid=rnd.choice([None, 'truthy', 'none too', 'no string', 'bits' + ''.join(rnd.choice('01') for _ in range(n))]))
                continue
            yield dict(base=rnd.choice(['SR', 'QR', 'SS']), script=''.join(rnd.choice('NN0FeldOxs') for _ in range(rnd.randint(3, 8))),
                       sleep=rnd.choice([None, 0, 0.5]), exc=rnd.random() < 0.5, open=None)
    for c in cases():
        if time.time() - t0 > lim:
            break
        rep.case(repr(c))
        v = run18(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 2:
                break
    return rep.result()


def replay(case):
    if 'settings' in case:
        return run_settings(case)
    if 'pair' in case:
        return run_pair(case)
    if 'before' in case:
        return run_overlap(case)
    if 'ops' in case and 'cfg' in case:
        return run_counted(case)
    return run18(case)
