"""Streams made from plain functions (C17)."""
import itertools
import random
import time

from . import Report
from .stage import Stage, TooLong


class Broken(Exception):
    pass


class Abort(BaseException):
    pass


class Bad(Exception):
    pass


class Inst:
    """what the open function gives; may count as false"""

    def __init__(self, i, true=True):
        self.i, self.true = i, true

    def __bool__(self):
        return self.true

    def __eq__(self, o):
        return True

    __hash__ = None

    def __repr__(self):
        return f'Inst({self.i})'


class Datum:
    """ordered by a key only; compares equal to everything, may count as false"""

    def __init__(self, k, true=True):
        self.k, self.true = k, true

    def __bool__(self):
        return self.true

    def __eq__(self, o):
        return isinstance(o, Datum) and o.k == self.k

    __hash__ = None

    def __repr__(self):
        return f'Datum({self.k})'


DFLT_MAXLEN = 100


def run(case):
    """case: script per opening, which functions are given, enum, maxlen, auto_drop, pause, leave (how the context is left)"""
    from stream2py.simply import mk_stream_buffer
    log, insts = [], []
    enum = case.get('enum', True)
    scripts = []
    for o, sc in enumerate(case['scripts']):
        vals, k = [], 0
        for c in sc:
            if c == 'N':
                vals.append(None)
            else:
                k += 1
                vals.append(Datum(k, c == 'v'))
        scripts.append(vals)
    at = [-1, 0]                    # opening, position
    read_insts, seen = [], []
    with Stage(limit=5000) as st:
        def open_stream():
            x = Inst(len(insts), case.get('true', True))
            insts.append(x)
            log.append(('open', x))
            if case.get('openfails') and len(insts) == len(scripts):
                raise Broken('open')
            return x

        box = {}

        def read_stream(x):
            log.append(('read', x))
            i = at[1]
            at[1] += 1
            sc = scripts[at[0]]
            if i >= len(sc):
                if case.get('end') == 'raise':
                    raise Broken('read')
                box['sb'].stop()
                if i > len(sc) + 3:
                    raise Bad('read again after the stop')
                return None
            return sc[i]

        def close_stream(x):
            log.append(('close', x))
            if case.get('closefails'):
                raise Broken('close')

        def key(d):
            if enum:
                if type(d) is not tuple or len(d) != 2 or type(d[0]) is not int or not isinstance(d[1], Datum):
                    raise Bad(f'the key function was given {d!r}')
                return d[1].k
            if not isinstance(d, Datum):
                raise Bad(f'the key function was given {d!r}')
            return d.k

        infos = []

        def info(x):
            infos.append(x)
            return {'n': len(infos)}

        kw = dict(read_stream=read_stream)
        if case.get('open', True):
            kw['open_stream'] = open_stream
        if case.get('close', True):
            kw['close_stream'] = close_stream
        if case.get('key', True):
            kw['key'] = key
        if case.get('info'):
            kw['info'] = info
        maxlen = DFLT_MAXLEN
        if 'maxlen' in case:
            maxlen = kw['maxlen'] = case['maxlen']
        if 'pause' in case:
            kw['sleep_time_on_read_none_seconds'] = case['pause']
        if 'auto_drop' in case:
            kw['auto_drop'] = case['auto_drop']
        if 'enum' in case:
            kw['enumerate_data'] = enum
        auto = case.get('auto_drop', True)
        pause = case.get('pause')
        if pause is None:
            from stream2py import stream_buffer
            pause = stream_buffer.DFLT_SLEEP_TIME_ON_READ_NONE_S
        leave = case.get('leave')
        err = {None: None, 'error': Broken('body'), 'abort': Abort('body'), 'gen': GeneratorExit('body'), 'stop': StopIteration('body')}[leave]

        def env(what, x):
            if what in ('sleep', 'wait'):
                if log and log[-1][0] == 'read' and at[1] <= len(scripts[at[0]]) and scripts[at[0]][at[1] - 1] is None and not box.get('p'):
                    box['p'] = True
                    if x != pause:
                        raise Bad(f'the pause after a read of None is {x}, not {pause}')
                if auto is False and maxlen is not None and len(held()) >= maxlen:
                    box['full'] = True
                    box['sb'].stop()

        def held():
            r, out = box['sb'].mk_reader(), []
            while True:
                x = r.read(ignore_no_item_found=True)
                if x is None:
                    return out
                out.append(x)

        def session(o):
            """the current opening runs to its end"""
            at[:] = [o, 0]
            box.update(p=False, full=False)
            del log[:]
            st.env = env
            st.threads[-1].run_now()
            st.env = None
            if isinstance(st.threads[-1].error, Bad):
                raise st.threads[-1].error
            cur = insts[o] if case.get('open', True) else None
            wrong = [x for x in log if x[1] is not cur]
            if wrong:
                raise Bad(f'instance {cur!r}: {wrong}')
            names = [x[0] for x in log]
            if 'open' in names or names.count('close') != (1 if case.get('close', True) else 0):
                raise Bad(f'calls after opening: {names}')
            if case.get('close', True) and names[-1] != 'close':
                raise Bad('closed before the last read')
            reads = names.count('read')
            sc = scripts[o]
            got_vals = [x for x in sc[:reads] if x is not None]
            if auto is False and maxlen is not None and len([x for x in sc if x is not None]) >= maxlen:
                want_all = [x for x in sc if x is not None][:maxlen]
                if reads > sc.index(want_all[-1]) + 1 if False else len(got_vals) != maxlen:
                    raise Bad(f'{len(got_vals)} values read with a limit of {maxlen} and automatic dropping off')
            else:
                if reads != len(sc) + 1:
                    raise Bad(f'{reads} reads instead of {len(sc) + 1}')
                want_all = got_vals
            want = list(enumerate(want_all)) if enum else want_all
            if maxlen is not None:
                want = want[-maxlen:] if maxlen else []
            got = held()
            ok = len(got) == len(want)
            for a, b in zip(got, want):
                if enum:
                    ok = ok and type(a) is tuple and len(a) == 2 and type(a[0]) is int and a[0] == b[0] and a[1] is b[1]
                else:
                    ok = ok and a is b
            if not ok:
                raise Bad(f'delivered {got!r}, should be {want!r}')
            if box['sb'].is_running:
                raise Bad('runs on after its end')
        try:
            cm = mk_stream_buffer(**kw)
            if log:
                raise Bad('something is called before the context is entered')
            try:
                with cm as sb:
                    box['sb'] = sb
                    for o in range(len(scripts)):
                        if o:
                            sb.start()
                        if case.get('open', True):
                            if [x[0] for x in log] != ['open'] and not (o and log and log[-1][0] == 'open'):
                                raise Bad(f'calls on entry: {log}')
                            if len(insts) != o + 1:
                                raise Bad(f'{len(insts)} openings')
                        elif o == 0 and log:
                            raise Bad(f'calls on entry: {log}')
                        if not sb.is_running:
                            raise Bad('not running on entry')
                        if sb.auto_drop is not auto:
                            raise Bad(f'auto_drop is {sb.auto_drop!r}, should be {auto!r}')
                        if case.get('info'):
                            if sb.source_reader_info != {'n': o + 1} or infos[-1] is not (insts[o] if case.get('open', True) else None):
                                raise Bad(f'info is {sb.source_reader_info}, from {infos}')
                        if case.get('skip') and o == len(scripts) - 1:
                            break                 # the context is left while running
                        session(o)
                    if err is not None:
                        raise err
                if err is not None:
                    raise Bad('leaving the context swallowed the exception')
            except (Broken, Abort, GeneratorExit, StopIteration) as e:
                if case.get('openfails') and isinstance(e, Broken) and e.args == ('open',):
                    return None
                if e is not err:
                    raise Bad(f'leaving the context raised {e!r}')
            if case.get('openfails'):
                raise Bad('a failing open function is ignored')
            if box['sb'].is_running:
                raise Bad('runs on after its context was left')
            del log[:]
            at[:] = [len(scripts) - 1, 0]
            st.threads[-1].run_now()
            names = [x[0] for x in log]
            if case.get('skip'):
                if names != (['close'] if case.get('close', True) else []):
                    raise Bad(f'calls after the context was left: {names}')
                if case.get('close', True) and log[0][1] is not (insts[-1] if case.get('open', True) else None):
                    raise Bad(f'{log[0][1]!r} is closed')
            elif names:
                raise Bad(f'calls after the end: {names}')
        except Bad as e:
            return f'{case}: {e}'
        except TooLong as e:
            return f'{case}: no end: {e}'
        except (Exception, Abort) as e:
            return f'{case}: unexpected {type(e).__name__}: {e}'
        finally:
            st.env = None
    return None


def c17(tier, seed, budget):
    rep = Report('read scripts (values that count as true or false, None) for one or several openings, every argument given or omitted, every '
                 'way of leaving the context; non-trivial: distinct case', ('harness.simply', 'run'),
                 'scripts <= 3 exhaustively (120 at random), <= 3 openings')
    rnd = random.Random(seed)
    lim = {'quick': 15, 'search': 60}.get(tier, 400)
    t0 = time.time()

    def cases():
        for n in (0, 1, 2, 3):
            for s in itertools.product('vfN', repeat=n):
                yield dict(scripts=[''.join(s)])
        for nm in ('open', 'close', 'key', 'true', 'enum', 'auto_drop'):
            yield dict(scripts=['vNf', 'vf'] if nm != 'key' else ['v'], **{nm: False})
        for leave, skip, en in itertools.product((None, 'error', 'abort', 'gen', 'stop'), (False, True), (False, True)):
            yield dict(scripts=['vN', 'fv'], leave=leave, skip=skip, enum=en, info=True)
        for m, a, p in itertools.product((None, 1, 2, 3, 130), (True, False), (None, 0, 0.125, 2)):
            yield dict(scripts=['vNfvf', 'v' * 140], maxlen=m, auto_drop=a, pause=p)
        yield dict(scripts=['v' * 120])
        for k in (1, 2):
            yield dict(scripts=['vN'] * k, openfails=True)
        yield dict(scripts=['vN', 'v'], closefails=True)
        yield dict(scripts=['vN', 'v'], end='raise')
        while True:
            c = dict(scripts=[''.join(rnd.choice('vfN') for _ in range(rnd.choice([0, 2, 4, 8, 120]))) for _ in range(rnd.randint(1, 3))])
            for k, vs in dict(open=[False], close=[False], info=[True], true=[False], enum=[True, False], maxlen=[None, 1, 2, 3, 50], pause=[None, 0, 1.5],
                              auto_drop=[True, False], leave=['error', 'abort', 'gen', 'stop'], skip=[True], closefails=[True], end=['raise']).items():
                if rnd.random() < 0.4:
                    c[k] = rnd.choice(vs)
            yield c
    for c in cases():
        if time.time() - t0 > lim:
            break
        rep.case(repr(c))
        v = run(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 2:
                break
    return rep.result()
