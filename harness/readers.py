"""Histories of buffer readers against a plain list with a cursor (C06-C11)."""
import itertools
import json
import random
import threading
import time

from . import Report
from .stage import Stage, TooLong


class Item:
    """unorderable item; compares by key and value; may count as false"""
    __slots__ = ('k', 'v')

    def __init__(self, k, v=0):
        self.k, self.v = k, v

    def __eq__(self, o):
        return isinstance(o, Item) and (self.k, self.v) == (o.k, o.v)

    def __hash__(self):
        return hash(self.k)

    def __bool__(self):
        return self.v != 0

    def __repr__(self):
        return f'Item({self.k!r},{self.v})'


class Alike(Item):
    """compares equal to every other one, whatever the keys"""
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Alike)

    def __hash__(self):
        return 0


def by_k(x):
    return x.k


def half(x):
    return x / 2


def second(x):
    return x[1]


# kind of item: (key function, item number i -> item, number -> key)
KINDS = {
    'item': (by_k, lambda i: Item(i - 3, i % 2), lambda q: q - 3),
    'alike': (by_k, lambda i: Alike(i - 3), lambda q: q - 3),
    'int': (None, lambda i: i - 3, lambda q: q - 3),
    'half': (half, lambda i: i - 3, lambda q: (q - 3) / 2),
    'pair': (second, lambda i: [i, i - 3], lambda q: q - 3),
    'str': (None, lambda i: 'x' * i, lambda q: 'x' * int(q)),
    'float': (None, lambda i: (i - 3) / 4, lambda q: (q - 3) / 4),
    'tuple': (None, lambda i: (i // 3, i % 3) if i else (), lambda q: (int(q) // 3, int(q) % 3) if q else ()),
}
DEFAULTS = dict(read_size=1, peek=False, strict_n=False, ignore_no_item_found=False)


def library():
    from stream2py.buffer_reader import BufferReader
    from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
    return BufferReader, RWLockSortedDeque


class Bad(Exception):
    pass


def same(a, b):
    """the very same item (or an equal plain value of the same type)"""
    return a is b or (type(a) is type(b) and not isinstance(a, (Item, list)) and a == b)


class World:
    """one buffer, its readers, and the reference: a list and a cursor per reader"""

    def __init__(self, kind, maxlen, stage=None, env=()):
        BR, LD = library()
        self.BR = BR
        self.kf, self.mk, self.mkkey = KINDS[kind]
        self.key = self.kf or (lambda x: x)
        self.maxlen = maxlen
        world = self

        class Buffer(LD):
            def reader_release(self):
                super().reader_release()
                world.between()

            def writer_release(self):
                super().writer_release()
                world.between()

        self.buffer = Buffer([], key=self.kf, maxlen=maxlen)
        self.event = threading.Event()
        self.info = {'bt': 8}
        self.model = []
        self.states = []
        self.env = list(env)
        self.quiet = True
        self.readers = []
        self.number = 0

    def between(self):
        """other threads act between two lock sections of an operation"""
        if not self.quiet and self.env:
            q, self.quiet = self.quiet, True
            for op in self.env.pop(0):
                getattr(self, op)()
            self.states.append(list(self.model))
            self.quiet = q

    def append(self, skip=1):
        self.number += skip
        x = self.mk(self.number)
        with self.buffer.writer_lock() as w:
            w.append(x)
        self.model.append(x)
        if self.maxlen is not None:
            del self.model[:max(0, len(self.model) - self.maxlen)]

    def drop(self, n=1):
        n = min(n, len(self.model))
        with self.buffer.writer_lock() as w:
            w.drop(n)
        del self.model[:n]

    def reader(self, **opts):
        r = self.BR(buffer=self.buffer, source_reader_info=self.info, stop_event=self.event, **opts)
        self.readers.append(dict(r=r, opts=dict(DEFAULTS, **opts), seen=False, item=None, key=None))
        return len(self.readers) - 1

    def contents(self):
        with self.buffer.reader_lock() as b:
            return list(b)

    def cursor_ok(self, i, what):
        R = self.readers[i]
        r = R['r']
        if not R['seen']:
            if r.last_item is not None or r.last_key is not None:
                raise Bad(f'{what}: reader {i} has seen nothing but last_item is {r.last_item!r}, last_key {r.last_key!r}')
        elif not same(r.last_item, R['item']) or r.last_key != R['key']:
            raise Bad(f'{what}: reader {i}: last_item, last_key are {r.last_item!r}, {r.last_key!r}, should be '
                      f'{R["item"]!r}, {R["key"]!r}')

    # reference meaning of the operations: list of (outcome, new cursor) alternatives
    def news(self, R, model):
        return [x for x in model if not R['seen'] or self.key(x) > R['key']]

    def want_read(self, R, model, n=None, peek=None, ignore_no_item_found=None, strict_n=None, blocking=False):
        o = R['opts']
        n = o['read_size'] if n is None else n
        peek = o['peek'] if peek is None else peek
        ig = o['ignore_no_item_found'] if ignore_no_item_found is None else ignore_no_item_found
        strict = o['strict_n'] if strict_n is None else strict_n
        ig = ig or blocking             # (the stream has stopped: finding nothing gives None)
        c = self.news(R, model)
        if not c:
            return [(('ok', None) if ig else ('raise', ValueError), None)]
        if n > 1 and strict and len(c) < n:
            return [(('raise', ValueError), None)]
        got = c[:n] if n > 1 else c[0]
        return [(('ok', got), None if peek else (c[:n][-1] if n > 1 else c[0]))]

    def want_next(self, R, model, n=1, peek=False, ignore_no_item_found=False, strict_n=False):
        return self.want_read(R, model, n, peek, ignore_no_item_found, strict_n)

    def want___next__(self, R, model):
        if not self.news(R, model):
            return [(('raise', StopIteration) if self.event.is_set() else ('ok', None), None)]
        return self.want_read(R, model)

    def saw(self, i, q):
        """the cursor is set by its user"""
        R = self.readers[i]
        x = self.mk(q)
        R['r'].last_item = x
        R.update(seen=True, item=x, key=self.key(x))
        self.cursor_ok(i, 'after setting last_item')

    def want_head(self, R, model, peek=False):
        if not model:
            return [(('raise', (ValueError, IndexError)), None)]
        return [(('ok', model[0]), None if peek else model[0])]

    def want_tail(self, R, model, peek=False, ignore_no_item_found=False, only_new_items=False):
        c = self.news(R, model) if only_new_items else model
        if not c:
            return [(('ok', None) if ignore_no_item_found else ('raise', (ValueError, IndexError)), None)]
        return [(('ok', c[-1]), None if peek else c[-1])]

    def want_range(self, R, model, start, stop, step=None, peek=False, ignore_no_item_found=None, only_new_items=False,
                   start_le=False, stop_ge=False):
        ig = R['opts']['ignore_no_item_found'] if ignore_no_item_found is None else ignore_no_item_found
        none = [(('ok', None) if ig else ('raise', (ValueError, IndexError)), None)]
        ks = [self.key(x) for x in model]
        if only_new_items and R['seen']:
            new = [k for k in ks if k > R['key']]
            if not new:
                return none
            start = max(start, new[0])
        if start_le is True:
            start = max([k for k in ks if k <= start], default=start)
        if stop_ge is True:
            up = [k for k in ks if k >= stop]
            if not up:
                return none
            stop = up[0]
        got = [x for x in model if start <= self.key(x) <= stop][::step or 1]
        if not got:
            return none + [(('ok', []), None)] if peek else none
        return [(('ok', got), None if peek else got[-1])]

    def do(self, i, op, kw):
        """run one operation of reader i and compare; the environment may act between lock sections"""
        R = self.readers[i]
        kw = dict(kw)
        self.states = [list(self.model)]
        self.quiet = False
        a = [kw.pop('start'), kw.pop('stop')] if op == 'range' else []
        try:
            out = ('ok', getattr(R['r'], op)(*a, **kw))
        except Exception as e:
            out = ('raise', e)
        self.quiet = True
        if op == 'range':
            kw = dict(kw, start=a[0], stop=a[1])
        wants = [w for m in self.states for w in getattr(self, 'want_' + op)(R, m, **kw)]
        for (st, v), cur in wants:
            if st == out[0] and (isinstance(out[1], v) if st == 'raise' else self.equal(out[1], v)):
                if cur is not None or (R['r'].last_item is not R['item'] and st == 'ok' and v is cur):
                    R.update(seen=True, item=cur, key=self.key(cur))
                break
        else:
            (st, v), cur = wants[0]
            raise Bad(f'{op}{kw} of reader {i} ({R["opts"]}), last seen {R["item"]!r}, buffer {self.states}: '
                      f'gave {out[1]!r}, should {"raise " + str(v) if st == "raise" else "give " + repr(v)}')
        self.cursor_ok(i, f'after {op}{kw}')
        return out

    def equal(self, got, want):
        if want is None or got is None:
            return got is want
        if isinstance(want, list) and not (self.kf is second and len(want) == 2 and not isinstance(want[0], list)):
            return isinstance(got, list) and len(got) == len(want) and all(same(x, y) for x, y in zip(got, want))
        return same(got, want)

    def contents_ok(self, what):
        c = self.contents()
        if len(c) != len(self.model) or not all(same(x, y) for x, y in zip(c, self.model)):
            raise Bad(f'{what}: the buffer holds {c!r}, should hold {self.model!r}')


def run_history(case):
    """case: dict(kind, maxlen, readers=[opts], ops=[...], env=[...]); None or what is wrong"""
    with Stage():
        w = World(case['kind'], case['maxlen'], env=[])
        for o in case['readers']:
            w.reader(**o)
        if case.get('stopped'):
            w.event.set()
        done = []
        try:
            for op in case['ops']:
                done.append(op)
                if op[0] == 'append':
                    w.append(op[1])
                elif op[0] == 'drop':
                    w.drop(op[1])
                elif op[0] == 'saw':
                    w.saw(op[1], op[2])
                elif op[0] == 'stop':
                    w.event.set()
                else:
                    i, nm, kw, env = op
                    w.env = [list(e) for e in env]
                    if nm == 'range':
                        kw = dict(kw, start=w.mkkey(kw['start']), stop=w.mkkey(kw['stop']))
                    out = w.do(i, nm, kw)
                    if case.get('others', True):
                        for j in range(len(w.readers)):
                            w.cursor_ok(j, f'after {nm} of reader {i}')
                        w.contents_ok(f'after {nm} of reader {i}')
                        if isinstance(out[1], list) and out[0] == 'ok' and w.kf is not second:
                            del out[1][:]            # the list handed out is the caller's own
                            w.contents_ok(f'after clearing the list delivered by {nm}')
        except Bad as e:
            return f'{json.dumps(case["kind"])}, limit {case["maxlen"]}, {done[-6:]}: {e}'
        except TooLong as e:
            return f'{done[-6:]}: {e}'
    return None


def gen(rnd, pid):
    kind = rnd.choice([k for k in KINDS if pid != 'C09' or k not in ('tuple',)])
    maxlen = rnd.choice([None, 1, 2, 3, 5])
    opt = lambda *a: rnd.choice(a)
    some = lambda d: {k: v for k, v in d.items() if rnd.random() < 0.5}
    ropts = lambda: some(dict(read_size=opt(1, 2, 3), peek=opt(True, False), strict_n=opt(True, False),
                              ignore_no_item_found=opt(True, False)))
    readers = [{} if pid in ('C07', 'C09') and rnd.random() < 0.6 else ropts() for _ in range(2 if pid == 'C10' else 1)]
    names = {'C07': ['read'] * 5 + ['next'], 'C08': ['read'] * 5 + ['next'], 'C09': ['range'] * 4 + ['head', 'tail', 'tail', 'read'],
             'C11': ['__next__'] * 4 + ['read'],
             'C10': ['read', 'read', 'range', 'head', 'tail', 'next']}[pid]
    ops = [('append', opt(1, 1, 2)) for _ in range(rnd.randint(0, 4))]
    stopped = pid == 'C08' and rnd.random() < 0.4
    integral = kind in ('str', 'tuple')
    for _ in range(rnd.randint(1, 8)):
        t = rnd.random()
        if t < 0.3:
            ops.append(('append', opt(1, 1, 2, 3)))
        elif t < 0.4:
            ops.append(('drop', opt(1, 1, 2, 5)))
        elif t < 0.45:
            ops.append(('saw', rnd.randrange(len(readers)), opt(*range(12))))
        elif pid == 'C11' and t < 0.5:
            ops.append(('stop',))
        else:
            nm = rnd.choice(names)
            if nm in ('read', 'next'):
                kw = some(dict(n=opt(1, 2, 2, 3), peek=opt(True, False), strict_n=opt(True, False),
                               ignore_no_item_found=opt(True, False)))
                if stopped and nm == 'read' and rnd.random() < 0.5:
                    kw['blocking'] = True
                if pid == 'C07' and rnd.random() < 0.6:
                    kw = some(dict(n=opt(1, 2, 3)))
            elif nm == '__next__':
                kw = {}
            elif nm == 'head':
                kw = some(dict(peek=opt(True, False)))
            elif nm == 'tail':
                kw = some(dict(peek=opt(True, False), ignore_no_item_found=opt(True, False), only_new_items=opt(True, False)))
            else:
                q = (lambda: rnd.randint(0, 12)) if integral else (lambda: rnd.randint(0, 24) / 2)
                kw = some(dict(step=opt(None, 1, 2, 3), peek=opt(True, False), ignore_no_item_found=opt(True, False, None),
                               only_new_items=opt(True, False), start_le=opt(True, False), stop_ge=opt(True, False)))
                kw.update(start=q(), stop=q())
            env = [[opt('append', 'append', 'drop')] * rnd.randint(1, 3) for _ in range(rnd.randint(0, 2))]
            ops.append((rnd.randrange(len(readers)), nm, kw, env if rnd.random() < 0.4 else []))
    return dict(pid=pid, kind=kind, maxlen=maxlen, readers=readers, ops=ops, **(dict(stopped=True) if stopped else {}))


def exhaustive(pid):
    """small windows completely: contents of up to 4 items, the last seen item anywhere or evicted, all options"""
    tf = (False, True)
    if pid in ('C07', 'C08'):
        for kind, ln, c, gone, n, peek, ig, st in itertools.product(('item', 'int', 'alike'), range(4), range(4), (0, 1, 2),
                                                                    (1, 2, 3), tf, tf, tf):
            if c > ln or (pid == 'C07' and (ig or st)):
                continue
            ops = [('append', 2)] * ln + [(0, 'read', dict(n=1), [])] * c
            ops += [('drop', gone)] if gone else []
            ops += [(0, 'read', dict(n=n, peek=peek, ignore_no_item_found=ig, strict_n=st), []), (0, 'read', dict(ignore_no_item_found=True), [])]
            yield dict(pid=pid, kind=kind, maxlen=None, readers=[{}], ops=ops)
            if pid == 'C08':
                yield dict(pid=pid, kind=kind, maxlen=None, readers=[dict(strict_n=not st, peek=not peek)], stopped=True, ops=[
                    (o[0], o[1], dict(o[2], blocking=True), []) if o[0] == 0 and k >= len(ops) - 2 else
                    (0, 'read', dict(n=1, peek=False), []) if o[0] == 0 else o for k, o in enumerate(ops)])
                ops = ops[:-2] + [(0, 'read', {}, []), (0, 'read', dict(n=1, peek=False), [])]
                yield dict(pid=pid, kind=kind, maxlen=None, ops=[o if o[0] != 0 or o[1] != 'read' or o[2] != dict(n=1) else
                           (0, 'read', dict(n=1, peek=False, strict_n=False), []) for o in ops],
                           readers=[dict(read_size=n, peek=peek, ignore_no_item_found=ig, strict_n=st)])
    if pid == 'C09':
        for ln, c in itertools.product(range(4), range(3)):
            if c > ln:
                continue
            pre = [('append', 2)] * ln + [(0, 'read', {}, [])] * c
            for kind, cur, ig, peek in itertools.product(('item', 'int', 'alike'), range(0, 9), tf, tf):
                yield dict(pid=pid, kind=kind, maxlen=None, readers=[{}], ops=[
                    *pre, ('saw', 0, cur), (0, 'tail', dict(only_new_items=True, ignore_no_item_found=ig, peek=peek), [])])
            for kind in ('item', 'int', 'alike'):
                for on, ig, peek in itertools.product(tf, tf, tf):
                    yield dict(pid=pid, kind=kind, maxlen=None, readers=[{}],
                               ops=pre + [(0, 'tail', dict(only_new_items=on, ignore_no_item_found=ig, peek=peek), [])])
                    yield dict(pid=pid, kind=kind, maxlen=None, readers=[{}], ops=pre + [(0, 'head', dict(peek=peek), [])])
                for a, b, on, sl, sg, step in itertools.product(range(1, 9, 1), range(1, 9, 1), tf, tf, tf, (None, 2)):
                    if abs(a - b) > 5 or (step and (on or sl)):
                        continue
                    yield dict(pid=pid, kind=kind, maxlen=None, readers=[dict(ignore_no_item_found=bool(a % 2))],
                               ops=pre + [(0, 'range', dict(start=a, stop=b, step=step, only_new_items=on, start_le=sl,
                                                            stop_ge=sg), [])])


def _run(pid, tier, seed, budget, extra=None):
    rep = Report('histories of appends, evictions, drops and reader operations (other threads acting between lock sections) '
                 'against a list with cursors; non-trivial: distinct history', ('harness.readers', 'replay'),
                 'windows of <= 5 items, <= 16 operations, <= 3 readers')
    t0 = time.time()
    b = {'quick': 8, 'search': 40}.get(tier, 200)
    rnd = random.Random(seed)

    def cases():
        ex = list(exhaustive(pid))
        if tier == 'quick' and len(ex) > 3000:
            ex = rnd.sample(ex, 3000)
        yield from ex
        while time.time() - t0 < b:
            yield gen(rnd, pid)
    for c in cases():
        rep.case(repr(c))
        v = run_history(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 3:
                break
        if time.time() - t0 > 3 * b:
            break
    if extra is not None and not rep.violations:
        extra(rep, tier, rnd)
    return rep.result()


def replay(case):
    if 'sched' in case:
        return run_end(case) if 'opts' in case else run_stream_end(case)
    if 'access' in case:
        return run_access(case)
    if 'attach' in case:
        return run_attach(case)
    if 'made' in case:
        return run_made(case)
    case['ops'] = [tuple(o) for o in case['ops']]
    return run_history(case)


def c07(tier, seed, budget):
    return _run('C07', tier, seed, budget)


def c08(tier, seed, budget):
    return _run('C08', tier, seed, budget)


def c09(tier, seed, budget):
    return _run('C09', tier, seed, budget)


# ------------------------------------------------------------------ C10

def run_attach(case):
    """readers of two streams, one attached to the other's buffer"""
    from .stream import ScriptSource, make
    with Stage() as st:
        try:
            a, b = ScriptSource([1, 2, 3], info={'n': 'a'}), ScriptSource([11, 12], info={'n': 'b'})
            sa, sb = make(st, a), make(st, b)
            sa.start()
            sb.start()
            for t in st.threads:
                t.run_now() if case['attach'] == 'after' or t is st.threads[0] and case['attach'] == 'then next' else None
            r, o = sa.mk_reader(), sb.mk_reader()
            if r.source_reader_info != {'n': 'a'} or r.last_item is not None:
                return 'a new reader has not the info of its source or has seen something'
            sb.attach_reader(r)
            if case['attach'] != 'after':
                if r.is_stopped:
                    return 'a reader attached to a running buffer sees it as stopped'
                st.threads[1].run_now()
            if r.source_reader_info != {'n': 'b'}:
                return f'attached reader shows the info {r.source_reader_info!r}'
            if not r.is_stopped:
                return 'attached reader does not see that the stream stopped'
            got = [r.read(), r.read(ignore_no_item_found=True), r.read(ignore_no_item_found=True)]
            if got != [11, 12, None]:
                return f'attached reader delivers {got!r} of [11, 12]'
            if o.last_item is not None or o.read() != 11:
                return 'another reader was changed by attaching or by the attached reader'
            if not r.is_same_buffer(o) or not o.is_same_buffer(r):
                return 'attached reader is not known to read the same buffer'
            if sa.mk_reader().is_same_buffer(r):
                return 'attached reader is said to read the buffer it read before'
            if case['attach'] == 'then next':
                first, second = next(sb), r.read(peek=True, ignore_no_item_found=True)
                if first != 11 or second is not None:
                    return f'the stream, not iterated before, gives {first!r} as its first item of [11, 12], and an attached reader that has read both {second!r}'
                p = sb.mk_reader()
                sa.attach_reader(p)
                if next(sb) != 12 or next(sa) != 1 or p.read() != 1:
                    return 'attaching a reader moved the iteration of the stream'
            if case['attach'] == 'after':
                for o, want in ((dict(read_size=2), [[1, 2], ValueError]), (dict(read_size=2, peek=True), [[1, 2]] * 3),
                                (dict(ignore_no_item_found=True), [1, 2, 3, None]), (dict(peek=True), [1, 1]),
                                (dict(read_size=5, strict_n=True), [ValueError] * 2), (dict(read_size=5), [[1, 2, 3], ValueError])):
                    p = sb.mk_reader(**o)
                    sa.attach_reader(p)
                    got = []
                    for x in want:
                        try:
                            got.append(p.read())
                        except ValueError:
                            got.append(ValueError)
                    if o.get('read_size') == 2 and not o.get('peek'):
                        want = [[1, 2], [3]]
                    if got != want:
                        return f'a reader made with {o}, attached to another stream, delivers {got} of [1, 2, 3], should {want}'
        except Exception as e:
            return f'attaching: unexpected {type(e).__name__}: {e}'
    return None


def run_made(case):
    """several readers made with the same options, before and after use; every one starts afresh and moves alone"""
    from .stream import ScriptSource, make
    with Stage() as st:
        try:
            src = ScriptSource([1, 2, 3, 4], info={'n': 'a'})
            s = make(st, src)
            s.start()
            st.threads[-1].run_now()
            o = case['made']
            mk = s.mk_reader if case['via'] == 'stream' else s.source_buffer.mk_reader
            size = o.get('read_size', 1)
            chunk = lambda i: ([1, 2, 3, 4][i:i + size] if size != 1 else [1, 2, 3, 4][i])
            rs = [mk(**o) for _ in range(3)]
            pos = [0] * 3
            for k in case['order']:
                if k == 'new':
                    rs.append(mk(**o))
                    pos.append(0)
                    k = len(rs) - 1
                for i, r in enumerate(rs):
                    if (r.last_item is None) != (pos[i] == 0) or r.source_reader_info != {'n': 'a'}:
                        return f'{case}: a reader that has read {pos[i]} items has seen {r.last_item!r}'
                if pos[k] + size > 4:
                    continue
                got = rs[k].read()
                if got != chunk(pos[k]):
                    return f'{case}: reader {k}, at {pos[k]} of [1, 2, 3, 4], delivers {got!r}'
                if not o.get('peek'):
                    pos[k] += size
        except Exception as e:
            return f'{case}: unexpected {type(e).__name__}: {e}'
    return None


def c10(tier, seed, budget):
    def extra(rep, tier, rnd):
        for via, o, order in itertools.product(
                ('stream', 'buffer'),
                ({}, dict(read_size=1), dict(read_size=2), dict(peek=True), dict(read_size=2, strict_n=True),
                 dict(peek=False, ignore_no_item_found=True)),
                ((0, 1, 2, 0), (0, 0, 1, 'new', 2), ('new', 'new', 0, 'new'), (2, 'new', 1, 0))):
            c = dict(made=o, via=via, order=list(order))
            rep.case(repr(c))
            v = run_made(c)
            if v:
                rep.violation(v, c)
                break
        for when in ('after', 'before', 'then next'):
            c = dict(attach=when)
            rep.case(repr(c))
            v = run_attach(c)
            if v:
                rep.violation(v, c)
    return _run('C10', tier, seed, budget, extra)


# ------------------------------------------------------------------ C11

def run_end(case):
    """items appended and the stop placed at given steps of the reader; nothing may be lost or invented"""
    with Stage(limit=400 + max(case['sched'])) as st:
        w = World(case['kind'], None)
        w.reader(**case['opts'])
        r = w.readers[0]['r']
        for _ in range(case['before']):
            w.append()
        acts = list(case['sched'])          # positions of the appends, then of the stop
        count = [0]

        def env(what=None, x=None):
            count[0] += 1
            while acts and acts[0] <= count[0]:
                acts.pop(0)
                if acts:
                    w.append()
                else:
                    w.event.set()
        st.env = env
        w.quiet = False
        w.env = []
        w.between = lambda: st.point('release')
        real = w.buffer.reader_acquire

        def acquire():
            st.point('acquire')
            real()
        w.buffer.reader_acquire = acquire
        n = case['opts'].get('read_size', 1)
        stopped = lambda: w.event.is_set()
        got = []
        try:
            if case['mode'] == 'next':
                while True:
                    try:
                        x = next(r)
                    except StopIteration:
                        break
                    if x is None:
                        st.point('idle')
                    else:
                        got.append(x)
            elif case['mode'] == 'for':
                for x in r:
                    if x is None:
                        return f'{case}: iterating yielded None'
                    got.append(x)
            else:
                while True:
                    x = r.read(blocking=True)
                    if x is None:
                        break
                    got.append(x)
        except TooLong as e:
            return f'{case}: never ended: {e}'
        except Exception as e:
            return f'{case}: unexpected {type(e).__name__}: {e}'
        st.env = None
        if acts:
            return f'{case}: the end was signalled while the stream was running'
        flat = [y for x in got for y in (x if n > 1 else [x])]
        want = w.model
        if len(flat) != len(want) or not all(same(x, y) for x, y in zip(flat, want)):
            return f'{case}: delivered {flat!r} before the end, buffered were {want!r}'
    return None


def run_stream_end(case):
    """iterating a StreamBuffer itself, with items appended and the stop placed between the steps of its reader"""
    from .stream import ScriptSource, make
    _, LD = library()
    kf, mk, _ = KINDS[case['kind']]
    with Stage(limit=600 + max(case['sched'])) as st:
        src = ScriptSource([], key=kf or (lambda x: x), end='stop')
        s = make(st, src, maxlen=None, auto_drop=True)
        src.stop = s.stop
        depth, saved = [0], {}

        def patch(nm, before, after):
            real = getattr(LD, nm)
            saved[nm] = LD.__dict__.get(nm)

            def f(self, *a):
                before()
                out = real(self, *a)
                after()
                return out
            setattr(LD, nm, f)

        def up():
            depth[0] += 1

        def down():
            depth[0] -= 1
            if not depth[0]:
                st.point('release')
        patch('reader_acquire', lambda: None if depth[0] else st.point('acquire'), up)
        patch('reader_release', lambda: None, down)
        try:
            s.start()
            sb = s.source_buffer
            model = []

            def append():
                x = mk(len(model) + 1)
                sb.append(x)
                model.append(x)
            for _ in range(case['before']):
                append()
            for _ in range(case.get('first', 0)):
                next(s)
            acts, count = list(case['sched']), [0]

            def env(what=None, x=None):
                if depth[0]:
                    return
                count[0] += 1
                while acts and acts[0] <= count[0]:
                    acts.pop(0)
                    if acts:
                        append()
                    else:
                        s.stop()
            st.env = env
            got = []
            if case['mode'] == 'stream':
                for x in s:
                    if x is None:
                        return f'{case}: iterating the stream yielded None'
                    got.append(x)
            else:
                while acts:                     # (a stopped stream starts anew)
                    try:
                        x = next(s)
                    except StopIteration:
                        break
                    if x is None:
                        st.point('idle')
                    else:
                        got.append(x)
        except TooLong as e:
            return f'{case}: never ended: {e}'
        except Exception as e:
            if case['mode'] != 'next stream' or acts:       # (a stopped stream starts anew)
                return f'{case}: unexpected {type(e).__name__}: {e}'
        finally:
            st.env = None
            for nm, f in saved.items():
                if f is None:
                    delattr(LD, nm)
                else:
                    setattr(LD, nm, f)
        if acts:
            return f'{case}: the end was signalled while the stream was running'
        if case['mode'] == 'next stream':
            model = model[case.get('first', 0):][:len(got)]
        elif len(got) < len(model) and case.get('first'):
            model = model[case['first']:]       # (goes on where next() got to, or starts anew)
        if len(got) != len(model) or not all(same(x, y) for x, y in zip(got, model)):
            return f'{case}: delivered {got!r} before the end, buffered were {model!r}'
    return None


def c11(tier, seed, budget):
    rep = Report('placements of appends and the stop between the steps of a reader waiting for items; non-trivial: distinct '
                 'placement', ('harness.readers', 'replay'), '<= 2 appends and the stop within the first 24 steps, some within 6000')
    top = 14 if tier == 'quick' else 24
    t0 = time.time()
    rnd = random.Random(seed)
    tf = (False, True)
    plain = [dict(pid='C11', kind=kind, maxlen=None, readers=[dict(read_size=n, strict_n=st, peek=peek, ignore_no_item_found=ig)],
                  ops=[('append', 1)] * ln + [(0, '__next__', {}, [])] * c + [('append', 1)] * more +
                  ([('stop',)] if stop else []) + [(0, '__next__', {}, [])] * 2)
             for kind, n, st, peek, ig, ln, c, more, stop in itertools.product(('item', 'int'), (1, 2, 3), tf, tf, tf, range(4), range(3), (0, 1), tf)]
    rnd.shuffle(plain)
    for c in plain[:1500 if tier == 'quick' else None] + [gen(rnd, 'C11') for _ in range(600 if tier == 'quick' else 20000)]:
        rep.case(repr(c))
        v = run_history(c)
        if v:
            rep.violation(v, c)
            return rep.result()
    for mode, pos, opts in itertools.product(('next', 'for', 'blocking'), ((900, 1800), (5, 5000, 5001), (6000, 6000)),
                                             ({}, dict(read_size=2))):      # long waits
        c = dict(sched=list(pos), mode=mode, kind='int', opts=opts, before=3)
        rep.case(repr(c))
        v = run_end(c)
        if v:
            rep.violation(v, c)
            break
    for mode, kind, size, before in itertools.product(('next', 'for', 'blocking'), ('int', 'item'), (1, 2), (0, 3)):
        for k in range(0, 3):
            for pos in itertools.combinations_with_replacement(range(1, top), k + 1):
                if tier == 'quick' and k == 2 and (pos[0] + 3 * pos[1] + 5 * pos[2] + seed) % 4:
                    continue
                c = dict(sched=list(pos), mode=mode, kind=kind, opts=dict(read_size=size) if size > 1 else {}, before=before)
                if mode == 'next' and size == 1 and kind == 'item':
                    c['opts'] = dict(ignore_no_item_found=bool(pos[0] % 2))
                rep.case(repr(c))
                v = run_end(c)
                if v:
                    rep.violation(v, c)
                    if len(rep.violations) >= 3:
                        return rep.result()
            if time.time() - t0 > budget * 2:
                return rep.result()
    for mode, kind, before, first in itertools.product(('stream', 'next stream'), ('int', 'item'), (0, 3), (0, 2)):
        for k in range(0, 3):
            for pos in itertools.combinations_with_replacement(range(1, top), k + 1):
                if first > before or tier == 'quick' and k == 2 and (pos[0] + 3 * pos[1] + 5 * pos[2] + seed) % 8:
                    continue
                c = dict(sched=list(pos), mode=mode, kind=kind, before=before, first=first)
                rep.case(repr(c))
                v = run_stream_end(c)
                if v:
                    rep.violation(v, c)
                    if len(rep.violations) >= 3:
                        return rep.result()
            if time.time() - t0 > budget * 3:
                return rep.result()
    return rep.result()


# ------------------------------------------------------------------ C06

SEARCH = ('find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'find_last_gt', '__contains__', 'index', 'count',
          '__getitem__', '__iter__', '__reversed__', 'range', 'range_by_index', 'copy')
MUTATE = ('insert', 'insert_right', 'remove', 'clear', 'append', 'drop')


class Reentered(BaseException):
    pass


class Watch:
    """records for every buffer how its lock is held, and every use of the window without it"""

    def __enter__(self):
        _, LD = library()
        from stream2py.utility.sorted_deque import SortedDeque
        self.bad = None
        self.held = {}
        watch, self.saved = self, []

        def patch(cls, nm, f):
            self.saved.append((cls, nm, cls.__dict__.get(nm)))
            setattr(cls, nm, f)

        def lock(nm, mode, take):
            real = getattr(LD, nm)

            def f(self):
                h = watch.held.setdefault(id(self), [])
                if take:
                    if h:
                        watch.fail(f'the lock is requested ({nm}) while held ({h})')
                        raise Reentered()
                    real(self)
                    h.append(mode)
                else:
                    if h != [mode]:
                        watch.fail(f'{nm} while held: {h}')
                    if mode in h:
                        h.remove(mode)
                    real(self)
            patch(LD, nm, f)
        for nm, m, t in (('reader_acquire', 'r', True), ('reader_release', 'r', False), ('writer_acquire', 'w', True),
                         ('writer_release', 'w', False)):
            lock(nm, m, t)

        def use(nm, need):
            real = getattr(SortedDeque, nm)

            def f(self, *a, **k):
                if not watch.inside:
                    h = watch.owner(self)
                    if h is not None and not (h == ['w'] or (need == 'r' and h == ['r'])):
                        watch.fail(f'{nm} of the window while holding {h or "nothing"}')
                    watch.inside = True
                    try:
                        return real(self, *a, **k)
                    finally:
                        watch.inside = False
                return real(self, *a, **k)
            patch(SortedDeque, nm, f)
        self.inside = False
        for nm in SEARCH:
            use(nm, 'r')
        for nm in MUTATE:
            use(nm, 'w')
        self.buffers = []
        init = LD.__init__

        def mk(self, *a, **k):
            watch.inside = True
            try:
                init(self, *a, **k)
            finally:
                watch.inside = False
            watch.buffers.append(self)
            watch.held[id(self)] = []
        patch(LD, '__init__', mk)
        return self

    def owner(self, d):
        for b in self.buffers:
            if any(v is d for v in vars(b).values()):
                return self.held[id(b)]
        return None

    def fail(self, what):
        self.bad = self.bad or what

    def idle(self, what):
        for b in self.buffers:
            if self.held[id(b)]:
                self.fail(f'{what} leaves the lock held ({self.held[id(b)]})')

    def __exit__(self, *a):
        for cls, nm, f in reversed(self.saved):
            if f is None:
                delattr(cls, nm)
            else:
                setattr(cls, nm, f)


class Fails:
    """a key or item whose comparisons raise"""

    def __init__(self, e=RuntimeError):
        self.e = e

    def _no(self, o):
        raise self.e('comparison fails')
    __lt__ = __gt__ = __le__ = __ge__ = _no


READER_CALLS = [
    ('read', {}), ('read', dict(n=2)), ('read', dict(n=3, strict_n=True)), ('read', dict(peek=True)),
    ('read', dict(ignore_no_item_found=True)), ('read', dict(n=2, ignore_no_item_found=True, strict_n=True)),
    ('read', dict(n='x')), ('read', dict(blocking=True)), ('next', {}), ('head', {}), ('head', dict(peek=True)), ('tail', {}),
    ('tail', dict(only_new_items=True)), ('tail', dict(only_new_items=True, ignore_no_item_found=True)), ('__next__', {}),
    ('range', dict(start=0, stop=5)), ('range', dict(start=2, stop=1)), ('range', dict(start=0, stop=5, only_new_items=True)),
    ('range', dict(start=0, stop=5, only_new_items=True, ignore_no_item_found=True, peek=True)),
    ('range', dict(start=0.5, stop=1.5, start_le=True, stop_ge=True)), ('range', dict(start='a', stop=None)),
    ('range', dict(start=0, stop='z', stop_ge=True)), ('range', dict(start=None, stop=2, start_le=True)),
    ('range', dict(start=0, stop=99, stop_ge=True, ignore_no_item_found=True)), ('range', dict(start=0, stop=5, step=0)),
    ('range', dict(start='FAILS', stop=3)), ('range', dict(start='FAILS', stop=3, start_le=True)),
    ('range', dict(start=1, stop='FAILS', stop_ge=True)),
]
STREAM_CALLS = [('start', []), ('stop', []), ('mk_reader', []), ('__next__', []), ('drop', []), ('drop', [2]), ('drop', [99]),
                ('drop', ['x']), ('__call__', []), ('is_running', None), ('source_reader_info', None)]


def run_access(case):
    from .stream import ScriptSource, make
    a = case['access']
    with Stage(limit=300) as st, Watch() as w:
        try:
            src = ScriptSource(case['items'], key=case.get('key'), end='stop')
            s = make(st, src, maxlen=case['maxlen'], auto_drop=case['auto_drop'])
            src.stop = s.stop

            def env(what, x):
                if st.steps > 60:
                    st.env = None
                    s.stop()
            st.env = env
            try:
                s.start()
                st.threads[-1].run_now()
                w.idle('the reading thread')
                r = s.mk_reader()
                for _ in range(case['seen']):
                    try:
                        r.read()
                    except Exception:
                        pass
                if a[0] == 'reader':
                    kw = {k: Fails() if v == 'FAILS' else v for k, v in a[2].items()}
                    args = [kw.pop('start'), kw.pop('stop')] if a[1] == 'range' else []
                    getattr(r, a[1])(*args, **kw)
                elif a[0] == 'iter':
                    list(r)
                elif a[2] is None:
                    getattr(s, a[1])
                else:
                    getattr(s, a[1])(*a[2])
            except Exception:
                pass
            w.idle(f'{a[1]}')
        except (Reentered, TooLong) as e:
            w.fail(f'{a[1]}: {e}')
        if w.bad:
            return f'{case}: {w.bad}'
    return None


def c06(tier, seed, budget):
    rep = Report('every operation of stream and readers, with valid and failing arguments and contents, run under a monitor '
                 'of the buffer lock and the window; non-trivial: distinct call and contents', ('harness.readers', 'replay'),
                 'windows of <= 4 items')
    rnd = random.Random(seed)
    calls = [['reader', n, k] for n, k in READER_CALLS] + [['iter', 'iter', {}]] + [['stream', n, k] for n, k in STREAM_CALLS]
    t0 = time.time()
    todo = []
    for items, seen, maxlen, ad, key in itertools.product(([], [1], [1, 2, 3], [3, 1], [1, 'a'], [1, None, 2], [1, 1, 2, 'raise']),
                                                          (0, 1, 3), (2, 100), (True, False), (None, 'fails')):
        if ad and maxlen == 2 and seen == 1:
            continue
        for c in calls:
            todo.append(dict(access=c, items=items, seen=seen, maxlen=maxlen, auto_drop=ad, key=key))
    rnd.shuffle(todo)
    lim = {'quick': 12, 'search': 60}.get(tier, 300)
    for c in todo:
        if time.time() - t0 > lim:
            break
        rep.case(repr(c))
        v = run_access(c)
        if v:
            rep.violation(v, c)
            if len(rep.violations) >= 3:
                break
    return rep.result()
