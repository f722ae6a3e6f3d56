"""Schedules of the real reader-writer lock (C05, C21): threading.Lock is replaced by a lock that hands control to a
deterministic scheduler; every statement (or read of an attribute) of the lock's source is a scheduling point."""
import importlib.util
import itertools
import random
import sys
import threading
import time

from . import Report
from .sched import Sched, Preempt, scheduled_locks, random_choice, Deadlock, instrumented, _point


def load():
    """the lock module executed with scheduled locks in place of threading.Lock, once with statements and once with reads of
    attributes as scheduling points"""
    spec = importlib.util.find_spec('stream2py.utility.reader_writer_lock')
    out = []
    with scheduled_locks():
        for fine in (False, True):
            m = importlib.util.module_from_spec(spec)
            m.__dict__['__pt__'] = _point
            exec(instrumented(spec.origin, fine), m.__dict__)
            out.append(m)
    return out


class Monitor:
    def __init__(self):
        self.readers, self.writers = set(), set()
        self.inside = {}            # task name -> operation in progress
        self.wait_since = {}        # writer name -> True once it is certainly registered as waiting
        self.bad = None

    def fail(self, what):
        if self.bad is None:
            self.bad = what


def make_lock(mod):
    with scheduled_locks():
        return mod.RWLock()


def scenario(mods, plan, choose, opcodes):
    """plan: per thread a string of r (read session) and w (write session); returns (sched, monitor)"""
    lock = make_lock(mods[bool(opcodes)])
    mon = Monitor()
    s = Sched(choose)

    def body(name, word):
        def f():
            for ch in word:
                if ch == 'r':
                    mon.inside[name] = 'reader_acquire'
                    lock.reader_acquire()
                    mon.inside.pop(name)
                    if mon.writers:
                        mon.fail(f'{name} reads while {sorted(mon.writers)} writes')
                    if mon.wait_since:
                        mon.fail(f'priority: {name} admitted for reading while {sorted(mon.wait_since)} was waiting to write')
                    mon.readers.add(name)
                    choose.here = True
                    s.point()
                    choose.here = True
                    s.point()
                    mon.readers.discard(name)
                    mon.inside[name] = 'reader_release'
                    lock.reader_release()
                    mon.inside.pop(name)
                else:
                    mon.inside[name] = 'writer_acquire'
                    lock.writer_acquire()
                    mon.inside.pop(name)
                    if mon.writers or mon.readers:
                        mon.fail(f'{name} writes while {sorted(mon.writers | mon.readers)} holds the lock')
                    mon.writers.add(name)
                    choose.here = True
                    s.point()
                    choose.here = True
                    s.point()
                    mon.writers.discard(name)
                    mon.wait_since.pop(name, None)      # it has had its turn
                    mon.inside[name] = 'writer_release'
                    lock.writer_release()
                    mon.inside.pop(name)
        return f

    def on_step(s, live, run):
        # a writer blocked in its acquisition while no other thread is inside an operation of the lock (other than
        # blocked writers) is certainly registered as waiting
        busy = [n for n in mon.inside if mon.inside[n] != 'writer_acquire']
        blocked = {t.name for t in live if t.blocked is not None and t.blocked.taken}
        inw = [n for n in mon.inside if mon.inside[n] == 'writer_acquire']
        if not busy and inw and all(n in blocked for n in inw):
            for n in inw:
                mon.wait_since[n] = True
    s.on_step = on_step
    for k, w in enumerate(plan):
        s.spawn(f'T{k}({w})', body(f'T{k}({w})', w))
    with scheduled_locks():
        s.run()
    for t in s.tasks:
        if t.error is not None and mon.bad is None:
            mon.fail(f'{t.name}: {type(t.error).__name__}: {t.error}')
    if mon.bad is None and s.deadlock:
        mon.fail('deadlock: ' + ', '.join(f'{t.name} in {mon.inside.get(t.name)}' for t in s.tasks if not t.done))
    if mon.bad is None and all(t.done for t in s.tasks):
        try:
            lock.writer_acquire()
            lock.writer_release()
            lock.reader_acquire()
            lock.reader_release()
        except (Deadlock, RuntimeError) as e:
            mon.fail(f'free: after all holders released the lock is not free: {e}')
    return s, mon


def together(mods, n, choose, opcodes=False):
    """n readers are let in before any leaves"""
    lock = make_lock(mods[bool(opcodes)])
    s = Sched(choose)
    inside, bad = [], []

    def f():
        lock.reader_acquire()
        inside.append(1)
        for _ in range(3000):
            if len(inside) == n:
                break
            s.point()
        lock.reader_release()
    for k in range(n):
        s.spawn(f'R{k}', f)
    with scheduled_locks():
        s.run()
    return None if len(inside) == n and not s.deadlock else f'only {len(inside)} of {n} readers could hold the lock at once'


def crowd(n):
    """n readers hold the real lock at once; after all have left a writer gets in"""
    from stream2py.utility.reader_writer_lock import RWLock
    lock = RWLock()
    inside, go, left = [], threading.Event(), []

    def f():
        try:
            lock.reader_acquire()
            inside.append(1)
            go.wait(20)
            lock.reader_release()
            left.append(1)
        except BaseException as e:
            left.append(e)

    def w():
        lock.writer_acquire()
        lock.writer_release()
    ts = [threading.Thread(target=f, daemon=True) for _ in range(n)]
    for t in ts:
        t.start()
    end = time.time() + 5
    while len(inside) < n and time.time() < end and not left:
        time.sleep(.002)
    k = len(inside)
    go.set()
    for t in ts:
        t.join(.2 if k < n else 5)
    if k < n:
        return f'only {k} of {n} readers could hold the lock at once'
    if left != [1] * n:
        return f'{n} readers: releasing fails with {[x for x in left if x != 1][:1]}'
    t = threading.Thread(target=w, daemon=True)
    t.start()
    t.join(5)
    return f'the lock is not free after {n} readers have left' if t.is_alive() else None


def overtaken(mods, k, opcodes, leave):
    """reader A is inside; reader B asks and is held up after k steps; then writer W asks, until it waits.
    leave: A leaves with B still held up, does W get in?  else: B goes on with A still inside, does it get in before W?"""
    lock = make_lock(mods[bool(opcodes)])
    got, state = [], dict(phase=0, left=k, leave=False)

    def a():
        lock.reader_acquire()
        got.append('A')
        while not state['leave']:
            s.point()
        lock.reader_release()

    def b():
        lock.reader_acquire()
        got.append('B')

    def w():
        lock.writer_acquire()
        got.append('W')
        lock.writer_release()

    def choose(run, cur):
        st = state
        if st['phase'] == 0:
            if 'A' not in got:
                return A if A in run else None
            st['phase'] = 1
        if st['phase'] == 1:
            if 'B' in got or B not in run:
                return None                      # B was let in, or waits itself: nothing to see
            if st['left'] > 0:
                st['left'] -= 1
                return B
            st['phase'] = 2
        if st['phase'] == 2:
            if 'W' in got:
                return None
            if W in run:
                return W
            st['phase'], st['leave'] = 3, leave
        if 'W' in got or 'B' in got:
            return None
        st['steps'] = st.get('steps', 0) + 1
        if st['steps'] > 600:
            return None
        if leave:
            return W if W in run else A if A in run else None
        return B if B in run else None
    s = Sched(choose)
    A, B, W = s.spawn('A', a), s.spawn('B', b), s.spawn('W', w)
    with scheduled_locks():
        s.run()
    return state['phase'] == 3 and got[1:] == (['W'] if leave else ['B'])


def overtaking(mods, k, opcodes):
    if overtaken(mods, k, opcodes, True) and overtaken(mods, k, opcodes, False):
        return (f'priority: a reader that asked first and was held up after {k} steps is admitted, although a writer waits that '
                'would be next as soon as the reader inside left')


def queued(mods, holder, asks, order, opcodes):
    """holder is inside; the others ask one after the other, each until it is let in or waits; then the holder leaves and
    the others go on in the given order: no reader that was still waiting is let in before a writer that was waiting"""
    lock = make_lock(mods[bool(opcodes)])
    got, state = [], dict(next=0, leave=False, waiting=())

    def hold():
        (lock.reader_acquire if holder == 'r' else lock.writer_acquire)()
        got.append('H')
        while not state['leave']:
            s.point()
        (lock.reader_release if holder == 'r' else lock.writer_release)()

    def ask(k):
        def f():
            if asks[k] == 'r':
                lock.reader_acquire()
                got.append(k)
                lock.reader_release()
            else:
                lock.writer_acquire()
                got.append(k)
                lock.writer_release()
        return f

    def choose(run, cur):
        st = state
        if 'H' not in got:
            return tasks[-1] if tasks[-1] in run else None
        while st['next'] < len(asks):
            t = tasks[st['next']]
            if not t.done and t in run:
                return t
            st['next'] += 1
        if not st['leave']:
            st['waiting'] = tuple(k for k in range(len(asks)) if k not in got)
            st['leave'] = True
        for t in [tasks[-1]] + [tasks[k] for k in order]:
            if t in run:
                return t
        return None
    s = Sched(choose)
    tasks = [s.spawn(f'{k}{a}', ask(k)) for k, a in enumerate(asks)]
    tasks.append(s.spawn('H', hold))
    with scheduled_locks():
        s.run()
    after = [k for k in got if k in state['waiting']]
    late = [k for k in after if asks[k] == 'w']
    if s.deadlock or late and any(asks[k] == 'r' for k in after[:after.index(late[-1])]):
        names = lambda ks: [f'{"reader" if asks[k] == "r" else "writer"} {k}' for k in ks]
        return (f'priority: a {"reader" if holder == "r" else "writer"} is inside, {names(range(len(asks)))} ask one after the other, '
                f'waiting when it leaves are {names(state["waiting"])}, let in then, in order: {names(after)}' + (', then a deadlock' if s.deadlock else ''))


def with_blocks(mods, contents, plan, choose, opcodes):
    """threads that use the with-blocks of the locked deque: r reads, w writes, e writes and fails, x reads and fails"""
    m = mods[bool(opcodes)]
    spec = importlib.util.find_spec('stream2py.utility.locked_sorted_deque')
    if not hasattr(m, '__deque__'):
        d = importlib.util.module_from_spec(spec)
        d.__dict__['__pt__'] = _point
        nm = 'stream2py.utility.reader_writer_lock'
        old = sys.modules.get(nm)
        sys.modules[nm] = m
        try:
            with scheduled_locks():
                exec(instrumented(spec.origin, opcodes), d.__dict__)
        finally:
            sys.modules.pop(nm, None)
            if old is not None:
                sys.modules[nm] = old
        m.__deque__ = d
    with scheduled_locks():
        ld = m.__deque__.RWLockSortedDeque(list(contents))
    s = Sched(choose)
    inside, bad = {'r': 0, 'w': 0}, []

    class Mine(Exception):
        pass

    def body(word):
        def f():
            for ch in word:
                mode = 'r' if ch in 'rx' else 'w'
                try:
                    with (ld.reader_lock() if mode == 'r' else ld.writer_lock()) as d:
                        inside[mode] += 1
                        if inside['w'] > 1 or inside['w'] and inside['r']:
                            bad.append(f'{inside["r"]} read and {inside["w"]} write at once')
                        choose.here = True
                        s.point()
                        if mode == 'w':
                            d.append(len(d) + 100)
                        choose.here = True
                        s.point()
                        inside[mode] -= 1
                        if ch in 'xe':
                            raise Mine
                except Mine:
                    pass
        return f
    for k, w in enumerate(plan):
        s.spawn(f'T{k}({w})', body(w))
    with scheduled_locks():
        s.run()
    if not bad and s.deadlock:
        bad.append('deadlock')
    for t in s.tasks:
        if t.error is not None:
            bad.append(f'{t.name}: {type(t.error).__name__}: {t.error}')
    return f'blocks of a locked deque of {list(contents)!r}, threads {plan}: {bad[0]}' if bad else None


def parked(rnd):
    """a thread goes on until it has to wait, but may be left where it is inside its block"""
    def choose(run, cur):
        here, choose.here = choose.here, False
        if cur in run and not here and rnd.random() > .02:
            return cur
        return rnd.choice(run)
    choose.here = False
    return choose


def block_choice(sd, p):
    return parked(random.Random(sd)) if p == 3 else random_choice(random.Random(sd), (.05, .3, .6)[p])


BLOCKS = [((1,), ('rr', 'r', 'w')), ((), ('r', 'r', 'ww')), ((1, 2), ('r', 'xr', 'e')), ((), ('r', 'w')), ((1, 2), ('r', 'w')), ((), ('w', 'w')), ((), ('xr', 'w')), ((1,), ('e', 'w')), ((), ('r', 'r', 'w')),
          ((1, 2), ('ew', 'xr')), ((), ('wr', 'rw')), ((1,), ('rr', 'ww'))]

PLANS = [('r', 'w'), ('w', 'w'), ('r', 'r', 'w'), ('r', 'w', 'w'), ('rr', 'w'), ('r', 'w', 'r'), ('w', 'r', 'w'),
         ('r', 'r', 'w', 'w'), ('rw', 'wr'), ('ww', 'r'), ('rr', 'ww'), ('r', 'r', 'r', 'w'), ('r', 'w', 'r', 'w', 'r')]


def kind_of(prop, what):
    if prop == 'C05':
        return not what.startswith('priority') and not what.startswith('deadlock')
    return what.startswith('priority') or what.startswith('deadlock') or 'RuntimeError' in what


def _run(prop, tier, seed, budget):
    mods = load()
    rep = Report('schedules of 2-5 threads doing read/write sessions, every statement (or read of an attribute) of the lock a switch '
                 'point; distinct: plan and schedule', ('harness.locks', 'replay'),
                 'up to 3 preemptions exhaustively for the small plans, random beyond')
    t0 = time.time()
    b = {'quick': 25, 'search': 60}.get(tier, 600)
    rnd = random.Random(seed)

    def record(plan, ch, opc, s, mon):
        rep.case(f'{plan} {"reads" if opc else "lines"} {hash(tuple(t[0] for t in ch.trace)) if isinstance(ch, Preempt) else s.steps}')
        if mon.bad and kind_of(prop, mon.bad):
            rep.violation(f'threads {plan}: {mon.bad}',
                          dict(prop=prop, plan=list(plan), opc=opc,
                               sched=[t[0] for t in ch.trace] if isinstance(ch, Preempt) else None))
    for n in (2, 3, 4):
        for k in range(6):
            bad = together(mods, n, random_choice(random.Random(seed * 100 + k)))
            rep.case(f'together {n} {k}')
            if bad and prop == 'C05':
                rep.violation(bad, dict(prop=prop, together=n))
    if prop == 'C05':
        for n in (17, 70, 300):
            bad = None if rep.violations else crowd(n)
            rep.case(f'crowd {n}')
            if bad:
                rep.violation(bad, dict(prop=prop, crowd=n))
        tb, k = time.time(), 0
        while k < 12 * len(BLOCKS) or k < 60 * len(BLOCKS) and time.time() - tb < b * 0.3:
            c, plan = BLOCKS[k % len(BLOCKS)]
            n = k // len(BLOCKS)
            arg = [list(c), list(plan), seed * 1000 + k, n % 2]
            p = (3, 0, 3, 1, 3, 2)[n // 2 % 6]
            bad = with_blocks(mods, c, plan, block_choice(arg[2], p), arg[3])
            rep.case(f'blocks {arg}')
            k += 1
            if bad:
                rep.violation(bad, dict(prop=prop, blocks=arg, p=p))
                break
    for opc in (False, True):
        for k in range(120 if opc else 40):
            bad = overtaking(mods, k, opc) if prop == 'C21' else None
            rep.case(f'overtaking {k} {opc}')
            if bad:
                rep.violation(bad, dict(prop=prop, overtaking=[k, opc]))
    if prop == 'C21':
        for n in (2, 3):
            for holder, asks, order, opc in itertools.product('rw', itertools.product('rw', repeat=n), itertools.permutations(range(n)), (False, True)):
                bad = queued(mods, holder, asks, order, opc)
                rep.case(f'queued {holder} {asks} {order} {opc}')
                if bad and len(rep.violations) < 3:
                    rep.violation(bad, dict(prop=prop, queued=[holder, list(asks), list(order), opc]))
    # systematic with few preemptions at statement granularity
    for plan in PLANS[:8]:
        todo, seen = [((), 0)], 0
        share = b * 0.6 / 8
        t1 = time.time()
        while todo and time.time() - t1 < share and not rep.violations:
            prefix, pre = todo.pop(0) if seen % 2 else todo.pop()
            seen += 1
            ch = Preempt(list(prefix))
            s, mon = scenario(mods, plan, ch, False)
            record(plan, ch, False, s, mon)
            tr = ch.trace
            for k in range(len(prefix), len(tr)):
                i, n, cont = tr[k]
                for alt in range(1, n):
                    p = pre + (1 if cont else 0)
                    if p <= 3 and len(todo) < 20000:
                        todo.append((tuple(x[0] for x in tr[:k]) + (alt,), p))
    # random, finer granularity
    while time.time() - t0 < b and not rep.violations:
        plan = rnd.choice(PLANS)
        opc = rnd.random() < 0.5
        pr = random.Random(rnd.random())
        pick = parked(pr) if rnd.random() < .4 else random_choice(pr, rnd.choice((0.05, 0.2, 0.5)))

        class Rec(Preempt):
            here = False

            def __call__(self, run, cur):
                pick.here, self.here = self.here, False
                t = pick(run, cur)
                opts = ([cur] if cur in run else []) + [x for x in run if x is not cur]
                self.trace.append((opts.index(t), len(opts), cur in run))
                return t
        ch = Rec([])
        s, mon = scenario(mods, plan, ch, opc)
        record(plan, ch, opc, s, mon)
    return rep.result()


def replay(d):
    mods = load()
    if 'together' in d:
        return together(mods, d['together'], random_choice(random.Random(1)))
    if 'crowd' in d:
        return crowd(d['crowd'])
    if 'queued' in d:
        return queued(mods, *d['queued'])
    if 'blocks' in d:
        c, plan, sd, opc = d['blocks']
        return with_blocks(mods, c, plan, block_choice(sd, d['p']), opc)
    if 'overtaking' in d:
        return overtaking(mods, *d['overtaking'])
    s, mon = scenario(mods, d['plan'], Preempt(d['sched']), d['opc'])
    return mon.bad


def c05(tier, seed, budget):
    return _run('C05', tier, seed, budget)


def c21(tier, seed, budget):
    return _run('C21', tier, seed, budget)
