"""Contracts of the reader-writer lock: permission accounting for an arbitrary thread (concurrent separation logic
with counting permissions).

Resources.  Each light switch S has a mutex, a counter and a group lock.  Invariant of S while its mutex is free:
  counter(S) = number of shares of S held by all threads, and S itself holds its group lock iff counter(S) > 0.
The read switch's group lock is `no_writers`, the write switch's is `no_readers`.

Contracts (holdings of the calling thread before -> after, nothing else held):
  reader_acquire: {}                                -> {a read share}
  reader_release: {a read share}                    -> {}
  writer_acquire: {}                                -> {a write share, no_writers itself}
  writer_release: {a write share, no_writers}       -> {}
The other threads are arbitrary: whenever a mutex is taken, the counter it protects has any value allowed by the
invariant.  A lock is exclusive, so a reader (whose share makes the read switch hold no_writers) and a writer (which
holds no_writers itself) cannot coexist, nor can two writers: C05.

Deadlock freedom (C21): whenever a thread asks for a lock, everything it already holds ranks strictly below what it may
have to wait for, so a cycle of waiting threads is impossible.  Writer priority (C21): a read share is created only by a
thread that holds no_readers itself, which it cannot while a write share exists."""
import z3
from pyve.interp import Engine, State, is_raise
from pyve.solver import fresh_int
from pyve.values import *
from pyve.natives import NLock
from pyve.contract import Contract

import stream2py.utility.reader_writer_lock as _rw

RWLock = _rw.RWLock


class Protected:
    """value of a switch counter while its mutex is not held"""

    def __repr__(self):
        return '<counter outside its mutex>'


PROT = Protected()

# rank of each resource; a group lock has one rank held by a single thread and one held by its switch; a switch mutex
# has one rank when taken with the counter at 0 (its holder may wait for the group lock) and one when taken with a
# positive counter (a thread that has a share of the switch can meet only the latter)
RANK = {'queue': 1, 'no_readers@switch': 2, 'write_mutex@first': 3, 'no_readers@thread': 4, 'no_writers@switch': 5,
        'read_mutex@first': 6, 'no_writers@thread': 7, 'write_mutex@shared': 8, 'read_mutex@shared': 8}


class Roles:
    """which object of the lock plays which role"""

    def __init__(self, st, ref):
        f = {k.split('__')[-1]: v for k, v in st.get(ref).fields.items()}
        want = {'read_switch', 'write_switch', 'no_readers', 'no_writers', 'readers_queue'}
        if set(f) != want:
            raise Unsupported(f'representation of RWLock changed: {sorted(f)}')
        self.queue = f['readers_queue'].oid
        self.group = {}          # group lock oid -> switch name
        self.switch = {}         # name -> (switch ref, mutex oid, counter field, group lock oid)
        self.mutex = {}          # mutex oid -> switch name
        for nm, g in (('read', 'no_writers'), ('write', 'no_readers')):
            sw = f[nm + '_switch']
            o = st.get(sw)
            locks = [k for k, v in o.fields.items() if isinstance(v, Ref) and st.get(v).cls is NLock]
            ctrs = [k for k, v in o.fields.items() if isinstance(v, int) and not isinstance(v, bool)]
            if len(locks) != 1 or len(ctrs) != 1 or len(o.fields) != 2:
                raise Unsupported('representation of the light switch changed')
            m = o.fields[locks[0]].oid
            self.switch[nm] = (sw, m, ctrs[0], f[g].oid)
            self.mutex[m] = nm
            self.group[f[g].oid] = nm
        self.no_readers, self.no_writers = f['no_readers'].oid, f['no_writers'].oid
        for l in [f['no_readers'], f['no_writers'], f['readers_queue']]:
            if not isinstance(l, Ref) or st.get(l).cls is not NLock:
                raise Unsupported('representation of RWLock changed')
        self.all = [self.queue, self.no_readers, self.no_writers] + list(self.mutex)
        self.name = {self.queue: 'queue', self.no_readers: 'no_readers', self.no_writers: 'no_writers'}
        for m, nm in self.mutex.items():
            self.name[m] = nm + '_mutex'


def holdings(st, roles, own, shares):
    """names of the ranked resources a thread holds"""
    out = []
    for l in own:
        nm = roles.name[l]
        if l in roles.group:
            nm += '@thread'
        elif l in roles.mutex:
            nm += '@first' if st.ghost['first'][roles.mutex[l]] else '@shared'
        out.append(nm)
    for nm, k in shares.items():
        if k > 0:
            out.append(roles.name[roles.switch[nm][3]] + '@switch')
    return out


ORDER = ('lock order', 'a reader is admitted', 'is not acquired by a thread')
END = ('held by the thread afterwards', 'share(s) afterwards', 'released only', 'returns')


def focus_c05(name):
    return not any(x in name for x in ORDER)


def focus_c21(name):
    return any(x in name for x in ORDER + END)


def mk_engine(focus=None):
    eng = Engine()
    eng.focus = focus

    def counter_of(ref):
        for nm, (sw, m, c, g) in eng.roles.switch.items():
            if sw.oid == ref.oid:
                return nm, c
        return None, None

    def getfield(eng, st, ref, name):
        nm, c = counter_of(ref)
        if nm is not None and name == c and st.get(ref).fields[name] is PROT:
            eng.oblige(st, f'the {nm} counter is accessed only under its mutex', False)
            raise Unsupported('unprotected access')

    def setfield(eng, st, ref, name, val):
        nm, c = counter_of(ref)
        if nm is not None and name == c and st.get(ref).fields[name] is PROT:
            eng.oblige(st, f'the {nm} counter is accessed only under its mutex', False)
            raise Unsupported('unprotected access')

    def lock(eng, st, ref, what, args, kw):
        patient = True
        if what == 'acquire' and (args or kw):
            given = dict(zip(('blocking', 'timeout'), args), **kw)
            if len(args) > 2 or set(given) - {'blocking', 'timeout'} or \
                    not all(isinstance(x, (bool, int, float)) for x in given.values()):
                raise Unsupported('lock operation with arguments')
            patient = bool(given.get('blocking', True)) and given.get('timeout', -1) < 0
        elif args or kw:
            raise Unsupported('lock operation with arguments')
        r, l = eng.roles, ref.oid
        if l not in r.name:
            raise Unsupported('an unknown lock')
        own, shares, sw = st.ghost['own'], dict(st.ghost['shares']), dict(st.ghost['sw'])
        name = r.name[l]
        if what == 'acquire':
            if not patient:
                # an attempt that gives up: nothing changes (and nothing is waited for without end)
                f = st.copy()
                f.log('acquire', name, 'gives up')
                yield f, False
                if l in own:
                    return
            elif not eng.oblige(st, f'{name} is not acquired by a thread that already holds it', l not in own):
                return
            mine = holdings(st, r, own, shares)
            modes = [name]
            if l in r.group:
                s = r.group[l]
                modes = [name + '@thread', name + '@switch']
                if s in sw and not sw[s][1]:
                    modes = [name + '@thread']     # its counter was 0 under the mutex this thread holds
            if l in r.mutex:
                modes = [name + '@shared'] + ([] if shares[r.mutex[l]] > 0 else [name + '@first'])
            for h in mine if patient else ():
                for m in modes:
                    eng.oblige(st, f'lock order: {h} is held while waiting for {m}', RANK[h] < RANK[m])
            if l in r.mutex:
                s = r.mutex[l]
                ref_, _, c, g = r.switch[s]
                for zero in (True, False):
                    a = st.copy()
                    c0 = fresh_int(f'{s}_counter')
                    a.assume(c0 >= shares[s])
                    a.assume(c0 == 0 if zero else c0 > 0)
                    if not zero and g in own:
                        continue        # the switch and this thread cannot both hold the group lock
                    if not eng.feasible(a):
                        continue
                    a.setf(ref_, c, 0 if zero else SInt(c0))
                    a.ghost['own'] = own | {l}
                    a.ghost['first'] = {**a.ghost['first'], s: zero}
                    a.ghost['sw'] = {**sw, s: (0 if zero else c0, not zero)}
                    a.log('acquire', name, 'counter 0' if zero else 'counter > 0')
                    yield a, True
                return
            st.ghost['own'] = own | {l}
            st.log('acquire', name)
            yield st, True
            return
        # release
        if l in r.mutex:
            s = r.mutex[l]
            ref_, _, c, g = r.switch[s]
            if not eng.oblige(st, f'{name} is released only by the thread that holds it', l in own):
                return
            c0, root = sw[s]
            c1 = as_int(st.f(ref_, c))
            if c1 is None:
                raise Unsupported('counter value')
            d = simp(zint(c1) - zint(c0))
            d = d if isinstance(d, int) else (z3.simplify(d).as_long() if z3.is_int_value(z3.simplify(d)) else None)
            if d is None:
                raise Unsupported('counter changed by an unknown amount')
            shares[s] += d
            eng.oblige(st, f'the {s} counter only gives back shares the thread has', shares[s] >= 0)
            if s == 'read' and d > 0:
                eng.oblige(st, 'a reader is admitted only by a thread that holds no_readers itself (no writer waits)',
                           r.no_readers in own)
            for a, pos in eng.branch(st, simp(zint(c1) > 0)):
                o2 = own - {l}
                if pos:
                    if not eng.oblige(a, f'while the {s} counter is positive its switch holds {r.name[g]}',
                                      root or g in own):
                        continue
                    if not root:
                        o2 = o2 - {g}
                else:
                    eng.oblige(a, f'the {s} counter is never negative', simp(zint(c1) >= 0))
                    if not eng.oblige(a, f'when the {s} counter is zero its switch does not hold {r.name[g]}', not root):
                        continue
                a.ghost['own'] = o2
                a.ghost['shares'] = dict(shares)
                x = dict(sw)
                del x[s]
                a.ghost['sw'] = x
                a.setf(ref_, c, PROT)
                a.log('release', name)
                yield a, None
            return
        if l in own:
            st.ghost['own'] = own - {l}
        elif l in r.group and sw.get(r.group[l], (0, False))[1]:
            s = r.group[l]
            st.ghost['sw'] = {**sw, s: (sw[s][0], False)}
        else:
            eng.oblige(st, f'{name} is released only by the thread (or, under its mutex, the switch) that holds it', False)
            return
        st.log('release', name)
        yield st, None

    eng.hooks.update(lock=lock, getfield=getfield, setattr=setfield)
    return eng


def start(eng, own=(), shares=None):
    st = State()
    saved = dict(eng.hooks)
    eng.hooks.clear()
    res = [x for x in eng.instantiate(st, RWLock, [], {})]
    eng.hooks.update(saved)
    if len(res) != 1 or is_raise(res[0][1]):
        raise Unsupported('constructor of RWLock')
    s, ref = res[0]
    eng.roles = r = Roles(s, ref)
    for nm, (sw, m, c, g) in r.switch.items():
        s.setf(sw, c, PROT)
    s.ghost['own'] = frozenset(getattr(r, x) for x in own)
    s.ghost['shares'] = {'read': 0, 'write': 0, **(shares or {})}
    s.ghost['sw'], s.ghost['first'] = {}, {}
    return s, ref


SPEC = {
    'reader_acquire': (((), {}), ((), {'read': 1})),
    'reader_release': (((), {'read': 1}), ((), {})),
    'writer_acquire': (((), {}), (('no_writers',), {'write': 1})),
    'writer_release': ((('no_writers',), {'write': 1}), ((), {})),
}


def method(nm, focus):
    (own0, sh0), (own1, sh1) = SPEC[nm]
    f = getattr(RWLock, nm)

    def scenarios():
        def setup(eng):
            s, ref = start(eng, own0, sh0)
            yield s, [ref], {}
        yield 'arbitrary other threads', setup

    def post(eng, pre, s, args, out, rep):
        r = eng.roles
        if not eng.oblige(s, f'{nm} returns', not is_raise(out)):
            return
        want = frozenset(getattr(r, x) for x in own1)
        have = s.ghost['own']
        for l in r.all:
            if l in want:
                eng.oblige(s, f'{nm}: {r.name[l]} is held by the thread afterwards', l in have)
            else:
                eng.oblige(s, f'{nm}: {r.name[l]} is not held by the thread afterwards', l not in have)
        for k in ('read', 'write'):
            eng.oblige(s, f'{nm}: the thread has {sh1.get(k, 0)} {k} share(s) afterwards',
                       s.ghost['shares'][k] == sh1.get(k, 0))
    c = Contract(f'RWLock.{nm}', f, None, scenarios, post=post)
    c.mk_engine = lambda: mk_engine(focus)
    return c


def constructor():
    def scenarios():
        def setup(eng):
            yield State(), [], {}
        yield 'new lock', setup

    def run(eng, st, args, kw):
        yield from eng.instantiate(st, RWLock, [], {})

    def post(eng, pre, s, args, out, rep):
        if is_raise(out):
            eng.oblige(s, 'RWLock(): returns', False)
            return
        r = Roles(s, out)
        eng.oblige(s, 'RWLock(): all locks are distinct', len(set(r.all)) == 5)
        eng.oblige(s, 'RWLock(): no lock is held', all(not s.f(Ref(l), 'held') for l in r.all))
        eng.oblige(s, 'RWLock(): all counters are 0', all(s.f(sw, c) == 0 for sw, m, c, g in r.switch.values()))
    return Contract('RWLock.__init__', RWLock.__init__, None, scenarios, run=run, post=post)


def exclusion_lemma():
    """invariants and contracts imply mutual exclusion, for any numbers of readers and writers"""
    def scenarios():
        def setup(eng):
            yield State(), [], {}
        yield 'any population', setup

    def run(eng, st, args, kw):
        yield st, None

    def post(eng, pre, s, args, out, rep):
        T = z3.DeclareSort('Thread')
        reads, owner = z3.Function('reads', T, z3.BoolSort()), z3.Const('nw_owner', T)
        free, bysw = z3.Bools('nw_free nw_by_switch')
        writes = z3.Function('writes', T, z3.BoolSort())
        cr = z3.Int('read_counter')
        t, u = z3.Consts('t u', T)
        x = z3.Const('x', T)
        # contracts: a writing thread holds no_writers itself; a reading thread has a read share, so the counter is
        # positive and (invariant) the switch holds no_writers; a lock has at most one holder
        st = s.copy()
        for y in (t, u):
            st.assume(z3.Implies(writes(y), z3.And(z3.Not(free), z3.Not(bysw), owner == y)))
            st.assume(z3.Implies(reads(y), cr >= 1))
        st.assume(z3.Implies(cr > 0, z3.And(bysw, z3.Not(free))))
        eng.oblige(st, 'no thread reads while another writes', z3.Not(z3.And(writes(t), reads(u))))
        eng.oblige(st, 'no two threads write', z3.Implies(z3.And(writes(t), writes(u)), t == u))
    return Contract('lemma: the contracts of the lock give mutual exclusion', None, None, scenarios, run=run, post=post)


def for_c05():
    return [constructor()] + [method(m, focus_c05) for m in SPEC] + [exclusion_lemma()]


def for_c21():
    return [constructor()] + [method(m, focus_c21) for m in SPEC]
