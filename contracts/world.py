"""The world around the buffer: lock, environment threads, readers.

The reader-writer lock is used through its contract (proved for C05/C21): a thread that holds it for reading sees
buffer contents that nobody changes; a thread that holds it for writing is alone.  What other threads do in between is
the rely: the contents may be any well-formed contents at each new acquisition, the stop flag may become set at any
moment (and never becomes unset within a session)."""
from types import SimpleNamespace
import z3
from pyve.interp import Engine, State, is_raise
from pyve.solver import fresh, fresh_int, Item, RealS, BoolS, Opq
from pyve.values import *
from pyve.natives import NList, NEvent, NDict
from pyve.contract import Contract, Cmp, compare_with_spec, VIEWS, view_of, Anything, AnyExc
from pyve.loops import LoopSpec
from . import container
from .container import SD, V, ANY, fill

import stream2py.utility.reader_writer_lock as _rw
import stream2py.utility.locked_sorted_deque as _ld

RWLock, LD = _rw.RWLock, _ld.RWLockSortedDeque

SEARCH = ('find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'find_last_gt', '__contains__', 'index', 'count',
          '__getitem__', '__iter__', '__reversed__', 'range', 'range_by_index', 'copy')
MUTATE = ('insert', 'insert_right', 'remove', 'clear', 'append', 'drop')

REGISTRY = None


def registry():
    global REGISTRY
    if REGISTRY is None:
        REGISTRY = container.registry()
    return REGISTRY


class LockOp:
    """contract of one operation of the reader-writer lock, for its callers"""

    def __init__(self, what, mode):
        self.what, self.mode = what, mode
        self.name = f'RWLock.{what}'

    def apply(self, eng, st, args, kw):
        return self._apply(eng, st, args[0])

    def _apply(self, eng, st, lock):
        g = f'held{lock.oid}'
        held = st.ghost.get(g)
        if self.what.endswith('acquire'):
            if not eng.oblige(st, 'lock: it is not requested by a thread that holds it', held is None):
                return          # the thread would wait for itself
            st.ghost[g] = self.mode
            st.log('acquire', self.mode)
            rely_acquire(eng, st, lock)
        else:
            eng.oblige(st, 'lock: only a lock held that way is released', held == self.mode)
            st.ghost[g] = None
            st.log('release', self.mode)
        yield st, None


class Guarded:
    """contract of an operation on the window that also demands the lock of the buffer the window belongs to"""

    def __init__(self, c, need, anyexc):
        self.c, self.need, self.anyexc, self.name = c, need, anyexc, c.name

    def apply(self, eng, st, args, kw):
        r = self.c.apply(eng, st, args, kw)
        if r is None:
            return None
        return self._apply(eng, st, args, r)

    def _apply(self, eng, st, args, r):
        lock = getattr(eng, 'lock_of', {}).get(args[0].oid if isinstance(args[0], Ref) else None)
        if lock is not None:
            held = st.ghost.get(f'held{lock}')
            if self.need == 'w' and getattr(eng, 'readonly', False):
                eng.oblige(st, 'readers never change the buffered items', False)
            if self.need == 'w':
                eng.oblige(st, 'items are added or dropped only while holding the lock for writing', held == 'w')
            else:
                eng.oblige(st, 'items are searched or copied only while holding the lock', held in ('r', 'w'))
        if self.anyexc:
            s = st.copy()
            s.log('raise', self.name)
            yield s, Raise(Exc(Exception, ('any failure',), arbitrary=True))
        yield from r


def rely_acquire(eng, st, lock):
    """what other threads may have done before the lock was obtained"""
    w = getattr(eng, 'w', None)
    if w is None:
        return
    for ev in w.events:
        rely_flag(eng, st, ev)
    k = f'sections{lock.oid}'
    n = st.ghost.get(k, 0)
    if getattr(eng, 'rely_contents', None) is not None:
        eng.rely_contents(eng, st, lock)
    elif n:
        for d, l in eng.lock_of.items():
            if l == lock.oid:
                fill(eng, st, Ref(d), 'env', strict=True)
    st.ghost[k] = n + 1
    for ev in w.events:
        st.ghost[f'flag_at_section{ev.oid}'] = st.f(ev, 'set')


def rely_flag(eng, st, ev):
    v = st.f(ev, 'set')
    if v is True:
        return
    if getattr(eng.w, 'flag_stable', False):
        return
    b = fresh('stop', BoolS)
    if isinstance(v, SBool):
        st.assume(z3.Implies(v.t, b))
    st.setf(ev, 'set', SBool(b))


def mk_engine(focus=None, anyexc=False):
    eng = Engine()
    eng.none_items = False
    eng.focus = focus
    eng.lock_of = {}
    for fid, c in registry().items():
        nm = c.name.split('.')[-1]
        eng.contracts[fid] = Guarded(c, 'w' if nm in MUTATE else 'r', anyexc) if nm in SEARCH + MUTATE else c
    for what, mode in (('reader_acquire', 'r'), ('reader_release', 'r'), ('writer_acquire', 'w'), ('writer_release', 'w')):
        eng.contracts[id(getattr(RWLock, what))] = LockOp(what, mode)

    def event(eng, st, ref, what):
        if what == 'is_set':
            if any(ref == e for e in getattr(eng, 'w', SimpleNamespace(events=())).events):
                rely_flag(eng, st, ref)
    eng.hooks['event'] = event

    def getfield(eng, st, ref, name):
        lock = eng.lock_of.get(ref.oid)
        if lock is not None and name in ('_items', '_keys') and getattr(eng, 'guard_fields', True):
            eng.oblige(st, 'items are searched or copied only while holding the lock', st.ghost.get(f'held{lock}') is not None)
    eng.hooks['getfield'] = getfield
    return eng


def only(it, what):
    out = [x for x in it if not is_raise(x[1])]
    if len(out) != 1:
        raise Unsupported(f'{what}: {len(out)} outcomes')
    return out[0]


def mk_locked(eng, st, natural=False, maxlen='any', name='c', empty=False, key=None):
    """arbitrary locked buffer: yields (st, locked, window, key)"""
    K = None if natural else (key or KeyFn('key_' + name))
    if maxlen == 'any':
        m = fresh_int('maxlen')
        st.assume(m >= 1)
        maxlen = SInt(m)
    lst = st.alloc(NList, {'seq': Seq.concrete([])})
    g, eng.guard_fields = getattr(eng, 'guard_fields', True), False
    saved = {k: eng.contracts.pop(k) for k in [k for k, c in eng.contracts.items() if c.name.endswith('__init__')]}
    s, ref = only(eng.instantiate(st, LD, [lst], {'key': K, 'maxlen': maxlen}), 'RWLockSortedDeque(...)')
    eng.contracts.update(saved)
    eng.guard_fields = g
    ds = [v for v in s.get(ref).fields.values() if isinstance(v, Ref) and isinstance(s.get(v).cls, type)
          and issubclass(s.get(v).cls, SD)]
    if len(ds) != 1:
        raise Unsupported('representation of RWLockSortedDeque changed')
    d = ds[0]
    if not empty:
        fill(eng, s, d, name, strict=True)
    eng.lock_of[d.oid] = ref.oid
    s.ghost[f'held{ref.oid}'] = None
    s.ghost[f'sections{ref.oid}'] = 0
    return s, ref, d, K


def key_value(eng, st, d, item):
    """key(item) for the key function of the window"""
    k = V(eng, st, d).key
    s, v = only(eng.call(st, k, [item], {}), 'key')
    return v


class EnvLoop(LoopSpec):
    """loops of readers: other threads may do anything to the buffer between iterations"""
    ghost_ok = True

    def __init__(self, eng, st, extra=None):
        self.locs = set()
        for d in eng.lock_of:
            for f in ('_items', '_keys'):
                self.locs.add((st.f(Ref(d), f).oid, 'seq'))
        for e in eng.w.events:
            self.locs.add((e.oid, 'set'))
        self.extra = extra
        if extra is not None:
            self.locs |= extra.locs(eng, st)

    def handles(self, oid, f):
        return (oid, f) in self.locs

    def havoc(self, eng, st, fid):
        for d, l in eng.lock_of.items():
            fill(eng, st, Ref(d), 'loop', strict=True)
            st.ghost[f'sections{l}'] = 0
        for e in eng.w.events:
            rely_flag(eng, st, e)
        if self.extra is not None:
            yield from self.extra.havoc(eng, st)
        else:
            yield st

    def check(self, eng, st, fid, head):
        g0 = head[1]
        for k in set(g0) | set(st.ghost):
            if isinstance(k, str) and k.startswith('held'):
                eng.oblige(st, 'lock: not held between two rounds of a loop', st.ghost.get(k) is g0.get(k))
        if self.extra is not None:
            self.extra.check(eng, st, head)


def rebase(eng, pre, s):
    """the pre-state with what the environment did: contents at the last lock section, stop flags"""
    p = pre.copy()
    for d in eng.lock_of:
        if d in pre.heap:
            for f in ('_items', '_keys'):
                r = pre.f(Ref(d), f)
                if r.oid in s.heap:
                    p.heap[r.oid] = s.heap[r.oid]
    for e in eng.w.events:
        if e.oid in pre.heap:
            p.heap[e.oid] = s.heap[e.oid]
    return p


# ---- the with-blocks of the locked deque

def use_block(locked, mode, body):
    with (locked.reader_lock() if mode == 'r' else locked.writer_lock()) as d:
        return body(d)


def block(mode):
    """reader_lock() / writer_lock(): the body runs with the lock held that way, and gets the window; the lock is released
    afterwards, whatever becomes of the body"""
    nm = {'r': 'reader_lock', 'w': 'writer_lock'}[mode]

    def scenarios():
        for how in ('returns', 'raises an exception', 'is interrupted'):
            for natural in (False, True):
                def setup(eng, how=how, natural=natural):
                    st = State()
                    st, ld, d, K = mk_locked(eng, st, natural=natural)
                    st.ghost['bodies'] = 0

                    def body(eng, s, a, kw):
                        held = s.ghost.get(f'held{ld.oid}')
                        eng.oblige(s, f'{nm}: the lock is held for {"reading" if mode == "r" else "writing"} in the block', held == mode)
                        eng.oblige(s, f'{nm}: the block is given the window', len(a) == 1 and a[0] == d)
                        s.ghost['bodies'] += 1
                        yield s, (5 if how == 'returns' else Raise(Exc(
                            Exception if how == 'raises an exception' else KeyboardInterrupt, ('mine',))))
                    eng.blk = ld, how
                    yield st, [ld, mode, NativeFn(body, 'body')], {}
                yield f'the block {how}{", natural order" if natural else ""}', setup

    def run(eng, st, args, kw):
        yield from eng.call(st, use_block, args, {})

    def post(eng, pre, s, args, out, rep):
        ld, how = eng.blk
        eng.oblige(s, f'{nm}: the block is run once', s.ghost['bodies'] == 1)
        eng.oblige(s, f'{nm}: the lock is released afterwards', s.ghost.get(f'held{ld.oid}') is None)
        ok = out == 5 if how == 'returns' else is_raise(out) and out.exc.cls is (
            Exception if how == 'raises an exception' else KeyboardInterrupt)
        eng.oblige(s, f'{nm}: what becomes of the block is passed on', ok)
    c = Contract(f'RWLockSortedDeque.{nm}', getattr(LD, nm), None, scenarios, run=run, post=post)
    c.mk_engine = lambda: mk_engine(None)
    return c


def blocks():
    return [block('r'), block('w')]
