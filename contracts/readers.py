"""Contracts of BufferReader: what each query delivers for arbitrary buffer contents, cursor and options (C07-C11), and
lock discipline (C06).

The contents meant by a specification are those at the operation's section under the lock (no other thread can change
them during it)."""
import itertools
import threading
from types import SimpleNamespace
import z3
from pyve import hidden
from pyve.interp import State, is_raise
from pyve.solver import fresh, fresh_int, Item, RealS, BoolS, Opq
from pyve.values import *
from pyve.natives import NList, NEvent, NDict, sub
from pyve.contract import (Contract, Cmp, compare_with_spec, Anything, AnyExc, check)
from . import container, world
from .container import V, first, last, ANY
from .world import SD, LD, mk_locked, key_value, only, EnvLoop, rebase

import stream2py.buffer_reader as _br

BR = _br.BufferReader
CURSOR = ('_last_item', '_last_key')


# ------------------------------------------------------------------ arbitrary readers

def options(st, mode):
    """reader options given at construction"""
    if mode == 'fixed':
        return {}
    n = fresh_int('read_size')
    return dict(read_size=SInt(n), peek=SBool(fresh('dpeek', BoolS)), strict_n=SBool(fresh('dstrict', BoolS)),
                ignore_no_item_found=SBool(fresh('dignore', BoolS)))


def mk_reader(eng, st, locked, d, event, info, opts, cursor, cls=BR, name='r'):
    """a reader made by the real constructor, with an arbitrary cursor; yields (st, ref)"""
    g, eng.guard_fields = getattr(eng, 'guard_fields', True), False
    s, ref = only(eng.instantiate(st, cls, [], dict(buffer=locked, source_reader_info=info, stop_event=event, **opts)),
                  'BufferReader(...)')
    f = s.get(ref).fields
    if any(c not in f for c in CURSOR):
        raise Unsupported('representation of BufferReader changed')
    if cursor == 'some':
        x = SItem(fresh('last_' + name, Item))
        s.setf(ref, '_last_item', x)
        s.setf(ref, '_last_key', key_value(eng, s, d, x))
    eng.guard_fields = g
    return s, ref


class NoSeen:
    pass


def mk_world(eng, opts='fixed', cursor='some', natural=False, other=False, maxlen='any', flag='any', cls=BR):
    st = State()
    s, locked, d, K = mk_locked(eng, st, natural=natural, maxlen=maxlen)
    ev = s.alloc(NEvent, {'set': SBool(fresh('stopped', BoolS)) if flag == 'any' else flag})
    info = SOpq(fresh('info', Opq))
    eng.w = SimpleNamespace(locked=locked, deque=d, events=(ev,), event=ev, info=info)
    o = options(s, opts)
    eng.w.opts = dict(n=o.get('read_size', 1), peek=o.get('peek', False), strict_n=o.get('strict_n', False),
                      ignore_no_item_found=o.get('ignore_no_item_found', False))
    s, r = mk_reader(eng, s, locked, d, ev, info, o, cursor, cls)
    eng.w.reader = r
    eng.w.fixed_fields = set(s.get(r).fields)
    if other:
        s, eng.w.other = mk_reader(eng, s, locked, d, ev, info, options(s, 'any'), 'some', name='other')
    eng.loop_spec = lambda e, n, st_, fid: EnvLoop(e, st_, eng.w.loop_extra) if _env_loop(n) else None
    eng.w.loop_extra = None
    return s, r


def _env_loop(n):
    import ast
    return isinstance(n, ast.While) or isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
        (getattr(n.iter.func, 'id', None) or getattr(n.iter.func, 'attr', None)) in ('range', 'count', 'repeat')


def cursor_of(st, r):
    return st.f(r, '_last_item'), st.f(r, '_last_key')


def set_cursor(eng, st, r, item):
    st.setf(r, '_last_item', item)
    st.setf(r, '_last_key', key_value(eng, st, eng.w.deque, item))


# ------------------------------------------------------------------ specifications (over the contents in the state)

def VE(*a):
    return Raise(Exc(ValueError, ('spec',)))


def next_index(eng, st, v, r):
    """index of the first item after the cursor, or None"""
    li, lk = cursor_of(st, r)
    if li is None:
        for s, e in eng.branch(st, simp(v.zn == 0)):
            yield s, (None if e else 0)
        return
    k = as_key(lk)
    yield from first(eng, st, 0, v.n, lambda j: v.kt(j) > k)


def spec_read(eng, st, r, n, peek, ignore, strict):
    """yields (st, outcome, kind): kind in got, none, strict"""
    v = V(eng, st, eng.w.deque)
    for s, p in next_index(eng, st, v, r):
        if p is None:
            for s2, ig in eng.truth(s, ignore):
                yield s2, (None if ig else VE()), 'none'
            continue
        for s2, many in eng.branch(s, simp(zint(as_int(n)) > 1)):
            if not many:
                item = v.items.at(p)
                for s3, pk in eng.truth(s2, peek):
                    if not pk:
                        set_cursor(eng, s3, r, item)
                    yield s3, item, 'got'
                continue
            j = simp(zint(p) + zint(as_int(n)))
            for s3, short in eng.branch(s2, simp(zint(j) > v.zn)):
                for s4, st_ in (eng.truth(s3, strict) if short else [(s3, False)]):
                    if st_:
                        yield s4, VE(), 'strict'
                        continue
                    hi = v.n if short else j
                    for s5, pk in eng.truth(s4, peek):
                        lst = s5.alloc(NList, {'seq': sub(v.items, p, hi)})
                        if not pk:
                            set_cursor(eng, s5, r, v.items.at(simp(zint(hi) - 1)))
                        yield s5, lst, 'got'


READ_OPTS = ('n', 'peek', 'ignore_no_item_found', 'strict_n')


def effective(eng, given):
    """None means: the value given when the reader was made"""
    return {k: (given[k] if given.get(k) is not None else eng.w.opts[k]) for k in READ_OPTS}


class Choice:
    """any of the outcomes is right"""

    def __init__(self, *alts):
        self.alts = alts


def pick(want, out):
    if not isinstance(want, Choice):
        return want
    for a in want.alts:
        if (isinstance(a, (Raise, AnyExc)) == is_raise(out)) and (a is None) == (out is None):
            return a
    return want.alts[0]


class ReaderContract(Contract):
    """operation on a reader: run(eng, st, args); rspec(eng, st, args) yields (st, outcome) over the contents at the
    section under the lock"""

    def __init__(self, name, scenarios, run, rspec, extra_post=None, engine=None):
        super().__init__(name, None, None, scenarios, run=run, post=self._post)
        self.rspec, self.extra_post = rspec, extra_post
        self.mk_engine = engine or (lambda: world.mk_engine(focus=lambda n: not n.startswith(('lock:', 'items are'))))

    def _post(self, eng, pre, s, args, out, rep):
        sections = s.ghost.get(f'sections{eng.w.locked.oid}', 0)
        soft = eng.overapprox
        if sections > 1:
            eng.overapprox = True
        try:
            c = SimpleNamespace(name=self.name, frame_skip=None)
            c.spec = lambda e, st, a: ((s2, pick(w, out)) for s2, w in self.rspec(e, st, a))
            if self.rspec is not None:
                p = rebase(eng, pre, s)
                compare_with_spec(c, eng, p, s, args, out, rep, eng.ctx)
            if self.extra_post is not None:
                self.extra_post(eng, pre, s, args, out, rep)
        finally:
            eng.overapprox = soft


# ------------------------------------------------------------------ read

def call_method(name):
    def run(eng, st, args, kw):
        for s, m in eng.getattr(st, args[0], name):
            if is_raise(m):
                yield s, m
                continue
            yield from eng.call(s, m, list(args[1:]), dict(kw))
    return run


def read_run(eng, st, args, kw):
    given = {k: v for k, v in args[1].items() if k not in args[2]}
    for s, m in eng.getattr(st, args[0], 'read'):
        yield from eng.call(s, m, [], given)


def read_spec(kinds):
    def rspec(eng, st, args):
        o = effective(eng, args[1])
        for s, out, kind in spec_read(eng, st, args[0], o['n'], o['peek'], o['ignore_no_item_found'], o['strict_n']):
            yield s, (out if kind in kinds else ANY)
    return rspec


def given_options(mode):
    """option values of a call; 'explicit': all given, 'default': none given (omitted), 'none': given as None,
    a name: only that one given"""
    def mk():
        return dict(n=SInt(fresh_int('n')), peek=SBool(fresh('peek', BoolS)),
                    ignore_no_item_found=SBool(fresh('ignore', BoolS)), strict_n=SBool(fresh('strict', BoolS)))
    o = mk()
    if mode == 'explicit':
        return o, ()
    if mode == 'default':
        return {k: None for k in o}, tuple(o)
    if mode == 'none':
        return {k: None for k in o}, ()
    return {k: (v if k == mode else None) for k, v in o.items()}, tuple(k for k in o if k != mode)


def read_scenarios(modes, cursors=('none', 'some'), naturals=(False,), maxlens=('any',)):
    def scenarios():
        for mode, cur, nat, ml in itertools.product(modes, cursors, naturals, maxlens):
            def setup(eng, mode=mode, cur=cur, nat=nat, ml=ml):
                s, r = mk_world(eng, opts='fixed' if mode == 'explicit' else 'any', cursor=cur, natural=nat, maxlen=ml)
                given, omitted = given_options(mode)
                yield s, [r, given, omitted], {}
            yield f'read, options {mode}, last seen {cur}' + (', natural order' if nat else '') + \
                  (', no limit' if ml is None else ''), setup
    return scenarios


def c_read(kinds, modes, **kw):
    return ReaderContract('BufferReader.read', read_scenarios(modes, **kw), read_run, read_spec(kinds))


def c_old_next():
    """the deprecated next(): explicit defaults n=1, peek=False, ignore_no_item_found=False, strict_n=False"""
    def scenarios():
        for cur, given in itertools.product(('none', 'some'), (False, True)):
            def setup(eng, cur=cur, given=given):
                s, r = mk_world(eng, opts='any', cursor=cur)
                o, _ = given_options('explicit')
                yield s, [r, o if given else dict(n=1, peek=False, ignore_no_item_found=False, strict_n=False),
                          () if given else READ_OPTS], {}
            yield f'next, options {"given" if given else "omitted"}, last seen {cur}', setup

    def run(eng, st, args, kw):
        for s, m in eng.getattr(st, args[0], 'next'):
            yield from eng.call(s, m, [], {k: v for k, v in args[1].items() if k not in args[2]})

    def rspec(eng, st, args):
        o = args[1]
        for s, out, kind in spec_read(eng, st, args[0], o['n'], o['peek'], o['ignore_no_item_found'], o['strict_n']):
            yield s, out
    return ReaderContract('BufferReader.next', scenarios, run, rspec)


def c_increasing():
    """lemma over the contract of read: keys of successive reads strictly increase and nothing in between is skipped"""
    def scenarios():
        for cur in ('none', 'some'):
            def setup(eng, cur=cur):
                s, r = mk_world(eng, cursor=cur)
                yield s, [r, *given_options('explicit')], {}
            yield f'last seen {cur}', setup

    def run(eng, st, args, kw):
        o = args[1]
        yield from ((s, (out, kind)) for s, out, kind in
                    spec_read(eng, st, args[0], o['n'], False, o['ignore_no_item_found'], o['strict_n']))

    def post(eng, pre, s, args, res, rep):
        out, kind = res
        r = args[0]
        v = V(eng, pre, eng.w.deque)
        k0, k1 = as_key(cursor_of(pre, r)[1]), as_key(cursor_of(s, r)[1])
        if kind != 'got':
            eng.oblige(s, 'a read that delivers nothing leaves the cursor', cursor_of(s, r) == cursor_of(pre, r))
            return
        if k0 is not None:
            eng.oblige(s, 'the last delivered key is above the previous one', k1 > k0)
        seq = s.f(out, 'seq') if isinstance(out, Ref) else Seq.concrete([out])
        i, j = fresh_int('a'), fresh_int('b')
        a = s.copy()
        a.assume(z3.And(0 <= i, i < seq.zn()))
        kk = lambda x: v.keyof(x)
        if k0 is not None:
            eng.oblige(a, 'every delivered key is above the previous one', kk(seq.at(i)) > k0)
        b = a.copy()
        b.assume(z3.And(i < j, j < seq.zn()))
        eng.oblige(b, 'delivered keys increase', kk(seq.at(i)) < kk(seq.at(j)))
        q = fresh_int('q')
        c = s.copy()
        c.assume(z3.And(0 <= q, q < v.zn, v.kt(q) <= k1))
        if k0 is not None:
            c.assume(v.kt(q) > k0)
        # some delivered item is this one
        hit = z3.BoolVal(False)
        base = v.zn
        off = fresh_int('off')
        lo = None
        for s2, p in next_index(eng, pre_view(eng, pre, c), v, r):
            if p is None:
                eng.oblige(s2, 'nothing between two deliveries is skipped', False)
                continue
            ix = simp(q - zint(p))
            eng.oblige(s2, 'nothing between two deliveries is skipped (position)', z3.And(zint(ix) >= 0, zint(ix) < seq.zn()))
            eng.oblige(s2, 'nothing between two deliveries is skipped', zbool(sym_eq(seq.at(ix), v.items.at(q))))
    c = Contract('lemma: successive reads', None, None, scenarios, run=run, post=post)
    c.mk_engine = world.mk_engine
    return c


def pre_view(eng, pre, s):
    """the path condition of s with the heap of pre"""
    t = s.copy()
    t.heap = dict(pre.heap)
    return t


# ------------------------------------------------------------------ range, head, tail

def spec_range(eng, st, r, o):
    d = eng.w.deque
    v = V(eng, st, d)
    ig = o['ignore_no_item_found']
    if ig is None:
        ig = eng.w.opts['ignore_no_item_found']

    def nothing(s, exc):
        for s2, b in eng.truth(s, ig):
            yield s2, (None if b else exc)
    start0, stop0 = as_key(o['start']), as_key(o['stop'])

    def only_new(s):
        for s1, on in eng.truth(s, o['only_new_items']):
            if not on or cursor_of(s1, r)[0] is None:
                yield s1, start0, True
                continue
            for s2, p in next_index(eng, s1, v, r):
                if p is None:
                    yield s2, None, False
                else:
                    k = v.kt(p)
                    yield s2, z3.If(start0 > k, start0, k), True
    for s, start, ok in only_new(st):
        if not ok:
            yield from nothing(s, VE())
            continue
        for s1, start in rounded(eng, s, v, start, o['start_le']):
            for s2, stop in rounded_up(eng, s1, v, stop0, o['stop_ge']):
                if stop is None:
                    yield from nothing(s2, VE())
                    continue
                for s3, lst in container.s_range(eng, s2, [d, SKey(start), SKey(stop), o['step']]):
                    if lst is ANY or is_raise(lst):
                        yield s3, lst
                        continue
                    q = s3.f(lst, 'seq')
                    for s4, empty in eng.branch(s3, simp(q.zn() == 0)):
                        for s5, pk in eng.truth(s4, o['peek']):
                            if not empty:
                                if not pk:
                                    set_cursor(eng, s5, r, q.at(simp(q.zn() - 1)))
                                yield s5, lst
                            elif pk:
                                for s6, b in eng.truth(s5, ig):
                                    yield s6, Choice(lst, None if b else AnyExc(ValueError, IndexError))
                            else:
                                yield from nothing(s5, AnyExc(ValueError, IndexError))


def rounded(eng, st, v, start, flag):
    for s, b in eng.truth(st, flag):
        if not b:
            yield s, start
            continue
        for s2, i in last(eng, s, 0, v.n, lambda j: v.kt(j) <= start):
            yield s2, (start if i is None else v.kt(i))


def rounded_up(eng, st, v, stop, flag):
    for s, b in eng.truth(st, flag):
        if not b:
            yield s, stop
            continue
        for s2, i in first(eng, s, 0, v.n, lambda j: v.kt(j) >= stop):
            yield s2, (None if i is None else v.kt(i))


def range_run(eng, st, args, kw):
    o = {k: v for k, v in args[1].items() if not (k in args[2])}
    a = [o.pop('start'), o.pop('stop')]
    for s, m in eng.getattr(st, args[0], 'range'):
        yield from eng.call(s, m, a, o)


def c_range(cursors=('none', 'some')):
    def scenarios():
        for cur, step, ign, on, sl, sg in itertools.product(cursors, (False, True), ('default', 'given'), (False, True),
                                                            (False, True), (False, True)):
            if on and cur == 'none' and ign == 'given':
                continue
            if step and (on or sl) and (sg or ign == 'given'):
                continue        # the step is independent of how the bounds were found
            def setup(eng, cur=cur, step=step, ign=ign, on=on, sl=sl, sg=sg):
                s, r = mk_world(eng, opts='any', cursor=cur)
                o = dict(start=SKey(fresh('start', RealS)), stop=SKey(fresh('stop', RealS)),
                         step=SInt(fresh_int('step')) if step else None, peek=SBool(fresh('peek', BoolS)),
                         ignore_no_item_found=None if ign == 'default' else SBool(fresh('ignore', BoolS)),
                         only_new_items=on, start_le=sl, stop_ge=sg)
                omit = [k for k in ('only_new_items', 'start_le', 'stop_ge') if o[k] is False]
                omit += [k for k in ('step', 'ignore_no_item_found') if o[k] is None]
                if step:
                    s.assume(o['step'].t >= 1)
                yield s, [r, o, omit], {}
            yield f'range, step {step}, ignore {ign}, only new {on}, start_le {sl}, stop_ge {sg}, last seen {cur}', setup
    return ReaderContract('BufferReader.range', scenarios, range_run, lambda e, s, a: spec_range(e, s, a[0], a[1]))


def spec_tail(eng, st, r, o):
    v = V(eng, st, eng.w.deque)
    for s, on in eng.truth(st, o['only_new_items']):
        li, lk = cursor_of(s, r)
        if not on or li is None:
            forks = ((s2, (None if e else simp(v.zn - 1))) for s2, e in eng.branch(s, simp(v.zn == 0)))
        else:
            k = as_key(lk)
            forks = last(eng, s, 0, v.n, lambda j: v.kt(j) > k)
        for s2, i in forks:
            if i is None:
                for s3, b in eng.truth(s2, o['ignore_no_item_found']):
                    yield s3, (None if b else AnyExc(ValueError, IndexError))
                continue
            item = v.items.at(i)
            for s3, pk in eng.truth(s2, o['peek']):
                if not pk:
                    set_cursor(eng, s3, r, item)
                yield s3, item


def c_tail():
    def scenarios():
        for cur, on, given in itertools.product(('none', 'some'), (False, True), (True, False)):
            def setup(eng, cur=cur, on=on, given=given):
                s, r = mk_world(eng, opts='any', cursor=cur)
                o = dict(peek=SBool(fresh('peek', BoolS)), ignore_no_item_found=SBool(fresh('ignore', BoolS)),
                         only_new_items=on)
                if not given:
                    o.update(peek=False, ignore_no_item_found=False)
                yield s, [r, o, () if given else ('peek', 'ignore_no_item_found')], {}
            yield f'tail, only new {on}, options {"given" if given else "omitted"}, last seen {cur}', setup

    def run(eng, st, args, kw):
        for s, m in eng.getattr(st, args[0], 'tail'):
            yield from eng.call(s, m, [], {k: v for k, v in args[1].items() if k not in args[2]})
    return ReaderContract('BufferReader.tail', scenarios, run, lambda e, s, a: spec_tail(e, s, a[0], a[1]))


def c_head():
    def scenarios():
        for cur, given in itertools.product(('none', 'some'), (True, False)):
            def setup(eng, cur=cur, given=given):
                s, r = mk_world(eng, opts='any', cursor=cur)
                yield s, [r, {'peek': SBool(fresh('peek', BoolS)) if given else False}, () if given else ('peek',)], {}
            yield f'head, peek {"given" if given else "omitted"}, last seen {cur}', setup

    def run(eng, st, args, kw):
        for s, m in eng.getattr(st, args[0], 'head'):
            yield from eng.call(s, m, [], {k: v for k, v in args[1].items() if k not in args[2]})

    def rspec(eng, st, a):
        v = V(eng, st, eng.w.deque)
        for s, e in eng.branch(st, simp(v.zn == 0)):
            if e:
                yield s, AnyExc(IndexError, ValueError)
                continue
            for s2, pk in eng.truth(s, a[1]['peek']):
                if not pk:
                    set_cursor(eng, s2, a[0], v.items.at(0))
                yield s2, v.items.at(0)
    return ReaderContract('BufferReader.head', scenarios, run, rspec)


# ------------------------------------------------------------------ the end of the stream (C11)

END = 'the end is signalled only if the stream had stopped before the buffer was found to hold nothing new'


def end_checks(eng, pre_flag, s, ended, name):
    f = s.ghost.get(f'flag_at_section{eng.w.event.oid}')
    if ended:
        eng.oblige(s, f'{name}: {END}', f is True or (f.t if isinstance(f, SBool) else False))
    else:
        fl = pre_flag.t if isinstance(pre_flag, SBool) else z3.BoolVal(bool(pre_flag))
        eng.oblige(s, f'{name}: a stream that has stopped and holds nothing new signals the end', z3.Not(fl))


STOP = Raise(Exc(StopIteration, ('spec',)))


def default_read(eng, st, r):
    o = eng.w.opts
    yield from spec_read(eng, st, r, o['n'], o['peek'], True, o['strict_n'])


def c_next():
    def scenarios():
        for cur in ('none', 'some'):
            def setup(eng, cur=cur):
                s, r = mk_world(eng, opts='any', cursor=cur)
                yield s, [r], {}
            yield f'next(reader), last seen {cur}', setup

    def run(eng, st, args, kw):
        for s, m in eng.getattr(st, args[0], '__next__'):
            yield from eng.call(s, m, [], {})

    def rspec(eng, st, a):
        for s, out, kind in default_read(eng, st, a[0]):
            yield s, (Choice(None, STOP) if kind == 'none' else out)

    def post(eng, pre, s, args, out, rep):
        if is_raise(out) and issubclass(out.exc.cls, StopIteration):
            end_checks(eng, None, s, True, 'next(reader)')
        elif out is None:
            end_checks(eng, pre.f(eng.w.event, 'set'), s, False, 'next(reader)')
    return ReaderContract('BufferReader.__next__', scenarios, run, rspec, extra_post=post)


def c_blocking(modes=('explicit', 'default'), end=True):
    def scenarios():
        for cur, mode in itertools.product(('none', 'some'), modes):
            def setup(eng, cur=cur, mode=mode):
                s, r = mk_world(eng, opts='any', cursor=cur)
                yield s, [r, *given_options(mode)], {}
            yield f'blocking read, options {mode}, last seen {cur}', setup

    def run(eng, st, args, kw):
        given = {k: v for k, v in args[1].items() if k not in args[2]}
        for s, m in eng.getattr(st, args[0], 'read'):
            yield from eng.call(s, m, [], {**given, 'blocking': True})

    def rspec(eng, st, a):
        o = effective(eng, a[1])
        for s, out, kind in spec_read(eng, st, a[0], o['n'], o['peek'], True, o['strict_n']):
            yield s, out

    def post(eng, pre, s, args, out, rep):
        if out is None and end:
            end_checks(eng, None, s, True, 'blocking read')
    return ReaderContract('BufferReader.read(blocking)', scenarios, run, rspec, extra_post=post)


class AnyCursor:
    """loop invariant of iteration: the cursor is some seen item and its key, or nothing; the consumer of an iteration
    may also use the reader in between"""

    def __init__(self, r, deliver=True):
        self.r, self.deliver = r, deliver

    def locs(self, eng, st):
        if self.r is None:              # the reader made for this iteration
            self.r = made_reader(st)
            li, lk = cursor_of(st, self.r)
            eng.oblige(st, 'iteration of a stream starts with nothing seen', li is None and lk is None)
        return {(self.r.oid, c) for c in CURSOR}

    def havoc(self, eng, st):
        for kind in ('none', 'some'):
            s = st.copy()
            hidden.forget(s, self.r)
            if kind == 'none':
                for c in CURSOR:
                    s.setf(self.r, c, None)
            else:
                set_cursor(eng, s, self.r, SItem(fresh('seen', Item)))
            s.ghost['_heap0'] = dict(s.heap)
            s.ghost['_yielded'] = False
            yield s

    def check(self, eng, st, head):
        if self.deliver and not st.ghost.get('_yielded'):
            t = st.copy()
            t.heap = dict(st.ghost['_heap0'])
            for d in eng.lock_of:
                for f in ('_items', '_keys'):
                    o = st.f(Ref(d), f).oid
                    t.heap[o] = st.heap[o]
            for s2, w, kind in default_read(eng, t, self.r):
                eng.oblige(s2, 'iteration: a round that yields nothing found nothing new', kind == 'none')
        li, lk = cursor_of(st, self.r)
        if li is None or lk is None:
            eng.oblige(st, 'iteration: the cursor is an item with its key', li is None and lk is None)
        else:
            eng.oblige(st, 'iteration: the cursor is an item with its key',
                       zbool(sym_eq(lk, key_value(eng, st, eng.w.deque, li))))


def made_reader(st):
    rs = [Ref(o) for o, x in st.heap.items() if isinstance(x.cls, type) and issubclass(x.cls, BR)]
    if len(rs) != 1:
        raise Unsupported(f'{len(rs)} readers made')
    return rs[0]


def c_iter(stream=False):
    """iteration of a reader, or (stream) of a running stream buffer"""
    def stream_world():
        from . import stream as S

        def setup(eng):
            s, sb = S.mk_stream(eng)
            s = S.started(eng, s, sb)
            eng.w.opts = dict(n=1, peek=False, strict_n=False, ignore_no_item_found=False)
            eng.w.loop_extra = AnyCursor(None)
            eng.w.flag_stable = False
            s.setf(eng.w.event, 'set', SBool(fresh('stopped', BoolS)))
            eng.loop_spec = lambda e, n, st_, fid: EnvLoop(e, st_, eng.w.loop_extra) if _env_loop(n) else None
            yield s, [sb], {}
        yield 'iteration of a stream', setup

    def scenarios():
        for cur in ('none', 'some'):
            def setup(eng, cur=cur):
                s, r = mk_world(eng, opts='any', cursor=cur)
                eng.w.loop_extra = AnyCursor(r)
                yield s, [r], {}
            yield f'iteration, last seen {cur}', setup

    def against_spec(eng, s, r, out, kinds, rep):
        pre = s.copy()
        if '_heap0' not in s.ghost:
            raise Unsupported('iteration without a loop')
        pre.heap = dict(s.ghost['_heap0'])
        pre = rebase(eng, pre, s)
        c = SimpleNamespace(name='BufferReader.__iter__', frame_skip=None)

        def spec(e, st, a):
            for s2, w, kind in default_read(e, st, r):
                yield s2, (w if kind != 'none' else Raise(Exc(StopIteration, ('spec',))))
        c.spec = spec
        if s.ghost.get(f'sections{eng.w.locked.oid}', 0) > 1:
            eng.overapprox = True
        compare_with_spec(c, eng, pre, s, [r], out, rep, eng.ctx)
        eng.overapprox = False

    def run(eng, st, args, kw):
        rep = SimpleNamespace(covered=set())

        def on_yield(eng, s, v):
            if not eng.oblige(s, 'iteration never yields None', v is not None):
                return
            against_spec(eng, s, made_reader(s) if stream else args[0], v, ('got',), rep)
            s.ghost['_yielded'] = True
            yield s, None
        for s, m in eng.getattr(st, args[0], '__iter__'):
            for s1, g in eng.call(s, m, [], {}):
                if not isinstance(g, GenObj):
                    raise Unsupported('iter(reader) is not a generator')
                yield from eng.run_body(s1, g.fn, g.binding, on_yield)

    def post(eng, pre, s, args, out, rep):
        r = made_reader(s) if stream else args[0]
        if is_raise(out):
            against_spec(eng, s, r, out, ('strict',), rep)
            return
        end_checks(eng, None, s, True, 'iteration')
        against_spec(eng, s, r, Raise(Exc(StopIteration, ())), ('none',), rep)
    if stream:
        from . import stream as S
        c = ReaderContract('StreamBuffer.__iter__', stream_world, run, None, extra_post=post)
        c.mk_engine = lambda: S.mk_engine()
        return c
    return ReaderContract('BufferReader.__iter__', scenarios, run, None, extra_post=post)


# ------------------------------------------------------------------ lock discipline (C06) and frames (C10)

def flag():
    return SBool(fresh('flag', BoolS))


def operations(eng, mode):
    """every operation of a reader with arbitrary arguments: label -> (args, kwargs)"""
    it = lambda: SItem(fresh('it', Item))
    key = lambda nm: SKey(fresh(nm, RealS))
    o, _ = given_options('explicit')
    return {
        'read': [('read', [], o), ('read', [], {})],
        'blocking read': [('read', [], {**o, 'blocking': True})],
        'next': [('next', [o['n']], {k: v for k, v in o.items() if k != 'n'})],
        '__next__': [('__next__', [], {})],
        'range': [('range', [key('a'), key('b')], dict(peek=flag(), ignore_no_item_found=flag(), only_new_items=flag(),
                                                      start_le=flag(), stop_ge=flag()))],
        'stepped range': [('range', [key('a'), key('b'), SInt(fresh_int('step'))], dict(peek=flag()))],
        'tail': [('tail', [], dict(peek=flag(), ignore_no_item_found=flag(), only_new_items=flag()))],
        'head': [('head', [], dict(peek=flag()))],
        'attributes': [('is_stopped', None, None), ('last_key', None, None), ('last_item', None, None),
                       ('source_reader_info', None, None)],
        'open and close': [('open', [], {}), ('close', [], {}), ('enter', [], {}), ('exit', [], {}),
                           ('__enter__', [], {}), ('__exit__', [None, None, None], {}),
                           ('set_sleep_time_on_iter_none', [SInt(fresh_int('t'))], {})],
        'cursor': [('=last_item', [it()], {}), ('-last_item', [], {})],
    }


def op_run(eng, st, args, kw):
    r, (nm, a, k) = args
    if a is None:
        yield from eng.getattr(st, r, nm)
    elif nm[0] == '=':
        yield from eng.setattr(st, r, nm[1:], a[0])
    elif nm[0] == '-':
        yield from eng.delattr(st, r, nm[1:])
    else:
        for s, m in eng.getattr(st, r, nm):
            if is_raise(m):
                yield s, m
            else:
                yield from eng.call(s, m, list(a), dict(k))


OPS = ('read', 'blocking read', 'next', '__next__', 'range', 'stepped range', 'tail', 'head', 'attributes',
       'open and close', 'cursor')


def op_scenarios(other, domain):
    def scenarios():
        for op, cur in itertools.product(OPS, ('none', 'some')):
            def setup(eng, op=op, cur=cur):
                s, r = mk_world(eng, opts='any', cursor=cur, other=other)
                for call in operations(eng, op)[op]:
                    s2 = s.copy()
                    if op == 'stepped range':
                        s2.assume(call[1][2].t >= 1)
                    yield s2, [r, call], {}
            yield f'{op}, last seen {cur}', setup
    return scenarios


def not_held(eng, s, nm):
    for k, v in s.ghost.items():
        if isinstance(k, str) and k.startswith('held'):
            eng.oblige(s, f'lock: {nm} leaves it released', v is None)


def lock_focus(n):
    return n.startswith(('lock:', 'items are'))


def c_locking():
    def post(eng, pre, s, args, out, rep):
        not_held(eng, s, f'BufferReader.{args[1][0]}')
    c = Contract('BufferReader operations: locking', None, None, op_scenarios(False, False), run=op_run, post=post)
    c.mk_engine = lambda: world.mk_engine(focus=lock_focus, anyexc=True)
    return c


def c_iter_locking():
    def scenarios():
        def setup(eng):
            s, r = mk_world(eng, opts='any', cursor='none')
            eng.w.loop_extra = AnyCursor(r, deliver=False)
            yield s, [r], {}
        yield 'iteration', setup

    def run(eng, st, args, kw):
        def on_yield(eng, s, v):
            not_held(eng, s, 'iteration, at each item,')
            s.ghost['_yielded'] = True
            yield s, None
            b = s.copy()
            yield b, Raise(Exc(GeneratorExit, ()))
        for s, m in eng.getattr(st, args[0], '__iter__'):
            for s1, g in eng.call(s, m, [], {}):
                if not isinstance(g, GenObj):
                    raise Unsupported('iter(reader) is not a generator')
                yield from eng.run_body(s1, g.fn, g.binding, on_yield)

    def post(eng, pre, s, args, out, rep):
        not_held(eng, s, 'iteration')
    c = Contract('BufferReader.__iter__: locking', None, None, scenarios, run=run, post=post)
    c.mk_engine = lambda: world.mk_engine(focus=lock_focus, anyexc=True)
    return c


def unshared(eng, pre, s, out, nm):
    """lists handed out are the caller's own"""
    if not (isinstance(out, Ref) and s.get(out).cls is NList):
        return
    eng.oblige(s, f'{nm}: a list handed out is a new one', out.oid not in pre.heap)
    users = [o for o, obj in s.heap.items() for v in obj.fields.values() if isinstance(v, Ref) and v == out]
    soft, eng.overapprox = eng.overapprox, True        # keeping it is harmless unless it is used: not an alarm by itself
    eng.oblige(s, f'{nm}: nothing keeps a list handed out', not users)
    eng.overapprox = soft


def c_frame():
    def post(eng, pre, s, args, out, rep):
        nm = f'BufferReader.{args[1][0]}'
        w = eng.w
        multi = s.ghost.get(f'sections{w.locked.oid}', 0) > 1 or 'blocking' in (args[1][2] or {})
        skip = {args[0].oid, w.event.oid}
        if multi:       # other threads changed the contents in between; see the contract of the mutators
            for d in eng.lock_of:
                skip |= {pre.f(Ref(d), f).oid for f in ('_items', '_keys')}
        c = Cmp(eng, s, pre.heap, s, pre, nm)
        same_dict = pre.get(args[0]).fields
        own = {v.oid for v in same_dict.values() if isinstance(v, Ref) and pre.get(v).cls is NDict}
        for oid, o in pre.heap.items():
            if oid in skip or s.heap[oid] is o:
                continue
            what = 'the other reader' if oid == w.other.oid else 'the buffered items' if oid not in own else \
                'the reader options'
            c.obj(f'{what} are not changed', Ref(oid), Ref(oid))
        unshared(eng, pre, s, out, nm)
    c = Contract('BufferReader operations: frame', None, None, op_scenarios(True, True), run=op_run, post=post)

    def mk():
        e = world.mk_engine(focus=lambda n: not lock_focus(n))
        e.readonly = True
        return e
    c.mk_engine = mk
    return c


def c_new_reader():
    """a reader made by the constructor: nothing seen yet, the given info, the given stop flag"""
    def scenarios():
        for o in ('fixed', 'any'):
            def setup(eng, o=o):
                s, r = mk_world(eng, opts='any', cursor='some')
                yield s, [options(s, o)], {}
            yield f'new reader, options {o}', setup

    def run(eng, st, args, kw):
        w = eng.w
        yield from eng.instantiate(st, BR, [], dict(buffer=w.locked, source_reader_info=w.info, stop_event=w.event, **args[0]))

    def post(eng, pre, s, args, out, rep):
        if is_raise(out):
            eng.oblige(s, 'new reader: is made', False)
            return
        w = eng.w
        w.flag_stable = True
        for nm, want in (('last_item', None), ('last_key', None), ('source_reader_info', w.info),
                         ('is_stopped', s.f(w.event, 'set'))):
            for s2, v in eng.getattr(s.copy(), out, nm):
                eng.oblige(s2, f'new reader: {nm}', False if is_raise(v) else zbool(sym_eq(v, want)))
        w.flag_stable = False
        c = Cmp(eng, s, pre.heap, s, pre, 'new reader')
        for oid, o in pre.heap.items():
            if oid != w.event.oid and s.heap[oid] is not o:
                c.obj('existing objects are not changed', Ref(oid), Ref(oid))
        shared = [1 for v in s.get(out).fields.values() if isinstance(v, Ref) and v.oid in pre.heap
                  and v.oid not in (w.locked.oid, w.event.oid)]
        eng.oblige(s, 'new reader: shares no option state with other readers', not shared)
    c = Contract('BufferReader.__init__', BR.__init__, None, scenarios, run=run, post=post)
    c.mk_engine = world.mk_engine
    return c


def c_same_buffer():
    """is_same_buffer: same class and same session"""
    def scenarios():
        for same in (True, False):
            def setup(eng, same=same):
                s, r = mk_world(eng, opts='any', cursor='some', other=True)
                if not same:
                    ev2 = s.alloc(NEvent, {'set': False})
                    s, r2 = mk_reader(eng, s, eng.w.locked, eng.w.deque, ev2, eng.w.info, {}, 'none')
                else:
                    r2 = eng.w.other
                yield s, [r, r2, same], {}
            yield f'same session {same}', setup

    def run(eng, st, args, kw):
        for s, m in eng.getattr(st, args[0], 'is_same_buffer'):
            yield from eng.call(s, m, [args[1]], {})

    def post(eng, pre, s, args, out, rep):
        eng.oblige(s, 'is_same_buffer tells whether two readers read the same session', out is args[2])
    c = Contract('BufferReader.is_same_buffer', None, None, scenarios, run=run, post=post)
    c.mk_engine = world.mk_engine
    return c


def containers(*names):
    return [container.contract(SD, n, respects=False) for n in names]


def for_c07():
    return [c_read(('got',), ('explicit',)), c_read(('got',), ('explicit',), naturals=(True,), maxlens=(None,)),
            c_increasing()] + containers('find_gt', '__getitem__', 'index', '__len__', 'range_by_index')


def for_c08():
    return [c_read(('none', 'strict'), ('explicit',)),
            c_read(('got', 'none', 'strict'), ('default', 'none') + READ_OPTS), c_old_next(),
            c_blocking(('explicit', 'default', 'none') + READ_OPTS, end=False)]


def for_c09():
    return [c_range(), c_tail(), c_head()] + containers('find_gt', 'find_ge', 'find_le', 'find_last_gt', '__getitem__',
                                                        'range')


def for_c06():
    from . import stream
    return [c_locking(), c_iter_locking()] + stream.locking()


def for_c10():
    from . import stream
    return [c_frame(), c_new_reader(), c_same_buffer()] + stream.attaching() + containers('range', 'range_by_index')


def for_c11():
    return [c_next(), c_blocking(), c_iter(), c_iter(stream=True)] + containers('find_gt', '__getitem__', '__len__')
