"""Contracts of the library code the verified functions call (built-ins, bisect, deque, islice, threading, time...).

These are the assumed contracts ("trusted base"): each is compared with CPython on concrete inputs by
harness/conformance.py in every run."""
import bisect
import builtins
import collections
import contextlib
import functools
import itertools
import logging
import operator
import threading
import time
import types
import warnings
import z3
from . import solver
from .solver import QFact, fresh, fresh_int, seq_fun, IntS, BoolS, RealS, Opq
from .values import *

str_of = z3.Function('str_of', Opq, Opq)
slen_fn = z3.Function('slen', IntS, IntS, IntS, IntS)


def err(cls, *args):
    return Raise(Exc(cls, args))


# ------------------------------------------------------------------ helpers on sequences

def norm_index(eng, st, n, i):
    """python index -> position in [0,n): yields (st, term|int|None)"""
    ii = as_int(i)
    if ii is None:
        raise Unsupported(f'index {i!r}')
    if isinstance(ii, int) and isinstance(n, int):
        yield st, (ii if 0 <= ii < n else ii + n if -n <= ii < 0 else None)
        return
    zn, zi = zint(n), zint(ii)
    for s, nonneg in eng.branch(st, (ii >= 0) if isinstance(ii, int) else zi >= 0):
        if nonneg:
            for s2, ok in eng.branch(s, zi < zn):
                yield s2, (ii if ok else None)
        else:
            for s2, ok in eng.branch(s, zi + zn >= 0):
                yield s2, (addi(ii, n) if ok else None)


def slice_bounds(st, n, sl):
    """bounds of a step-1 slice, clamped as python does"""
    step = sl.step
    if not (step is None or step == 1):
        return None

    def clamp(v, dflt):
        if v is None:
            return dflt
        i = as_int(v)
        if i is None:
            raise Unsupported('slice bound')
        if isinstance(i, int) and isinstance(n, int):
            return max(0, min(n, i + n if i < 0 else i))
        z, zn = zint(i), zint(n)
        if not isinstance(i, int) and surely(st, z3.And(0 <= z, z <= zn)):
            return i
        pos = z3.If(z > zn, zn, z)
        neg = z3.If(z + zn < 0, z3.IntVal(0), z + zn)
        if isinstance(i, int):
            return simp(pos) if i >= 0 else simp(neg)
        return simp(z3.If(z < 0, neg, pos))
    lo, hi = clamp(sl.start, 0), clamp(sl.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(lo, hi)
    if isinstance(lo, int) and lo == 0:
        return lo, hi
    if surely(st, zint(lo) <= zint(hi), True):
        return lo, hi
    return lo, simp(z3.If(zint(hi) < zint(lo), zint(lo), zint(hi)))


def surely(st, c, facts=False):
    return solver.prove(st.pc, st.facts if facts else [], c, 2, quick=True).status == 'proved'


def assume_len(st, sq):
    if not isinstance(sq.n, int):
        st.assume(sq.n >= 0)


def first_index(eng, st, sq, lo, hi, value):
    """(st, index|None) of the first element equal to value in [lo,hi)"""
    if sq.values is not None and isinstance(lo, int) and isinstance(hi, int):
        def go(s, k):
            if k >= hi:
                yield s, None
                return
            for s2, b in eng.branch(s, eng.py_eq(s, sq.values[k], value)):
                if b:
                    yield s2, k
                else:
                    yield from go(s2, k + 1)
        yield from go(st, lo)
        return
    yield from eng.fork_exists(st, lo, hi, lambda j: eng.py_eq(st, sq.at(j), value), 'first')


_cnt_memo = {}


def count_true(eng, st, sq, cond, lo=0, hi=None):
    """number of positions lo<=j<hi with cond(sq.at(j)); as a difference of prefix counts over the root sequence"""
    hi = sq.n if hi is None else hi
    while 'parent' in sq.meta:
        p, off = sq.meta['parent']
        lo, hi = addi(lo, off), addi(hi, off)
        sq = p
    if sq.values is not None and isinstance(lo, int) and isinstance(hi, int):
        t = 0
        for v in sq.values[lo:hi]:
            c = cond(v)
            t = addi(t, z3.If(zbool(c), z3.IntVal(1), z3.IntVal(0)))
        return t
    cv = z3.Int('cv!')
    key = (sq.sid, z3.simplify(zbool(cond(sq.at(cv)))).sexpr())
    if key not in _cnt_memo:
        f = z3.Function(solver.fresh_name('cnt'), IntS, IntS)
        w = z3.Function(solver.fresh_name('cntw'), IntS, IntS, IntS)
        _cnt_memo[key] = (f, w)
    f, w = _cnt_memo[key]
    solver.SEQ_FUNS.add(f.name())
    c = lambda j: zbool(cond(sq.at(j)))
    if ('cnt', key) not in st.ghost:
        st.ghost[('cnt', key)] = True
        st.fact(1, lambda i: f(i + 1) == f(i) + z3.If(c(i), z3.IntVal(1), z3.IntVal(0)), 'cnt step', f.name())
        # lemma (induction on b): a prefix count only grows across a position that satisfies the condition
        st.fact(2, lambda a, b: z3.Implies(a <= b, z3.And(f(a) <= f(b), z3.Or(
            f(a) == f(b), z3.And(a <= w(a, b), w(a, b) < b, c(w(a, b)))))), 'cnt lemma', f.name())
    return simp(f(zint(hi)) - f(zint(lo)))


def step_slice(st, sq, lo, hi, step):
    """elements lo, lo+step, ... below hi"""
    n = slen_fn(zint(lo), zint(hi), zint(step))
    zl, zh, zs = zint(lo), zint(hi), zint(step)
    st.assume(z3.And(n >= 0, z3.Implies(zh <= zl, n == 0),
                     z3.Implies(zh > zl, z3.And(n >= 1, zl + (n - 1) * zs < zh, zh <= zl + n * zs))))
    at = sq.at
    return Seq(n, lambda i: at(zl + zint(i) * zs))


def as_seq(eng, st, v):
    """yields (st, Seq|FilterIter|Raise) for an iterable"""
    for s, it in eng.iterate(st, v):
        if isinstance(it, RangeVal):
            from .interp import range_seq
            it = range_seq(it)
        if isinstance(it, GenObj):
            raise Unsupported('generator consumed by a library function')
        yield s, it


def sort_seq(eng, st, sq, key, reverse):
    """stable sort: yields (st, Seq|Raise)"""
    if reverse is True:
        raise Unsupported('reverse sort')
    if isinstance(sq.n, int) and (sq.n == 0 or sq.n == 1 and key is None):
        yield st, Seq.concrete(sq.values) if sq.values is not None else sq
        return
    snap = st.copy()        # keys are computed lazily, but in the present state
    h0 = snap.heap

    def keyval(s, v):
        if key is None:
            return v
        s2 = snap.copy()
        rs = list(eng.call(s2, key, [v], {}))
        rs = [(a, b) for a, b in rs if not isinstance(b, Raise)] if getattr(eng, 'keys_total', True) else rs
        if len(rs) != 1 or isinstance(rs[0][1], Raise):
            raise Unsupported('sort key forks or raises')
        if any(rs[0][0].heap.get(k) is not o for k, o in h0.items()):
            raise Unsupported('sort key has effects')
        return rs[0][1]
    probe = keyval(st, sq.at(fresh_int('probe')) if sq.values is None else sq.values[0])

    def ordterm(v):
        """the Real/Int term ordering v, whether ties are decided by something else"""
        k = as_key(v)
        if k is not None:
            return k, False
        i = as_int(v)
        if i is not None:
            return zint(i), False
        if isinstance(v, tuple) and len(v) >= 1:
            k, _ = ordterm(v[0])
            return k, len(v) > 1
        raise Unsupported(f'sort of {v!r}')
    _, ties = ordterm(probe)
    at = sq.at
    kt = lambda j: ordterm(keyval(st, at(j)))[0]
    if ties:
        # equal first components are compared by the next ones, which need not be comparable
        a = st.copy()
        i, j = fresh_int('ti'), fresh_int('tj')
        a.assume(z3.And(0 <= i, i < j, j < sq.zn(), kt(i) == kt(j)))
        if eng.feasible(a):
            a.log('tie')
            yield a, err(TypeError, 'not comparable')
    perm = seq_fun('perm', IntS)
    inv = seq_fun('inv', IntS)
    n = sq.zn()
    rng = lambda i: z3.And(0 <= i, i < n)
    st.fact(1, lambda i: z3.Implies(rng(i), z3.And(rng(perm(i)), inv(perm(i)) == i)), 'perm range')
    st.fact(1, lambda i: z3.Implies(rng(i), z3.And(rng(inv(i)), perm(inv(i)) == i)), 'perm onto')
    st.fact(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), kt(perm(i)) <= kt(perm(j))), 'sorted')
    if not ties:
        st.fact(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n, kt(perm(i)) == kt(perm(j))),
                                           perm(i) < perm(j)), 'stable')
    st.ghost['perms'] = st.ghost.get('perms', ()) + ((perm, inv, sq.n),)
    yield st, Seq(sq.n, lambda i: at(perm(zint(i))), {'perm': perm})


def increasing_identity(st):
    """lemma (induction, proofs/Lemmas.lean): a permutation of 0..n-1 that is strictly increasing is the identity"""
    for perm, inv, n in st.ghost.get('perms', ()):
        wi, wj, zn = fresh_int('pw'), fresh_int('pw'), zint(n)
        st.fact(1, lambda i: z3.Implies(z3.And(0 <= i, i < zn), z3.Or(
            perm(i) == i, z3.And(0 <= wi, wi < wj, wj < zn, perm(wi) >= perm(wj)))), 'increasing permutation',
            perm.name())


# ------------------------------------------------------------------ container classes

def _native_getattr(cls):
    def f(eng, st, v, name):
        if name == '__class__':
            return None
        m = getattr(cls, 'm_' + name.strip('_'), None) if name not in ('truth',) else None
        if m is not None and hasattr(cls.pycls, name):
            def gen():
                yield st, Bound(NativeFn(m, name, True), v)
            return gen()
        if hasattr(cls.pycls, name) and name not in cls.plain:
            raise Unsupported(f'{cls.pycls.__name__}.{name}')

        def gen2():
            if name in cls.plain:
                yield st, st.f(v, cls.plain[name])
            else:
                yield st, err(AttributeError, name)
        return gen2()
    return staticmethod(f)


class _SeqBase:
    plain = {}

    def native_truth(eng, st, v):
        n = st.f(v, 'seq').n
        yield from eng.branch(st, n > 0 if isinstance(n, int) else n > 0)

    def native_iter(eng, st, v):
        yield st, st.f(v, 'seq')

    def value_eq(eng, st, a, b):
        oa, ob = st.get(a), st.get(b)
        if oa.cls is not ob.cls:
            return False
        sa, sb = oa.fields['seq'], ob.fields['seq']
        if sa.values is not None and sb.values is not None:
            if len(sa.values) != len(sb.values):
                return False
            cs = [zbool(eng.py_eq(st, x, y)) for x, y in zip(sa.values, sb.values)]
            return simp(z3.And(*cs)) if cs else True
        raise Unsupported('comparison of sequences')

    def m_len(eng, st, args, kw):
        yield st, mkint(st.f(args[0], 'seq').n)

    def m_contains(eng, st, args, kw):
        v, x = args
        sq = st.f(v, 'seq')
        for s, i in first_index(eng, st, sq, 0, sq.n, x):
            yield s, i is not None

    def m_getitem(eng, st, args, kw):
        v, i = args
        o = st.get(v)
        sq = o.fields['seq']
        if isinstance(i, slice):
            if o.cls.pycls is collections.deque:
                yield st, err(TypeError, 'sequence index must be integer, not slice')
                return
            b = slice_bounds(st, sq.n, i)
            if b is None:
                if sq.values is not None and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                    yield st, st.alloc(o.cls, {'seq': Seq.concrete(sq.values[i])})
                    return
                ss = as_int(i.step)
                if ss is None or isinstance(ss, int) and ss <= 0:
                    raise Unsupported('slice with a step')
                lo, hi = slice_bounds(st, sq.n, slice(i.start, i.stop))
                for s, ok in eng.branch(st, zint(ss) >= 1):
                    if not ok:
                        raise Unsupported('slice with a step')
                    r = step_slice(s, sq, lo, hi, ss)
                    yield s, s.alloc(o.cls, {'seq': r})
                return
            yield st, st.alloc(o.cls, {'seq': sub(sq, *b)})
            return
        if i is None or isinstance(i, (str, float, tuple)):
            yield st, err(TypeError, 'indices must be integers or slices')
            return
        for s, p in norm_index(eng, st, sq.n, i):
            yield s, (err(IndexError, 'index out of range') if p is None else sq.at(p))

    def m_setitem(eng, st, args, kw):
        v, i, x = args
        sq = st.f(v, 'seq')
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        for s, p in norm_index(eng, st, sq.n, i):
            if p is None:
                yield s, err(IndexError, 'assignment index out of range')
                continue
            if sq.values is not None and isinstance(p, int):
                vs = list(sq.values)
                vs[p] = x
                new = Seq.concrete(vs)
            else:
                at, zp = sq.at, zint(p)
                new = Seq(sq.n, lambda j: vite(simp(zint(j) == zp), x, at(j)))
            s.setf(v, 'seq', new)
            yield s, None

    def m_delitem(eng, st, args, kw):
        v, i = args
        o = st.get(v)
        sq = o.fields['seq']
        if isinstance(i, slice):
            if o.cls.pycls is collections.deque:
                yield st, err(TypeError, 'sequence index must be integer, not slice')
                return
            b = slice_bounds(st, sq.n, i)
            if b is None:
                raise Unsupported('del of a slice with a step')
            lo, hi = b
            st.setf(v, 'seq', sub(sq, hi, sq.n) if isinstance(lo, int) and lo == 0 else sub(sq, 0, lo).concat(sub(sq, hi, sq.n)))
            yield st, None
            return
        for s, p in norm_index(eng, st, sq.n, i):
            if p is None:
                yield s, err(IndexError, 'index out of range')
            else:
                s.setf(v, 'seq', sub(sq, 1, sq.n) if isinstance(p, int) and p == 0 else sq.delete(p))
                yield s, None

    def m_index(eng, st, args, kw):
        v, x = args[:2]
        sq = st.f(v, 'seq')
        b = slice_bounds(st, sq.n, slice(args[2] if len(args) > 2 else None, args[3] if len(args) > 3 else None))
        for s, i in first_index(eng, st, sq, b[0], b[1], x):
            yield s, (err(ValueError, 'not in list') if i is None else mkint(i))

    def m_count(eng, st, args, kw):
        v, x = args
        sq = st.f(v, 'seq')
        yield st, mkint(count_true(eng, st, sq, lambda e: eng.py_eq(st, e, x)))

    def m_remove(eng, st, args, kw):
        v, x = args
        sq = st.f(v, 'seq')
        for s, i in first_index(eng, st, sq, 0, sq.n, x):
            if i is None:
                yield s, err(ValueError, 'not in list')
            else:
                s.setf(v, 'seq', sq.delete(i))
                yield s, None

    def m_clear(eng, st, args, kw):
        st.setf(args[0], 'seq', Seq.concrete([]))
        yield st, None

    def m_iter(eng, st, args, kw):
        yield st, SeqIter(st.f(args[0], 'seq'))

    def m_reversed(eng, st, args, kw):
        yield st, SeqIter(st.f(args[0], 'seq').reverse())

    def m_reverse(eng, st, args, kw):
        st.setf(args[0], 'seq', st.f(args[0], 'seq').reverse())
        yield st, None

    def m_pop(eng, st, args, kw):
        v = args[0]
        o = st.get(v)
        i = args[1] if len(args) > 1 else -1
        if o.cls.pycls is collections.deque and len(args) > 1:
            yield st, err(TypeError, 'pop() takes no arguments')
            return
        sq = o.fields['seq']
        for s, p in norm_index(eng, st, sq.n, i):
            if p is None:
                yield s, err(IndexError, 'pop from an empty list')
            else:
                x = sq.at(p)
                s.setf(v, 'seq', sub(sq, 1, sq.n) if isinstance(p, int) and p == 0 else
                       sub(sq, 0, p) if i == -1 and isinstance(i, int) else sq.delete(p))
                yield s, x


def sub(sq, lo, hi):
    if isinstance(lo, int) and lo == 0 and (hi is sq.n or isinstance(hi, int) and isinstance(sq.n, int) and hi == sq.n):
        return sq
    r = sq.slice(lo, hi)
    if r.values is None:
        r.meta['parent'] = (sq, lo)
    return r


class NList(_SeqBase):
    pycls = list
    __name__ = 'list'

    def m_append(eng, st, args, kw):
        st.setf(args[0], 'seq', st.f(args[0], 'seq').append(args[1]))
        yield st, None

    def m_extend(eng, st, args, kw):
        for s, sq in as_seq(eng, st, args[1]):
            if isinstance(sq, Raise):
                yield s, sq
                continue
            if not isinstance(sq, Seq):
                raise Unsupported('extend')
            s.setf(args[0], 'seq', s.f(args[0], 'seq').concat(sq))
            yield s, None

    def m_insert(eng, st, args, kw):
        v, i, x = args
        sq = st.f(v, 'seq')
        lo, _ = slice_bounds(st, sq.n, slice(i, None))
        st.setf(v, 'seq', sq.insert(lo, x))
        yield st, None

    def m_copy(eng, st, args, kw):
        yield st, st.alloc(NList, {'seq': st.f(args[0], 'seq')})

    def m_sort(eng, st, args, kw):
        v = args[0]
        for s, r in sort_seq(eng, st, st.f(v, 'seq'), kw.get('key'), kw.get('reverse', False)):
            if isinstance(r, Raise):
                yield s, r
            else:
                s.setf(v, 'seq', r)
                yield s, None


class NDeque(_SeqBase):
    pycls = collections.deque
    plain = {'maxlen': 'maxlen'}

    def _full(eng, st, v):
        """yields (st, full?)"""
        m = st.f(v, 'maxlen')
        if m is None:
            yield st, False
            return
        n = st.f(v, 'seq').n
        yield from eng.branch(st, simp(zint(n) >= zint(as_int(m))))

    def m_append(eng, st, args, kw):
        v, x = args
        for s, full in NDeque._full(eng, st, v):
            sq = s.f(v, 'seq')
            if full:
                for s2, zero in eng.branch(s, simp(zint(sq.n) == 0)):
                    if not zero:
                        s2.setf(v, 'seq', sub(sq, 1, sq.n).append(x))
                    yield s2, None
            else:
                s.setf(v, 'seq', sq.append(x))
                yield s, None

    def m_appendleft(eng, st, args, kw):
        v, x = args
        for s, full in NDeque._full(eng, st, v):
            sq = s.f(v, 'seq')
            if full:
                for s2, zero in eng.branch(s, simp(zint(sq.n) == 0)):
                    if not zero:
                        s2.setf(v, 'seq', sub(sq, 0, subi(sq.n, 1)).insert(0, x))
                    yield s2, None
            else:
                s.setf(v, 'seq', sq.insert(0, x))
                yield s, None

    def m_insert(eng, st, args, kw):
        v, i, x = args
        for s, full in NDeque._full(eng, st, v):
            if full:
                yield s, err(IndexError, 'deque already at its maximum size')
                continue
            sq = s.f(v, 'seq')
            lo, _ = slice_bounds(s, sq.n, slice(i, None))
            s.setf(v, 'seq', sq.insert(lo, x))
            yield s, None

    def m_popleft(eng, st, args, kw):
        v, = args
        sq = st.f(v, 'seq')
        for s, p in norm_index(eng, st, sq.n, 0):
            if p is None:
                yield s, err(IndexError, 'pop from an empty deque')
            else:
                s.setf(v, 'seq', sub(sq, 1, sq.n))
                yield s, sq.at(0)

    def m_extend(eng, st, args, kw):
        v, it = args
        if st.f(v, 'maxlen') is None:
            for s, sq in as_seq(eng, st, it):
                if isinstance(sq, Raise):
                    yield s, sq
                    continue
                s.setf(v, 'seq', s.f(v, 'seq').concat(sq))
                yield s, None
            return
        for s, sq in as_seq(eng, st, it):
            if isinstance(sq, Raise):
                yield s, sq
                continue
            whole = s.f(v, 'seq').concat(sq)
            yield from set_last(eng, s, v, whole, s.f(v, 'maxlen'))

    def m_copy(eng, st, args, kw):
        o = st.get(args[0])
        yield st, st.alloc(NDeque, dict(o.fields))


def set_last(eng, st, v, whole, maxlen):
    """deque contents := the last maxlen elements of whole"""
    if maxlen is None:
        st.setf(v, 'seq', whole)
        yield st, None
        return
    m = as_int(maxlen)
    for s, big in eng.branch(st, simp(zint(whole.n) > zint(m))):
        s.setf(v, 'seq', sub(whole, subi(whole.n, m), whole.n) if big else whole)
        yield s, None


class NDict:
    pycls = dict
    plain = {}

    def native_truth(eng, st, v):
        yield st, bool(st.f(v, 'd'))

    def native_iter(eng, st, v):
        yield st, Seq.concrete(list(st.f(v, 'd')))

    def value_eq(eng, st, a, b):
        da, db = st.f(a, 'd'), st.f(b, 'd') if st.get(b).cls is NDict else None
        if db is None or set(da) != set(db):
            return False
        cs = [zbool(eng.py_eq(st, da[k], db[k])) for k in da]
        return simp(z3.And(*cs)) if cs else True

    def _key(k):
        if isinstance(k, (Sym, Ref)):
            raise Unsupported('symbolic dict key')
        return k

    def m_len(eng, st, args, kw):
        yield st, len(st.f(args[0], 'd'))

    def m_contains(eng, st, args, kw):
        yield st, NDict._key(args[1]) in st.f(args[0], 'd')

    def m_getitem(eng, st, args, kw):
        d, k = st.f(args[0], 'd'), NDict._key(args[1])
        yield st, (d[k] if k in d else err(KeyError, k))

    def m_setitem(eng, st, args, kw):
        d = dict(st.f(args[0], 'd'))
        d[NDict._key(args[1])] = args[2]
        st.setf(args[0], 'd', d)
        yield st, None

    def m_delitem(eng, st, args, kw):
        d = dict(st.f(args[0], 'd'))
        k = NDict._key(args[1])
        if k not in d:
            yield st, err(KeyError, k)
            return
        del d[k]
        st.setf(args[0], 'd', d)
        yield st, None

    def m_get(eng, st, args, kw):
        d, k = st.f(args[0], 'd'), NDict._key(args[1])
        yield st, (d[k] if k in d else args[2] if len(args) > 2 else None)

    def m_pop(eng, st, args, kw):
        d, k = dict(st.f(args[0], 'd')), NDict._key(args[1])
        if k in d:
            x = d.pop(k)
            st.setf(args[0], 'd', d)
            yield st, x
        else:
            yield st, (args[2] if len(args) > 2 else err(KeyError, k))

    def m_setdefault(eng, st, args, kw):
        d, k = dict(st.f(args[0], 'd')), NDict._key(args[1])
        d.setdefault(k, args[2] if len(args) > 2 else None)
        st.setf(args[0], 'd', d)
        yield st, d[k]

    def m_update(eng, st, args, kw):
        d = dict(st.f(args[0], 'd'))
        for a in args[1:]:
            d.update(eng.dict_of(st, a))
        d.update(kw)
        st.setf(args[0], 'd', d)
        yield st, None

    def m_copy(eng, st, args, kw):
        yield st, st.alloc(NDict, {'d': dict(st.f(args[0], 'd'))})

    def m_items(eng, st, args, kw):
        yield st, SeqIter(Seq.concrete([(k, v) for k, v in st.f(args[0], 'd').items()]), 'view')

    def m_values(eng, st, args, kw):
        yield st, SeqIter(Seq.concrete(list(st.f(args[0], 'd').values())), 'view')

    def m_keys(eng, st, args, kw):
        yield st, SeqIter(Seq.concrete(list(st.f(args[0], 'd'))), 'view')


# ------------------------------------------------------------------ threading

class NLock:
    """threading.Lock; ghost field 'held' is what this thread knows; hook 'lock' may replace the model"""
    pycls = type(threading.Lock())
    plain = {}

    def m_acquire(eng, st, args, kw):
        h = eng.hooks.get('lock')
        if h is not None:
            yield from h(eng, st, args[0], 'acquire', args[1:], kw)
            return
        if args[1:] or kw:
            raise Unsupported('lock.acquire with arguments')
        if getattr(eng, 'observing', False) and st.f(args[0], 'held'):
            return             # another thread than the one holding it waits
        eng.oblige(st, 'a lock is not acquired again by the thread that holds it', not st.f(args[0], 'held'))
        st.setf(args[0], 'held', True)
        st.log('acquire', args[0].oid)
        yield st, True

    def m_release(eng, st, args, kw):
        h = eng.hooks.get('lock')
        if h is not None:
            yield from h(eng, st, args[0], 'release', args[1:], kw)
            return
        eng.oblige(st, 'only a held lock is released', bool(st.f(args[0], 'held')))
        st.setf(args[0], 'held', False)
        st.log('release', args[0].oid)
        yield st, None

    def m_locked(eng, st, args, kw):
        yield st, SBool(fresh('locked', BoolS))

    def native_with(eng, st, v, body):
        for s, r in NLock.m_acquire(eng, st, [v], {}):
            if isinstance(r, Raise):
                yield s, ('exc', r.exc)
                continue
            for s2, out in body(s, r):
                for s3, r3 in NLock.m_release(eng, s2, [v], {}):
                    yield s3, (('exc', r3.exc) if isinstance(r3, Raise) else out)

    m_enter = m_acquire

    def m_exit(eng, st, args, kw):
        yield from NLock.m_release(eng, st, args[:1], {})


class NRLock:
    """threading.RLock; ghost field 'held' is how often this thread has acquired it"""
    pycls = type(threading.RLock())
    plain = {}

    def m_acquire(eng, st, args, kw):
        if args[1:] or kw:
            raise Unsupported('lock.acquire with arguments')
        if getattr(eng, 'observing', False) and st.f(args[0], 'held'):
            return             # another thread than the one holding it waits
        st.setf(args[0], 'held', st.f(args[0], 'held') + 1)
        st.log('acquire', args[0].oid)
        yield st, True

    def m_release(eng, st, args, kw):
        eng.oblige(st, 'only a held lock is released', bool(st.f(args[0], 'held')))
        st.setf(args[0], 'held', st.f(args[0], 'held') - 1)
        st.log('release', args[0].oid)
        yield st, None

    def native_with(eng, st, v, body):
        for s, r in NRLock.m_acquire(eng, st, [v], {}):
            if isinstance(r, Raise):
                yield s, ('exc', r.exc)
                continue
            for s2, out in body(s, r):
                for s3, r3 in NRLock.m_release(eng, s2, [v], {}):
                    yield s3, (('exc', r3.exc) if isinstance(r3, Raise) else out)

    m_enter = m_acquire

    def m_exit(eng, st, args, kw):
        yield from NRLock.m_release(eng, st, args[:1], {})


class NEvent:
    pycls = threading.Event
    plain = {}

    def m_is_set(eng, st, args, kw):
        h = eng.hooks.get('event')
        if h is not None:
            h(eng, st, args[0], 'is_set')
        yield st, st.f(args[0], 'set')
    m_isSet = m_is_set

    def m_set(eng, st, args, kw):
        h = eng.hooks.get('event')
        if h is not None:
            h(eng, st, args[0], 'set')
        st.setf(args[0], 'set', True)
        st.log('event_set', args[0].oid)
        yield st, None

    def m_clear(eng, st, args, kw):
        h = eng.hooks.get('event')
        if h is not None:
            h(eng, st, args[0], 'clear')
        st.setf(args[0], 'set', False)
        st.log('event_clear', args[0].oid)
        yield st, None

    def m_wait(eng, st, args, kw):
        h = eng.hooks.get('wait')
        to = args[1] if len(args) > 1 else kw.get('timeout')
        if h is not None:
            yield from h(eng, st, args[0], to)
            return
        raise Unsupported('Event.wait')


class NThread:
    pycls = threading.Thread
    plain = {'daemon': 'daemon', 'name': 'name'}

    def m_start(eng, st, args, kw):
        h = eng.hooks.get('thread')
        if h is None:
            raise Unsupported('thread start')
        yield from h(eng, st, args[0], 'start', args[1:], kw)

    def m_join(eng, st, args, kw):
        h = eng.hooks.get('thread')
        if h is None:
            raise Unsupported('thread join')
        yield from h(eng, st, args[0], 'join', args[1:], kw)

    def m_is_alive(eng, st, args, kw):
        h = eng.hooks.get('thread')
        if h is None:
            raise Unsupported('thread is_alive')
        yield from h(eng, st, args[0], 'is_alive', args[1:], kw)


for _c in (NList, NDeque, NDict, NLock, NRLock, NEvent, NThread):
    _c.native_getattr = _native_getattr(_c)


# ------------------------------------------------------------------ built-in functions

def install(eng):
    eng.NList, eng.NDict, eng.NDeque = NList, NDict, NDeque
    eng.NLock, eng.NEvent, eng.NThread = NLock, NEvent, NThread
    N = eng.native

    def native(*objs):
        def deco(f):
            for o in objs:
                N(o, f)
            return f
        return deco

    @native(len)
    def _len(eng, st, a, kw):
        v, = a
        if isinstance(v, tuple) or isinstance(v, (str, bytes)):
            yield st, len(v)
        elif hasattr(v, 'eng_len'):
            yield st, mkint(v.eng_len())
        elif isinstance(v, Ref):
            cls = st.get(v).cls
            m = getattr(cls, 'm_len', None)
            if m is not None:
                yield from m(eng, st, [v], {})
                return
            f = eng.class_lookup(cls, '__len__')
            if f is None:
                yield st, err(TypeError, 'has no len()')
            else:
                yield from eng.call(st, f, [v], {})
        elif isinstance(v, SeqIter) and v.kind == 'view':
            yield st, mkint(v.seq.n)
        elif isinstance(v, RangeVal):
            from .interp import range_seq
            yield st, mkint(range_seq(v).n)
        elif v is None or isinstance(v, (int, SInt, SBool, SeqIter, GenObj, FilterIter)):
            yield st, err(TypeError, 'has no len()')
        else:
            raise Unsupported(f'len of {v!r}')

    def pytype(st, v):
        if isinstance(v, Ref):
            c = st.get(v).cls
            return getattr(c, 'pycls', c) if not isinstance(c, SymClass) else c
        if isinstance(v, Exc):
            return ExcType(v) if v.arbitrary else v.cls
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if hasattr(v, 'eng_type'):
            return v.eng_type
        if isinstance(v, SStr):
            return str
        if isinstance(v, (Bound,)):
            return types.MethodType
        if isinstance(v, Closure):
            return types.FunctionType
        if isinstance(v, SReal):
            return float
        if isinstance(v, (Sym, SeqIter, FilterIter, KeyFn, GenObj, RangeVal)):
            return None
        return type(v)
    eng.pytype = pytype
    from .interp import SReal

    @native(isinstance)
    def _isinstance(eng, st, a, kw):
        v, c = a
        h = eng.hooks.get('isinstance')
        if h is not None:
            r = h(eng, st, v, c)
            if r is not None:
                yield from r
                return
        t = pytype(st, v)
        cs = c if isinstance(c, tuple) else (c,)
        if t is None:
            if all(x in (int, float, str, bytes, type(None), list, tuple, dict) for x in cs) and \
                    isinstance(v, (SOpq, SItem)):
                yield st, SBool(fresh('isinst', BoolS))
                return
            raise Unsupported(f'isinstance of {v!r}')
        if t is types.FunctionType and isinstance(v, Closure):
            yield st, any(x in (types.FunctionType, object) for x in cs)
            return
        if isinstance(v, Ref):
            ov = st.get(v).fields.get('__isinstance__')
            if ov:
                yield st, any(x in ov for x in cs)
                return
        r = eng.issub(t, c) if not isinstance(t, ExcType) else exc_sub(eng, st, t, c)
        if r is None:
            raise Unsupported('isinstance')
        yield st, mkbool(r)

    def exc_sub(eng, st, t, c):
        rs = [eng.exc_sub(st, t.exc, x) for x in flat_classes(c)]
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        return z3.Or(*rs) if rs else False

    def flat_classes(c):
        return [k for x in c for k in flat_classes(x)] if isinstance(c, tuple) else [c]

    @native(issubclass)
    def _issubclass(eng, st, a, kw):
        r = eng.issub(*a) if not isinstance(a[0], ExcType) else exc_sub(eng, st, *a)
        if r is None:
            raise Unsupported('issubclass')
        yield st, mkbool(r)

    @native(type)
    def _type(eng, st, a, kw):
        if len(a) != 1:
            raise Unsupported('type()')
        if isinstance(a[0], Ref):
            c = st.get(a[0]).cls
            yield st, getattr(c, 'pycls', c) if not isinstance(c, SymClass) else c
            return
        t = pytype(st, a[0])
        if t is None and isinstance(a[0], (SItem, SOpq)):
            yield st, TypeOf(a[0])
            return
        if t is None:
            raise Unsupported('type of an unknown value')
        yield st, t

    @native(callable)
    def _callable(eng, st, a, kw):
        v, = a
        h = eng.hooks.get('callable')
        if h is not None:
            r = h(eng, st, v)
            if r is not None:
                yield from r
                return
        if isinstance(v, Ref):
            yield st, eng.class_lookup(st.get(v).cls, '__call__') is not None
        elif isinstance(v, (SInt, SBool, SStr, tuple)):
            yield st, False
        elif isinstance(v, (Bound, Closure, KeyFn, NativeFn, SymClass)):
            yield st, True
        elif isinstance(v, (SOpq, SItem)):
            yield from eng.branch(st, fresh('callable', BoolS))
        elif isinstance(v, Sym):
            raise Unsupported('callable of an unknown value')
        else:
            yield st, callable(v)

    @native(hasattr)
    def _hasattr(eng, st, a, kw):
        for s, r in eng.getattr(st, a[0], a[1]):
            if isinstance(r, Raise):
                for s2, e2, m in eng.match_exc(s, r.exc, AttributeError):
                    yield s2, (False if m else Raise(e2))
            else:
                yield s, True

    @native(getattr)
    def _getattr(eng, st, a, kw):
        if not isinstance(a[1], str):
            raise Unsupported('getattr of an unknown name')
        for s, r in eng.getattr(st, a[0], a[1]):
            if isinstance(r, Raise) and len(a) > 2:
                for s2, e2, m in eng.match_exc(s, r.exc, AttributeError):
                    yield s2, (a[2] if m else Raise(e2))
            else:
                yield s, r

    @native(setattr)
    def _setattr(eng, st, a, kw):
        if not isinstance(a[1], str):
            raise Unsupported('setattr of an unknown name')
        yield from eng.setattr(st, a[0], a[1], a[2])

    @native(delattr)
    def _delattr(eng, st, a, kw):
        yield from eng.delattr(st, a[0], a[1])

    @native(iter)
    def _iter(eng, st, a, kw):
        v = a[0]
        if len(a) != 1:
            raise Unsupported('iter(callable, sentinel)')
        if isinstance(v, (SeqIter, FilterIter, GenObj)):
            yield st, v
            return
        if isinstance(v, Ref) and not hasattr(st.get(v).cls, 'native_iter'):
            f = eng.class_lookup(st.get(v).cls, '__iter__')
            if f is None:
                yield st, err(TypeError, 'not iterable')
            else:
                yield from eng.call(st, f, [v], {})
            return
        for s, sq in eng.iterate(st, v):
            yield s, (sq if isinstance(sq, Raise) or not isinstance(sq, Seq) else SeqIter(sq))

    @native(next)
    def _next(eng, st, a, kw):
        v = a[0]
        if isinstance(v, Ref):
            f = eng.class_lookup(st.get(v).cls, '__next__')
            if f is None:
                yield st, err(TypeError, 'not an iterator')
                return
            for s, r in eng.call(st, f, [v], {}):
                if isinstance(r, Raise) and len(a) > 1:
                    for s2, e2, m in eng.match_exc(s, r.exc, StopIteration):
                        yield s2, (a[1] if m else Raise(e2))
                else:
                    yield s, r
            return
        if isinstance(v, SeqIter):
            k = ('nexted', id(v))
            if st.ghost.get(k):
                raise Unsupported('second next() of an iterator')
            st.ghost[k] = v
            for s, p in norm_index(eng, st, v.seq.n, 0):
                yield s, (v.seq.at(0) if p is not None else a[1] if len(a) > 1 else err(StopIteration))
            return
        if isinstance(v, FilterIter):
            k = ('nexted', id(v))
            if st.ghost.get(k):
                raise Unsupported('second next() of an iterator')
            st.ghost[k] = v
            for s, i in eng.fork_exists(st, 0, v.seq.n, lambda j: v.cond(v.seq.at(j))):
                yield s, (v.val(v.seq.at(i)) if i is not None else a[1] if len(a) > 1 else err(StopIteration))
            return
        h = eng.hooks.get('next')
        if h is not None:
            yield from h(eng, st, v, a[1:])
            return
        raise Unsupported(f'next of {v!r}')

    @native(list)
    def _list(eng, st, a, kw):
        if not a:
            yield st, st.alloc(NList, {'seq': Seq.concrete([])})
            return
        for s, sq in as_seq(eng, st, a[0]):
            if isinstance(sq, Raise):
                yield s, sq
            elif not isinstance(sq, Seq):
                raise Unsupported('list of a filtered sequence')
            else:
                yield s, s.alloc(NList, {'seq': sq})

    @native(tuple)
    def _tuple(eng, st, a, kw):
        if not a:
            yield st, ()
            return
        for s, sq in as_seq(eng, st, a[0]):
            if isinstance(sq, Raise):
                yield s, sq
            elif not isinstance(sq, Seq) or sq.values is None:
                raise Unsupported('tuple of unknown length')
            else:
                yield s, tuple(sq.values)

    @native(dict)
    def _dict(eng, st, a, kw):
        d = {}
        for x in a:
            if isinstance(x, Ref) and st.get(x).cls is NDict:
                d.update(st.f(x, 'd'))
            else:
                r = list(as_seq(eng, st, x))
                if len(r) != 1 or not isinstance(r[0][1], Seq) or r[0][1].values is None:
                    raise Unsupported('dict of an unknown iterable')
                st = r[0][0]
                for p in r[0][1].values:
                    if not isinstance(p, tuple) or len(p) != 2:
                        raise Unsupported('dict of an unknown iterable')
                    d[NDict._key(p[0])] = p[1]
        d.update(kw)
        yield st, st.alloc(NDict, {'d': d})

    @native(range)
    def _range(eng, st, a, kw):
        for x in a:
            if as_int(x) is None:
                if x is None or isinstance(x, (str, float, tuple)):
                    yield st, err(TypeError, 'cannot be interpreted as an integer')
                    return
                raise Unsupported('range')
        yield st, (RangeVal(0, a[0], 1) if len(a) == 1 else RangeVal(a[0], a[1], a[2] if len(a) > 2 else 1))

    @native(enumerate)
    def _enumerate(eng, st, a, kw):
        start = a[1] if len(a) > 1 else kw.get('start', 0)
        for s, sq in as_seq(eng, st, a[0]):
            if isinstance(sq, Raise):
                yield s, sq
            elif sq.values is not None:
                yield s, SeqIter(Seq.concrete([(mkint(addi(zint(i), as_int(start))), v) for i, v in enumerate(sq.values)]))
            else:
                at, off = sq.at, as_int(start)
                yield s, SeqIter(Seq(sq.n, lambda i: (mkint(addi(i, off)), at(i))))

    @native(zip)
    def _zip(eng, st, a, kw):
        seqs = []
        for x in a:
            r = list(as_seq(eng, st, x))
            if len(r) != 1 or not isinstance(r[0][1], Seq):
                raise Unsupported('zip')
            st = r[0][0]
            seqs.append(r[0][1])
        if all(q.values is not None for q in seqs):
            yield st, SeqIter(Seq.concrete(list(zip(*(q.values for q in seqs)))))
            return
        n = seqs[0].n
        for q in seqs[1:]:
            n = simp(z3.If(zint(q.n) < zint(n), zint(q.n), zint(n)))
        yield st, SeqIter(Seq(n, lambda i: tuple(q.at(i) for q in seqs)))

    @native(map)
    def _map(eng, st, a, kw):
        f = a[0]
        if len(a) != 2:
            raise Unsupported('map')
        for s, sq in as_seq(eng, st, a[1]):
            if isinstance(sq, Raise):
                yield s, sq
                continue
            st0 = s.copy()

            def one(v):
                s2 = st0.copy()
                rs = list(eng.call(s2, f, [v], {}))
                if len(rs) != 1 or isinstance(rs[0][1], Raise) or \
                        any(rs[0][0].heap.get(k) is not o for k, o in st0.heap.items()):
                    raise Unsupported('mapped function forks, raises or has effects')
                return rs[0][1]
            if not isinstance(sq, Seq):
                raise Unsupported('map')
            yield s, SeqIter(sq.map(one))

    @native(reversed)
    def _reversed(eng, st, a, kw):
        v = a[0]
        if isinstance(v, Ref):
            cls = st.get(v).cls
            if hasattr(cls, 'm_reversed'):
                yield from cls.m_reversed(eng, st, [v], {})
                return
            f = eng.class_lookup(cls, '__reversed__')
            if f is not None:
                yield from eng.call(st, f, [v], {})
                return
            raise Unsupported('reversed by the sequence protocol')
        if isinstance(v, tuple):
            yield st, SeqIter(Seq.concrete(v[::-1]))
            return
        raise Unsupported('reversed')

    @native(sorted)
    def _sorted(eng, st, a, kw):
        for s, sq in as_seq(eng, st, a[0]):
            if isinstance(sq, Raise):
                yield s, sq
                continue
            if not isinstance(sq, Seq):
                raise Unsupported('sorted')
            for s2, r in sort_seq(eng, s, sq, kw.get('key'), kw.get('reverse', False)):
                yield s2, (r if isinstance(r, Raise) else s2.alloc(NList, {'seq': r}))

    def boolterm(v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.t
        raise Unsupported('truth of an element')

    @native(any)
    def _any(eng, st, a, kw):
        yield from any_all(eng, st, a[0], True)

    @native(all)
    def _all(eng, st, a, kw):
        yield from any_all(eng, st, a[0], False)

    def any_all(eng, st, v, want):
        for s, sq in as_seq(eng, st, v):
            if isinstance(sq, Raise):
                yield s, sq
                continue
            if isinstance(sq, Seq) and sq.values is not None:
                def go(s1, vals):
                    if not vals:
                        yield s1, not want
                        return
                    for s2, b in eng.truth(s1, vals[0]):
                        if isinstance(b, Raise) or b == want:
                            yield s2, b
                        else:
                            yield from go(s2, vals[1:])
                yield from go(s, sq.values)
                continue
            if isinstance(sq, FilterIter):
                p = lambda j: z3.And(sq.cond(sq.seq.at(j)), boolterm(sq.val(sq.seq.at(j))) == want)
                n = sq.seq.n
            else:
                p = lambda j: boolterm(sq.at(j)) == want
                n = sq.n
            for s2, i in eng.fork_exists(s, 0, n, p):
                yield s2, (want if i is not None else not want)

    @native(sum)
    def _sum(eng, st, a, kw):
        for s, sq in as_seq(eng, st, a[0]):
            if isinstance(sq, Raise):
                yield s, sq
                continue
            if isinstance(sq, FilterIter):
                v = sq.val(sq.seq.at(fresh_int('probe')))
                if v == 1 and isinstance(v, int) and len(a) == 1:
                    yield s, mkint(count_true(eng, s, sq.seq, sq.cond))
                    continue
                raise Unsupported('sum')
            if sq.values is not None and all(as_int(v) is not None for v in sq.values):
                t = as_int(a[1]) if len(a) > 1 else 0
                for v in sq.values:
                    t = addi(t, as_int(v))
                yield s, mkint(t)
                continue
            if sq.values is None and len(a) == 1:
                v = sq.at(fresh_int('probe'))
                if isinstance(v, SBool):
                    yield s, mkint(count_true(eng, s, sq, lambda e: boolterm(e)))
                    continue
            raise Unsupported('sum')

    def minmax(is_max):
        def f(eng, st, a, kw):
            if 'key' in kw or 'default' in kw:
                raise Unsupported('min/max with key')
            if len(a) == 1:
                r = list(as_seq(eng, st, a[0]))
                if len(r) != 1 or not isinstance(r[0][1], Seq) or r[0][1].values is None:
                    raise Unsupported('min/max')
                st, vals = r[0][0], r[0][1].values
            else:
                vals = list(a)
            if not vals:
                yield st, err(ValueError, 'empty')
                return

            def go(s, best, rest):
                if not rest:
                    yield s, best
                    return
                import ast
                for s2, c in eng.compare(s, ast.Gt() if is_max else ast.Lt(), rest[0], best):
                    if isinstance(c, Raise):
                        yield s2, c
                        continue
                    for s3, b in eng.truth(s2, c):
                        yield from go(s3, rest[0] if b else best, rest[1:])
            yield from go(st, vals[0], vals[1:])
        return f
    N(max, minmax(True))
    N(min, minmax(False))

    @native(bool)
    def _bool(eng, st, a, kw):
        if not a:
            yield st, False
            return
        if isinstance(a[0], SBool):
            yield st, a[0]
            return
        yield from eng.truth(st, a[0])

    @native(int)
    def _int(eng, st, a, kw):
        v = a[0]
        if isinstance(v, (int, float, str)) and not isinstance(v, bool):
            try:
                yield st, int(v)
            except Exception as ex:
                yield st, err(type(ex))
            return
        i = as_int(v)
        if i is not None:
            yield st, mkint(i)
            return
        if isinstance(v, SReal):
            yield st, SInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
            return
        raise Unsupported('int()')

    @native(abs)
    def _abs(eng, st, a, kw):
        i = as_int(a[0])
        if i is None:
            raise Unsupported('abs')
        yield st, mkint(abs(i) if isinstance(i, int) else z3.If(i < 0, -i, i))

    @native(str, repr, format)
    def _str(eng, st, a, kw):
        if not a:
            yield st, ''
        elif isinstance(a[0], (str, int, float)) and not isinstance(a[0], bool) and len(a) == 1:
            yield st, str(a[0])
        elif isinstance(a[0], SOpq):
            yield st, SStr(str_of(a[0].t))
        else:
            yield st, SStr(fresh('str', Opq))

    @native(print)
    def _print(eng, st, a, kw):
        yield st, None

    @native(id, hash)
    def _id(eng, st, a, kw):
        raise Unsupported('id/hash')

    @native(property)
    def _property(eng, st, a, kw):
        yield st, PropVal(*a[:3])

    # ---- bisect: library contract requires a sorted sequence
    def bis(left):
        def f(eng, st, a, kw):
            if kw or len(a) > 2:
                b = dict(zip(('a', 'x', 'lo', 'hi'), a), **kw)
                if len(a) > 4 or 'key' in b or not {'a', 'x'} <= set(b) <= {'a', 'x', 'lo', 'hi'}:
                    raise Unsupported('bisect arguments')
            else:
                b = dict(zip(('a', 'x'), a))
            seqv, k = b['a'], b['x']
            lo0, hi0 = b.get('lo', 0), b.get('hi')
            if not isinstance(seqv, Ref):
                raise Unsupported('bisect')
            o = st.get(seqv)
            if o.cls in (NList, NDeque):
                sq = o.fields['seq']
            else:
                raise Unsupported('bisect')
            lo = as_int(lo0)
            hi = sq.n if hi0 is None else as_int(hi0)
            if lo is None or hi is None:
                raise Unsupported('bisect bounds')
            lo, hi = zint(lo), zint(hi)
            whole = hi0 is None and isinstance(lo0, int) and lo0 == 0

            def cases():
                if whole:
                    yield from eng.branch(st, simp(zint(sq.n) == 0))
                    return
                for s, neg in eng.branch(st, simp(lo < 0)):
                    if neg:
                        yield s, 'neg'
                        continue
                    # a bound past the end: an index error, or not, depending on the probes
                    for s1, past in eng.branch(s, simp(hi > sq.zn())):
                        if past:
                            # (an empty or inverted span is not probed)
                            for s2, none in eng.branch(s1, simp(lo >= hi)):
                                if not none:
                                    raise Unsupported('bisect beyond the end')
                                yield s2, True
                            continue
                        yield from eng.branch(s1, simp(lo >= hi))
            for s, empty in cases():
                if empty == 'neg':
                    yield s, err(ValueError, 'lo must be non-negative')
                    continue
                if empty:
                    yield s, lo0
                    continue
                if k is None:
                    e0 = sq.at(0)
                    if as_key(e0) is None and as_int(e0) is None:
                        raise Unsupported('bisect')
                    yield s, err(TypeError, 'unorderable')
                    continue
                kk = as_key(k)
                if kk is None:
                    kk = as_int(k)
                    kk = None if kk is None else zint(kk)
                if kk is None:
                    raise Unsupported(f'bisect of {k!r}')

                def kt(j):
                    e = sq.at(j)
                    r = as_key(e)
                    if r is None:
                        r = as_int(e)
                        if r is None:
                            raise Unsupported('bisect over unknown elements')
                        r = zint(r)
                    return r
                i, j = fresh_int('si'), fresh_int('sj')
                s2 = s.copy()
                s2.assume(z3.And(lo <= i, i < j, j < hi))
                eng.oblige(s2, 'bisect is given a sorted sequence', kt(i) <= kt(j))
                p = fresh_int('bl' if left else 'br')
                s.assume(z3.And(lo <= p, p <= hi))
                if left:
                    s.fact(1, lambda j: z3.Implies(z3.And(lo <= j, j < hi),
                                                   (j < p) == (kt(j) < kk)), 'bisect_left')
                else:
                    s.fact(1, lambda j: z3.Implies(z3.And(lo <= j, j < hi),
                                                   (j < p) == (kt(j) <= kk)), 'bisect_right')
                # the two neighbours of the insertion point, so that they are index terms
                s.assume(z3.Implies(p > lo, kt(p - 1) < kk if left else kt(p - 1) <= kk))
                s.assume(z3.Implies(p < hi, kt(p) >= kk if left else kt(p) > kk))
                yield s, SInt(p)
        return f
    N(bisect.bisect_left, bis(True))
    N(bisect.bisect_right, bis(False))

    def ins(left):
        def f(eng, st, a, kw):
            if len(a) != 2 or kw or not isinstance(a[0], Ref):
                raise Unsupported('insort')
            for s, p in bis(left)(eng, st, a, kw):
                if isinstance(p, Raise):
                    yield s, p
                else:
                    yield from s.get(a[0]).cls.m_insert(eng, s, [a[0], p, a[1]], {})
        return f
    N(bisect.insort_left, ins(True))
    N(bisect.insort_right, ins(False))

    @native(collections.deque)
    def _deque(eng, st, a, kw):
        it = a[0] if a else kw.get('iterable')
        maxlen = a[1] if len(a) > 1 else kw.get('maxlen')

        def build(s, sq):
            v = s.alloc(NDeque, {'seq': Seq.concrete([]), 'maxlen': maxlen})
            for s2, _ in set_last(eng, s, v, sq, maxlen):
                yield s2, v

        def go(s):
            if it is None:
                yield from build(s, Seq.concrete([]))
                return
            for s1, sq in as_seq(eng, s, it):
                if isinstance(sq, Raise):
                    yield s1, sq
                elif not isinstance(sq, Seq):
                    raise Unsupported('deque of a filtered sequence')
                else:
                    yield from build(s1, sq)
        if maxlen is None:
            yield from go(st)
            return
        m = as_int(maxlen)
        if m is None:
            yield st, err(TypeError, 'an integer is required')
            return
        for s, neg in eng.branch(st, zint(m) < 0 if not isinstance(m, int) else m < 0):
            if neg:
                yield s, err(ValueError, 'maxlen must be non-negative')
            else:
                yield from go(s)

    @native(itertools.islice)
    def _islice(eng, st, a, kw):
        x = a[0]
        if len(a) == 2:
            start, stop, step = None, a[1], None
        else:
            start, stop, step = a[1], a[2], (a[3] if len(a) > 3 else None)
        for v in (start, stop, step):
            if v is not None and as_int(v) is None:
                if isinstance(v, (str, float, tuple, SKey, SItem, SOpq)):
                    yield st, err(ValueError, 'indices for islice() must be None or an integer')
                    return
                raise Unsupported('islice bound')

        def neg(v, lo):
            if v is None:
                return False
            i = as_int(v)
            return (i < lo) if isinstance(i, int) else i < lo
        bad = [neg(start, 0), neg(stop, 0), neg(step, 1)]
        cond = True if any(b is True for b in bad) else [b for b in bad if b is not False]
        cond = cond if cond is True else (z3.Or(*cond) if cond else False)
        for s0, isbad in eng.branch(st, cond):
            if isbad:
                yield s0, err(ValueError, 'indices for islice() must be None or a non-negative integer')
                continue
            for s, sq in as_seq(eng, s0, x):
                if isinstance(sq, Raise):
                    yield s, sq
                    continue
                if not isinstance(sq, Seq):
                    raise Unsupported('islice of a filtered sequence')
                if sq.values is not None and all(v is None or isinstance(v, int) for v in (start, stop, step)):
                    yield s, SeqIter(Seq.concrete(list(itertools.islice(sq.values, start, stop, step))))
                    continue
                lo, hi = slice_bounds(s, sq.n, slice(start, stop))
                sp = as_int(step) if step is not None else 1
                if isinstance(sp, int) and sp == 1:
                    yield s, SeqIter(sub(sq, lo, hi))
                else:
                    yield s, SeqIter(step_slice(s, sq, lo, hi, sp))

    @native(itertools.chain)
    def _chain(eng, st, a, kw):
        seqs = []
        for x in a:
            r = list(as_seq(eng, st, x))
            if len(r) != 1 or not isinstance(r[0][1], Seq):
                raise Unsupported('chain')
            st = r[0][0]
            seqs.append(r[0][1])
        out = Seq.concrete([])
        for q in seqs:
            out = out.concat(q)
        yield st, SeqIter(out)

    # ---- operator
    @native(operator.itemgetter)
    def _itemgetter(eng, st, a, kw):
        yield st, operator.itemgetter(*a)

    @native(operator.attrgetter)
    def _attrgetter(eng, st, a, kw):
        yield st, operator.attrgetter(*a)

    # ---- threading, time, misc
    @native(threading.RLock)
    def _(eng, st, a, kw):
        yield st, st.alloc(NRLock, {'held': 0})

    @native(threading.Lock)
    def _lock(eng, st, a, kw):
        yield st, st.alloc(NLock, {'held': False})

    @native(threading.Event)
    def _event(eng, st, a, kw):
        yield st, st.alloc(NEvent, {'set': False})

    @native(threading.Thread)
    def _thread(eng, st, a, kw):
        tgt = kw.get('target', a[1] if len(a) > 1 else None)
        ar = kw.get('args', a[3] if len(a) > 3 else ())
        kwa = kw.get('kwargs')
        yield st, st.alloc(NThread, {'target': tgt, 'args': ar, 'kwargs': kwa, 'daemon': kw.get('daemon'),
                                     'state': 'new', 'name': kw.get('name')})

    @native(threading.current_thread)
    def _ct(eng, st, a, kw):
        h = eng.hooks.get('current_thread')
        if h is None:
            yield st, SOpq(fresh('thread', Opq))
        else:
            yield from h(eng, st)

    @native(time.sleep)
    def _sleep(eng, st, a, kw):
        h = eng.hooks.get('sleep')
        if h is not None:
            yield from h(eng, st, a[0])
        else:
            st.log('sleep', a[0])
            yield st, None

    @native(time.time, time.monotonic, time.perf_counter)
    def _time(eng, st, a, kw):
        t = fresh('time', RealS)
        st.assume(t >= 0)
        st.log('time', t)
        yield st, SReal(t)

    @native(contextlib.suppress)
    def _suppress(eng, st, a, kw):
        yield st, SuppressVal(list(a))

    @native(warnings.warn)
    def _warn(eng, st, a, kw):
        yield st, None

    @native(functools.partial)
    def _partial(eng, st, a, kw):
        yield st, PartialVal(a[0], a[1:], kw)


class PartialVal:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, tuple(args), dict(kw)
