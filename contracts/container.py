"""Contracts of SortedCollection and SortedDeque.

Abstract state (view): the sequences keys and items, the key function, the limit.
Representation invariant: len(keys)=len(items), keys[i]=key(items[i]), keys non-decreasing, at most limit items."""
import types
import z3
from pyve.interp import State, is_raise
from pyve.solver import fresh, fresh_int, seq_fun, Item, RealS, IntS
from pyve.values import *
from pyve import hidden, natives
from pyve.natives import NList, NDeque, sub, count_true, norm_index, slice_bounds, step_slice
from pyve.contract import (Contract, VIEWS, AnyExc, Anything, check, key_term, Cmp)

import stream2py.utility.sorted_collection as _sc
import stream2py.utility.sorted_deque as _sd

SC, SD = _sc.SortedCollection, _sd.SortedDeque
ANY = Anything()


# ------------------------------------------------------------------ view

def view(eng, st, ref):
    """(fields, owned) of a collection object"""
    o = st.get(ref)
    f = o.fields
    for nm in ('_keys', '_items', '_key'):
        if nm not in f:
            raise Unsupported(f'representation of {o.cls.__name__} changed (no {nm})')
    known = {'_keys', '_items', '_key', '_given_key', '_maxlen'}
    more = sorted(n for n in set(f) - known if not hidden.ignored(o.cls, n))
    if more:
        raise Unsupported(f'representation of {o.cls.__name__} changed ({more})')
    k, i = f['_keys'], f['_items']
    if not isinstance(k, Ref) or not isinstance(i, Ref):
        raise Unsupported('representation changed')
    out = {'keys': st.f(k, 'seq'), 'items': st.f(i, 'seq'), 'key': f['_key']}
    if issubclass(o.cls, SD):
        if st.get(k).cls is not NDeque or st.get(i).cls is not NDeque:
            raise Unsupported('representation changed')
        out['maxlen'] = f['_maxlen']
        out['keys.maxlen'] = st.f(k, 'maxlen')
        out['items.maxlen'] = st.f(i, 'maxlen')
    return out, {k.oid, i.oid}


VIEWS[SC] = view


class V:
    def __init__(self, eng, st, ref):
        f, _ = view(eng, st, ref)
        self.ref, self.st, self.eng = ref, st, eng
        self.keys, self.items, self.key = f['keys'], f['items'], f['key']
        self.maxlen = f.get('maxlen')
        self.deque = 'maxlen' in f
        self.n = self.items.n
        self.zn = zint(self.n)

    def kt(self, i):
        r = as_key(self.keys.at(i))
        if r is None:
            raise Unsupported('keys of unknown type')
        return r

    def keyof(self, item):
        return key_term(self.eng, self.st, self.key, item)


def set_state(eng, st, ref, keys, items, key=None, maxlen=0):
    """specification-side update: a canonical representation of the given abstract state"""
    o = st.get(ref)
    if issubclass(o.cls, SD):
        ml = o.fields['_maxlen'] if maxlen == 0 and not isinstance(maxlen, Sym) else maxlen
        k = st.alloc(NDeque, {'seq': keys, 'maxlen': ml})
        i = st.alloc(NDeque, {'seq': items, 'maxlen': ml})
        st.setf(ref, '_maxlen', ml)
    else:
        k = st.alloc(NList, {'seq': keys})
        i = st.alloc(NList, {'seq': items})
    st.setf(ref, '_keys', k)
    st.setf(ref, '_items', i)
    if key is not None:
        st.setf(ref, '_key', key)


# ------------------------------------------------------------------ arbitrary well-formed states

def identity(eng, st):
    """the natural-order key function as the code represents it (from running the real constructor)"""


def make(eng, st, cls, natural=False, maxlen='any', name='c', strict=False, respects=True):
    """run the real constructor on no items, then replace the contents by arbitrary well-formed ones.
    yields (st, ref)"""
    K = KeyFn('key_' + name, respects=respects)
    kw = {'key': None if natural else K}
    if issubclass(cls, SD):
        if maxlen == 'any':
            m = fresh_int('maxlen')
            st.assume(m >= 0)
            kw['maxlen'] = SInt(m)
        else:
            kw['maxlen'] = maxlen
    for s, r in eng.instantiate(st, cls, [], kw):
        if is_raise(r):
            continue
        fill(eng, s, r, name, strict)
        yield s, r


def fill(eng, st, ref, name='c', strict=False):
    """replace the contents by arbitrary well-formed contents"""
    v, _ = view(eng, st, ref)
    items = Seq.fresh('items_' + name, Item)
    base = items.meta['base']
    key = v['key']
    if isinstance(key, KeyFn):
        keys = items.map(lambda x: SKey(key.of(x.t)))
    else:
        x = SItem(fresh('x', Item))
        t = key_term(eng, st, key, x)
        natural = t.eq(item_ord(x.t))
        of = lambda y: z3.substitute(t, (x.t, y))       # a key function of the code under contract: its value for an item
        keys = items if natural else items.map(lambda y: SKey(of(y.t)))
    if isinstance(key, KeyFn):
        kt = lambda i: key.of(base(i))
    else:
        kt = lambda i: of(base(i))
    n = items.n
    st.assume(n >= 0)
    st.fact(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), (kt(i) < kt(j)) if strict else (kt(i) <= kt(j))),
            'sorted')
    if 'maxlen' in v and v['maxlen'] is not None:
        st.assume(n <= zint(as_int(v['maxlen'])))
    st.setf(st.f(ref, '_keys'), 'seq', keys)
    st.setf(st.f(ref, '_items'), 'seq', items)
    for oid in list(st.heap):
        hidden.forget(st, Ref(oid))


def is_wf(eng, st, ref, oblige):
    """obligations that the abstract state is well-formed"""
    v = V(eng, st, ref)
    oblige('keys and items have equal length', simp(zint(v.keys.n) == v.zn))
    if isinstance(v.n, int) and v.n == 0:
        return
    i, j = fresh_int('wi'), fresh_int('wj')
    s = st.copy()
    s.assume(z3.And(0 <= i, i < j, j < v.zn))
    eng.oblige(s, 'representation invariant: keys are non-decreasing', v.kt(i) <= v.kt(j))
    s = st.copy()
    s.assume(z3.And(0 <= i, i < v.zn))
    eng.oblige(s, 'representation invariant: each key is the key of its item', v.kt(i) == v.keyof(v.items.at(i)))
    if v.deque and v.maxlen is not None:
        oblige('at most limit items', simp(v.zn <= zint(as_int(v.maxlen))))


# ------------------------------------------------------------------ searching primitives (specification side)

def first(eng, st, lo, hi, pred):
    """yields (st, first index in [lo,hi) with pred | None)"""
    yield from eng.fork_exists(st, lo, hi, pred, 'first')


def last(eng, st, lo, hi, pred):
    a = st.copy()
    r = fresh_int('last')
    a.assume(z3.And(r >= zint(lo), r < zint(hi), zbool(pred(r))))
    a.fact(1, lambda j: z3.Implies(z3.And(r < j, j < zint(hi)), z3.Not(zbool(pred(j)))), 'last')
    if eng.feasible(a):
        yield a, r
    b = st.copy()
    b.fact(1, lambda j: z3.Implies(z3.And(zint(lo) <= j, j < zint(hi)), z3.Not(zbool(pred(j)))), 'none')
    if eng.feasible(b):
        yield b, None


def VE():
    return Raise(Exc(ValueError, ('spec',)))


def keyarg(k):
    t = as_key(k)
    if t is None:
        raise Unsupported(f'search key {k!r}')
    return t


def with_none(rule):
    """searching for None in a non-empty collection of comparable keys is a TypeError, in an empty one a ValueError"""
    def spec(eng, st, a):
        v = V(eng, st, a[0])
        if a[1] is None:
            for s, e in eng.branch(st, simp(v.zn == 0)):
                yield s, (VE() if e else Raise(Exc(TypeError, ('spec',))))
            return
        yield from rule(eng, st, v, keyarg(a[1]))
    return spec


def found(v, s, i):
    return s, (VE() if i is None else v.items.at(i))


@with_none
def s_find(eng, st, v, k):
    for s, i in first(eng, st, 0, v.n, lambda j: v.kt(j) == k):
        yield found(v, s, i)


@with_none
def s_find_le(eng, st, v, k):
    for s, i in last(eng, st, 0, v.n, lambda j: v.kt(j) <= k):
        yield found(v, s, i)


@with_none
def s_find_lt(eng, st, v, k):
    for s, i in last(eng, st, 0, v.n, lambda j: v.kt(j) < k):
        yield found(v, s, i)


@with_none
def s_find_ge(eng, st, v, k):
    for s, i in first(eng, st, 0, v.n, lambda j: v.kt(j) >= k):
        yield found(v, s, i)


@with_none
def s_find_gt(eng, st, v, k):
    for s, i in first(eng, st, 0, v.n, lambda j: v.kt(j) > k):
        yield found(v, s, i)


@with_none
def s_find_last_gt(eng, st, v, k):
    for s, i in last(eng, st, 0, v.n, lambda j: v.kt(j) > k):
        yield found(v, s, i)


def eq_at(eng, st, v, item):
    """the j-th item matches: it compares equal and has the same key (one implies the other if the key function respects
    equality, see DESIGN.md)"""
    k = v.keyof(item)
    return lambda j: z3.And(v.kt(j) == k, zbool(eng.py_eq(st, v.items.at(j), item)))


def s_contains(eng, st, a):
    v = V(eng, st, a[0])
    for s, i in first(eng, st, 0, v.n, eq_at(eng, st, v, a[1])):
        yield s, i is not None


def s_index(eng, st, a):
    v = V(eng, st, a[0])
    for s, i in first(eng, st, 0, v.n, eq_at(eng, st, v, a[1])):
        yield s, (VE() if i is None else mkint(i))


def s_count(eng, st, a):
    v = V(eng, st, a[0])
    if isinstance(v.key, KeyFn) and not v.key.respects:
        raise Unsupported('count under a key function by which equal items may have different keys')
    yield st, mkint(count_true(eng, st, v.items, lambda e: eng.py_eq(st, e, a[1])))


def s_len(eng, st, a):
    yield st, mkint(V(eng, st, a[0]).n)


def s_getitem(eng, st, a):
    v = V(eng, st, a[0])
    i = a[1]
    if isinstance(i, slice):
        if v.deque:
            yield st, ANY
            return
        b = slice_bounds(st, v.n, i)
        if b is None:
            yield st, ANY
            return
        yield st, st.alloc(NList, {'seq': sub(v.items, *b)})
        return
    for s, p in norm_index(eng, st, v.n, i):
        yield s, (Raise(Exc(IndexError, ('spec',))) if p is None else v.items.at(p))


def s_iter(eng, st, a):
    yield st, SeqIter(V(eng, st, a[0]).items)


def s_reversed(eng, st, a):
    yield st, SeqIter(V(eng, st, a[0]).items.reverse())


def s_insert_at(right):
    def spec(eng, st, a):
        v = V(eng, st, a[0])
        item = a[1]
        k = v.keyof(item)
        kv = SKey(k) if isinstance(v.key, KeyFn) else item
        if v.deque and v.maxlen is not None:
            forks = eng.branch(st, simp(v.zn >= zint(as_int(v.maxlen))))
        else:
            forks = [(st, False)]
        for s0, full in forks:
            if full:
                # a full size-limited collection cannot insert: an error, and nothing changes
                yield s0, AnyExc(IndexError, ValueError)
                continue
            pred = (lambda j: v.kt(j) > k) if right else (lambda j: v.kt(j) >= k)
            for s, i in first(eng, s0, 0, v.n, pred):
                p = v.n if i is None else i
                set_state(eng, s, a[0], v.keys.insert(p, kv), v.items.insert(p, item))
                yield s, None
    return spec


def s_remove(eng, st, a):
    v = V(eng, st, a[0])
    for s, i in first(eng, st, 0, v.n, eq_at(eng, st, v, a[1])):
        if i is None:
            yield s, VE()
        else:
            set_state(eng, s, a[0], v.keys.delete(i), v.items.delete(i))
            yield s, None


def s_clear(eng, st, a):
    set_state(eng, st, a[0], Seq.concrete([]), Seq.concrete([]))
    yield st, None


def s_append(eng, st, a):
    v = V(eng, st, a[0])
    item = a[1]
    for s0, kv in eng.call(st, v.key, [item], {}):
        if is_raise(kv):
            yield s0, kv
            continue
        k = as_key(kv)
        if k is None:
            raise Unsupported('key value')
        kv = item if not isinstance(v.key, KeyFn) else kv
        bad = z3.And(v.zn > 0, z3.Not(k > v.kt(v.zn - 1)))
        for s, rejected in eng.branch(s0, bad):
            if rejected:
                yield s, VE()
                continue
            keys, items = v.keys, v.items
            if v.maxlen is None:
                set_state(eng, s, a[0], keys.append(kv), items.append(item))
                yield s, None
                continue
            m = zint(as_int(v.maxlen))
            for s2, full in eng.branch(s, simp(v.zn >= m)):
                if not full:
                    set_state(eng, s2, a[0], keys.append(kv), items.append(item))
                    yield s2, None
                    continue
                for s3, zero in eng.branch(s2, simp(m == 0)):
                    if not zero:
                        set_state(eng, s3, a[0], sub(keys, 1, v.n).append(kv), sub(items, 1, v.n).append(item))
                    yield s3, None


def s_range(eng, st, a):
    v = V(eng, st, a[0])
    start, stop = keyarg(a[1]), keyarg(a[2])
    step = a[3] if len(a) > 3 else None
    for s, i in first(eng, st, 0, v.n, lambda j: v.kt(j) >= start):
        lo = v.n if i is None else i
        for s2, j in first(eng, s, 0, v.n, lambda j: v.kt(j) > stop):
            hi = v.n if j is None else j
            yield from stepped(eng, s2, v, lo, hi, step)


def stepped(eng, st, v, lo, hi, step):
    """fresh list of items lo, lo+step, ... below hi"""
    if step is None:
        step = 1
    sp = as_int(step)
    if sp is None:
        yield st, ANY
        return
    for s, ok in eng.branch(st, zint(sp) >= 1):
        if not ok:
            yield s, ANY
            continue
        if isinstance(sp, int) and sp == 1:
            h = simp(z3.If(zint(hi) < zint(lo), zint(lo), zint(hi)))
            yield s, s.alloc(NList, {'seq': sub(v.items, lo, h)})
        else:
            yield s, s.alloc(NList, {'seq': step_slice(s, v.items, lo, hi, sp)})


def s_range_by_index(eng, st, a):
    v = V(eng, st, a[0])
    i, j = as_int(a[1]), as_int(a[2])
    if i is None or j is None:
        yield st, ANY
        return
    for s, ok in eng.branch(st, z3.And(zint(i) >= 0, zint(j) >= 0)):
        if not ok:
            yield s, ANY
            continue
        lo = simp(z3.If(zint(i) > v.zn, v.zn, zint(i)))
        hi = simp(z3.If(zint(j) > v.zn, v.zn, zint(j)))
        yield from stepped(eng, s, v, lo, hi, a[3] if len(a) > 3 else None)


def s_drop(eng, st, a):
    v = V(eng, st, a[0])
    d = as_int(a[1] if len(a) > 1 else 1)
    if d is None:
        yield st, ANY
        return
    for s, ok in eng.branch(st, z3.And(0 <= zint(d), zint(d) <= v.zn)):
        if not ok:
            yield s, ANY
            continue
        set_state(eng, s, a[0], sub(v.keys, d, v.n), sub(v.items, d, v.n))
        yield s, None


# ---- building: a sorted permutation of the given items

def input_items(eng, st, it):
    """the elements of an iterable of items as a Seq"""
    for s, sq in natives.as_seq(eng, st, it):
        if is_raise(sq) or not isinstance(sq, Seq):
            raise Unsupported('building from a non-sequence')
        yield s, sq


def s_build(cls_items):
    """set_state to a sorted permutation of `items` under `key`, the last `maxlen` of them"""


def build_spec(eng, st, ref, items, keyobj, maxlen, fresh_obj=False):
    """apply-side: choose an arbitrary sorted permutation"""
    o = st.get(ref)
    deque_ = issubclass(o.cls, SD)
    n = items.n
    if isinstance(n, int) and n == 0:
        keys = its = Seq.concrete([])
    else:
        perm, inv = seq_fun('perm', IntS), seq_fun('inv', IntS)
        zn = zint(n)
        at = items.at
        kt = lambda i: keyobj_term(eng, st, keyobj, at(perm(i)))
        rng = lambda i: z3.And(0 <= i, i < zn)
        st.fact(1, lambda i: z3.Implies(rng(i), z3.And(rng(perm(i)), inv(perm(i)) == i)), 'perm')
        st.fact(1, lambda i: z3.Implies(rng(i), z3.And(rng(inv(i)), perm(inv(i)) == i)), 'perm')
        st.fact(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < zn), kt(i) <= kt(j)), 'sorted')
        its = Seq(n, lambda i: at(perm(zint(i))))
        keys = its.map(lambda x: SKey(keyobj_term(eng, st, keyobj, x))) if isinstance(keyobj, KeyFn) else its
    if deque_ and maxlen is not None:
        m = as_int(maxlen)
        for s, big in eng.branch(st, simp(zint(n) > zint(m))):
            a, b = (sub(keys, subi(n, m), n), sub(its, subi(n, m), n)) if big else (keys, its)
            set_state(eng, s, ref, a, b, keyobj, maxlen)
            yield s
        return
    if deque_:
        set_state(eng, st, ref, keys, its, keyobj, None)
    else:
        set_state(eng, st, ref, keys, its, keyobj)
    yield st


def keyobj_term(eng, st, keyobj, item):
    if keyobj is None:
        return item_ord(item.t)
    return key_term(eng, st, keyobj, item)


def check_built(eng, s, ref, items, keyobj, maxlen, oblige, natural=False):
    """verify-side: the collection holds a sorted permutation of `items` (the last maxlen of them)"""
    v = V(eng, s, ref)
    n = zint(items.n)
    if maxlen is not None and v.deque:
        m = zint(as_int(maxlen))
        off = z3.If(n > m, n - m, z3.IntVal(0))
    else:
        off = z3.IntVal(0)
    oblige(s, 'the number of items kept', v.zn == n - off)
    oblige(s, 'keys and items have equal length', zint(v.keys.n) == v.zn)
    if v.deque:
        from pyve.contract import sym_eq as se
        for nm in ('maxlen', 'keys.maxlen', 'items.maxlen'):
            g = view(eng, s, ref)[0][nm]
            oblige(s, f'the limit is kept ({nm})', sym_eq(g, maxlen))
    x = SItem(fresh('x', Item))
    oblige(s, 'the key function is the one given', key_term(eng, s, v.key, x) == keyobj_term(eng, s, keyobj, x))
    i = fresh_int('bi')
    s1 = s.copy()
    s1.assume(z3.And(0 <= i, i < v.zn))
    oblige(s1, 'each key is the key of its item', v.kt(i) == keyobj_term(eng, s, keyobj, v.items.at(i)))
    if isinstance(items.n, int) and items.n == 0:
        return
    # a permutation witness created by sorting (or the identity); composition of two sorts is tried as well
    perms = [(lambda k: k)] + [(lambda k, p=p: p(k)) for p, _, _ in s.ghost.get('perms', ())]
    ps = [p for p, _, _ in s.ghost.get('perms', ())]
    perms += [(lambda k, p=p, q=q: p(q(k))) for p in ps for q in ps if p is not q]
    from pyve import solver
    best = None
    for p in perms:
        r = solver.prove(s1.pc, s1.facts, zbool(sym_eq(v.items.at(i), items.at(simp(p(i + off))))), 5, quick=True)
        if r.status == 'proved':
            best = p
            break
    if best is None:
        # no permutation witness among the sorts performed: compare as the identity to get a counterexample
        if not ps:
            oblige(s1, 'exactly the given items are kept', False)
        else:
            oblige(s1, 'exactly the given items are kept',
                   zbool(sym_eq(v.items.at(i), items.at(simp(perms[1](i + off))))))
        return
    oblige(s1, 'exactly the given items are kept', zbool(sym_eq(v.items.at(i), items.at(simp(best(i + off))))))
    a, b = fresh_int('pa'), fresh_int('pb')
    s2 = s.copy()
    s2.assume(z3.And(0 <= a, a < b, b < n))
    pa, pb = simp(best(a)), simp(best(b))
    oblige(s2, 'the kept items are those with the largest keys, in non-decreasing order',
           keyobj_term(eng, s, keyobj, items.at(pa)) <= keyobj_term(eng, s, keyobj, items.at(pb)))


# ------------------------------------------------------------------ scenarios

def scen(cls, argf, labels=('key', 'natural'), maxlens=('any', None), respects=True):
    """arbitrary well-formed collection and arguments (respects: items that compare equal have equal keys)"""
    def scenarios():
        for lab in labels:
            for ml in (maxlens if issubclass(cls, SD) else (None,)):
                def setup(eng, lab=lab, ml=ml):
                    for s, r in make(eng, State(), cls, natural=lab == 'natural', maxlen=ml, respects=respects):
                        for extra in argf(eng, s, r):
                            yield s.copy(), [r] + extra, {}
                yield f'{cls.__name__}, {lab}, limit {ml}', setup
    return scenarios


def item_arg(eng, s, r):
    yield [SItem(fresh('item', Item))]


def key_arg(eng, s, r):
    yield [SKey(fresh('k', RealS))]


def key_or_none(eng, s, r):
    yield [SKey(fresh('k', RealS))]
    yield [None]


def no_arg(eng, s, r):
    yield []


def int_arg(eng, s, r):
    yield [SInt(fresh_int('arg'))]


def range_args(eng, s, r):
    yield [SKey(fresh('start', RealS)), SKey(fresh('stop', RealS)), None]
    yield [SKey(fresh('start', RealS)), SKey(fresh('stop', RealS)), SInt(fresh_int('step'))]


def index_range_args(eng, s, r):
    yield [SInt(fresh_int('start')), SInt(fresh_int('stop')), None]
    yield [SInt(fresh_int('start')), SInt(fresh_int('stop')), SInt(fresh_int('step'))]


METHODS = {
    # name: (spec, argument generator, classes)
    'find': (s_find, key_or_none), 'find_le': (s_find_le, key_or_none), 'find_lt': (s_find_lt, key_or_none),
    'find_ge': (s_find_ge, key_or_none), 'find_gt': (s_find_gt, key_or_none),
    'find_last_gt': (s_find_last_gt, key_or_none),
    '__contains__': (s_contains, item_arg), 'index': (s_index, item_arg), 'count': (s_count, item_arg),
    '__len__': (s_len, no_arg), '__getitem__': (s_getitem, int_arg),
    '__iter__': (s_iter, no_arg), '__reversed__': (s_reversed, no_arg),
    'insert': (s_insert_at(False), item_arg), 'insert_right': (s_insert_at(True), item_arg),
    'remove': (s_remove, item_arg), 'clear': (s_clear, no_arg), 'append': (s_append, item_arg),
    'range': (s_range, range_args), 'range_by_index': (s_range_by_index, index_range_args), 'drop': (s_drop, int_arg),
}


def applies(eng, st, a):
    return isinstance(a[0], Ref) and isinstance(st.get(a[0]).cls, type) and issubclass(st.get(a[0]).cls, SC)


def contract(cls, name, respects=True):
    spec, argf = METHODS[name]
    f = getattr(cls, name)
    return Contract(f'{cls.__name__}.{name}', f, spec, scen(cls, argf, respects=respects), applies=applies)


def registry():
    """id(function) -> contract, for every method of the two classes"""
    out = {}
    for cls in (SC, SD):
        for nm in METHODS:
            f = getattr(cls, nm, None)
            if f is not None and id(f) not in out:
                out[id(f)] = contract(cls, nm)
        f = cls.__init__
        if id(f) not in out:
            out[id(f)] = init_contract(cls)
    return out


# ---- constructor, copy, re-keying, limit

def init_contract(cls):
    def spec(eng, st, a):
        it, key = a[1], a[2]
        maxlen = a[3] if len(a) > 3 else None
        if a[0].oid not in st.heap:
            raise Unsupported('constructor')
        for s, sq in input_items(eng, st, it):
            if sq.values is None or sq.n > 0:
                if not isinstance(sq.at(fresh_int('p')) if sq.values is None else sq.values[0], SItem):
                    raise Unsupported('building from unknown elements')
            k = key if key is not None else NATURAL
            s.setf(a[0], '_given_key', key)
            if issubclass(s.get(a[0]).cls, SD):
                s.setf(a[0], '_maxlen', maxlen)
            for s2 in build_spec(eng, s, a[0], sq, k, maxlen):
                yield s2, None
    return Contract(f'{cls.__name__}.__init__', cls.__init__, spec, None, applies=lambda eng, st, a: True)


def build_scenarios(cls):
    """cls(items, key[, maxlen]) for arbitrary items"""
    def scenarios():
        for lab in ('key', 'natural'):
            for ml in (('any', None) if issubclass(cls, SD) else (None,)):
                def setup(eng, lab=lab, ml=ml):
                    s = State()
                    q = Seq.fresh('given', Item)
                    s.assume(q.n >= 0)
                    lst = s.alloc(NList, {'seq': q})
                    a = [lst, None if lab == 'natural' else KeyFn('given', respects=True)]
                    if issubclass(cls, SD):
                        if ml == 'any':
                            m = fresh_int('maxlen')
                            s.assume(m >= 0)
                            a.append(SInt(m))
                        else:
                            a.append(None)
                    yield s, a, {}
                yield f'{cls.__name__}, {lab}, limit {ml}', setup
    return scenarios


def c_build(cls):
    def run(eng, st, args, kw):
        yield from eng.instantiate(st, cls, args, {})

    def post(eng, pre, s, args, out, rep):
        nm = f'{cls.__name__}(...)'
        rep.covered.add('build')
        if is_raise(out):
            eng.oblige(s, f'{nm}: building succeeds (not {out.exc.cls.__name__})', False)
            return
        items = pre.f(args[0], 'seq')
        frame_same(eng, pre, s, nm, ())
        check_built(eng, s, out, items, args[1], args[2] if len(args) > 2 else None,
                    lambda st, n, g: eng.oblige(st, f'{nm}: {n}', g))
    return Contract(f'{cls.__name__}.__init__', cls.__init__, None, build_scenarios(cls), run=run, post=post)


def frame_same(eng, pre, s, nm, skip):
    c = Cmp(eng, s, pre.heap, s, pre, nm)
    owned = set()
    for r in skip:
        owned |= {r.oid} | view(eng, pre, r)[1]
    for oid, o in pre.heap.items():
        if oid not in owned and s.heap[oid] is not o:
            c.obj('frame: an object that must not change', Ref(oid), Ref(oid))


def c_rekey(cls):
    """collection.key = K2"""
    def argf(eng, s, r):
        yield [KeyFn('new', respects=True)]
        yield [None]
        yield ['same']

    def run(eng, st, args, kw):
        k = args[1]
        if isinstance(k, str):
            k = st.f(args[0], '_key')
        yield from ((s, v) for s, v in eng.setattr(st, args[0], 'key', k))

    def post(eng, pre, s, args, out, rep):
        nm = f'{cls.__name__}.key = ...'
        rep.covered.add('rekey')
        if is_raise(out):
            eng.oblige(s, f'{nm}: succeeds (not {out.exc.cls.__name__})', False)
            return
        v0 = V(eng, pre, args[0])
        k = v0.key if isinstance(args[1], str) else args[1]
        frame_same(eng, pre, s, nm, (args[0],))
        check_built(eng, s, args[0], v0.items, k, v0.maxlen, lambda st, n, g: eng.oblige(st, f'{nm}: {n}', g))
    return Contract(f'{cls.__name__}.key setter', None, None, scen(cls, argf), run=run, post=post)


def c_delkey(cls):
    def run(eng, st, args, kw):
        yield from eng.delattr(st, args[0], 'key')

    def post(eng, pre, s, args, out, rep):
        nm = f'del {cls.__name__}.key'
        if is_raise(out):
            eng.oblige(s, f'{nm}: succeeds (not {out.exc.cls.__name__})', False)
            return
        v0 = V(eng, pre, args[0])
        frame_same(eng, pre, s, nm, (args[0],))
        check_built(eng, s, args[0], v0.items, None, v0.maxlen, lambda st, n, g: eng.oblige(st, f'{nm}: {n}', g))
    return Contract(f'{cls.__name__}.key deleter', None, None, scen(cls, no_arg), run=run, post=post)


def c_getkey(cls):
    def run(eng, st, args, kw):
        yield from eng.getattr(st, args[0], 'key')

    def spec(eng, st, a):
        yield st, V(eng, st, a[0]).key
    return Contract(f'{cls.__name__}.key getter', None, spec, scen(cls, no_arg), run=run)


def c_getmaxlen():
    def run(eng, st, args, kw):
        yield from eng.getattr(st, args[0], 'maxlen')

    def spec(eng, st, a):
        yield st, V(eng, st, a[0]).maxlen
    return Contract('SortedDeque.maxlen getter', None, spec, scen(SD, no_arg), run=run)


def c_setmaxlen():
    """deque.maxlen = m (or deleted): keeps the items with the largest keys that fit"""
    def argf(eng, s, r):
        m = fresh_int('newmax')
        s.assume(m >= 0)
        yield [SInt(m)]
        yield [None]
        yield ['del']

    def run(eng, st, args, kw):
        if args[1] == 'del' and isinstance(args[1], str):
            yield from eng.delattr(st, args[0], 'maxlen')
        else:
            yield from eng.setattr(st, args[0], 'maxlen', args[1])

    def post(eng, pre, s, args, out, rep):
        nm = 'SortedDeque.maxlen = ...'
        rep.covered.add('maxlen')
        if is_raise(out):
            eng.oblige(s, f'{nm}: succeeds (not {out.exc.cls.__name__})', False)
            return
        v0 = V(eng, pre, args[0])
        ml = None if isinstance(args[1], str) else args[1]
        frame_same(eng, pre, s, nm, (args[0],))
        check_built(eng, s, args[0], v0.items, v0.key, ml, lambda st, n, g: eng.oblige(st, f'{nm}: {n}', g))
    return Contract('SortedDeque.maxlen setter', None, None, scen(SD, argf), run=run, post=post)


def c_append_unordered():
    """append of an item whose key is not ordered (a NaN) to a window that holds something: refused, nothing changes"""
    def scenarios():
        for lab in ('key', 'natural'):
            for ml in ('any', None):
                def setup(eng, lab=lab, ml=ml):
                    for s, r in make(eng, State(), SD, natural=lab == 'natural', maxlen=ml):
                        s.assume(V(eng, s, r).zn > 0)
                        yield s, [r, UNORDERED if lab == 'natural' else OddItem(fresh('item', Item))], {}
                yield f'SortedDeque, {lab}, limit {ml}, a key that is not ordered', setup

    def spec(eng, st, a):
        yield st, VE()
    return Contract('SortedDeque.append', SD.append, spec, scenarios)


def c_append_uncomparable():
    """append of an item whose key cannot be compared, to a window that holds something: it raises and changes nothing"""
    def scenarios():
        for lab, exc in itertools.product(('key', 'natural'), (TypeError, ValueError, IndexError, KeyError, Exception)):
            def setup(eng, lab=lab, exc=exc):
                for s, r in make(eng, State(), SD, natural=lab == 'natural', maxlen='any'):
                    s.assume(V(eng, s, r).zn > 0)
                    x = OddItem(fresh('item', Item))
                    x.key = Uncomparable(exc)
                    yield s, [r, x.key if lab == 'natural' else x], {}
            yield f'SortedDeque, {lab}, comparing the key raises {exc.__name__}', setup

    def spec(eng, st, a):
        yield st, AnyExc(Exception)
    return Contract('SortedDeque.append', SD.append, spec, scenarios)


def copy_module(cls):
    """what copy.copy does with a collection: __copy__, else what __reduce__ says it is made with"""
    def run(eng, st, args, kw):
        if hasattr(cls, '__copy__'):
            yield from eng.call(st, Bound(cls.__copy__, args[0]), [], {})
            return
        f = cls.__reduce__
        if '__reduce_ex__' in vars(cls) or not isinstance(f, types.FunctionType):
            raise Unsupported('copied by the copy module in another way')
        for s, r in eng.call(st, Bound(f, args[0]), [], {}):
            if is_raise(r):
                yield s, r
                continue
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], tuple)):
                raise Unsupported('copied by the copy module in another way')
            yield from eng.call(s, r[0], list(r[1]), {})
    return run


def c_copy(cls, by_module=False):
    """copying by the method copy, or by copy.copy"""
    f = cls.copy

    def post(eng, pre, s, args, out, rep):
        nm = f'{cls.__name__}.copy' if not by_module else f'copy.copy({cls.__name__})'
        rep.covered.add('copy')
        if is_raise(out) or not isinstance(out, Ref):
            eng.oblige(s, f'{nm}: returns a collection', False)
            return
        v0 = V(eng, pre, args[0])
        frame_same(eng, pre, s, nm, ())
        eng.oblige(s, f'{nm}: is a new object of the same class',
                   out.oid not in pre.heap and s.get(out).cls is pre.get(args[0]).cls)
        shared = view(eng, s, out)[1] & (view(eng, s, args[0])[1] | set(pre.heap))
        eng.oblige(s, f'{nm}: shares no mutable state with the original', not shared)
        v = V(eng, s, out)
        eng.oblige(s, f'{nm}: equal length', v.zn == v0.zn)
        check_built(eng, s, out, v0.items, v0.key, v0.maxlen, lambda st, n, g: eng.oblige(st, f'{nm}: {n}', g))
        # equal contents in the same order (copying a sorted collection is stable)
        i = fresh_int('ci')
        s1 = s.copy()
        s1.assume(z3.And(0 <= i, i < v0.zn))
        natives.increasing_identity(s1)
        eng.oblige(s1, f'{nm}: equal contents in the same order', zbool(sym_eq(v.items.at(i), v0.items.at(i))))
    if by_module:
        return Contract(f'copy.copy({cls.__name__})', None, None, scen(cls, no_arg), run=copy_module(cls), post=post)
    return Contract(f'{cls.__name__}.copy', f, None, scen(cls, no_arg), post=post)


def wf_lemmas():
    """the specified effects preserve the representation invariant (lemmas over the contracts)"""
    out = []
    for cls in (SC, SD):
        for nm in ('insert', 'insert_right', 'remove', 'clear', 'append', 'drop'):
            if not hasattr(cls, nm):
                continue
            spec, argf = METHODS[nm]

            def run(eng, st, args, kw, spec=spec):
                yield from spec(eng, st, args)

            def post(eng, pre, s, args, o, rep, nm=nm):
                if isinstance(o, (Raise, AnyExc, Anything)):
                    return
                is_wf(eng, s, args[0], lambda n, g: eng.oblige(s, f'{nm} preserves: {n}', g))
            out.append(Contract(f'lemma: {cls.__name__}.{nm} preserves the representation invariant', None, None,
                                scen(cls, argf), run=run, post=post))
    return out


# ------------------------------------------------------------------ what decides which property

def _all(names, lemmas=()):
    out = []
    for cls in (SC, SD):
        for nm in names:
            if hasattr(cls, nm):
                out.append(contract(cls, nm))
    return out + [c for c in wf_lemmas() if any(f'.{x} ' in c.name for x in lemmas)]


def for_c01():
    out = _all(('insert', 'insert_right', 'remove', 'clear', '__iter__', '__contains__', 'find'),
               ('insert', 'insert_right', 'remove', 'clear', 'append', 'drop'))
    for cls in (SC, SD):
        out += [c_build(cls), c_rekey(cls), c_delkey(cls), c_getkey(cls), c_copy(cls), c_copy(cls, True)]
    return out + [contract(SD, 'append'), contract(SD, 'drop'), c_getmaxlen(), c_setmaxlen()]


def for_c02():
    return _all(('find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'find_last_gt', '__contains__', 'index', 'count',
                 '__len__', '__getitem__', '__iter__', '__reversed__'))


def for_c03():
    return [contract(SD, 'range'), contract(SD, 'range_by_index')]


def for_c04():
    return [contract(SD, 'append'), contract(SD, 'drop'), contract(SD, 'clear'), contract(SD, 'insert'),
            contract(SD, 'insert_right'), contract(SD, 'remove'), contract(SD, '__len__'), c_build(SD), c_setmaxlen(),
            c_getmaxlen(), c_rekey(SD), c_copy(SD), c_append_unordered(), c_append_uncomparable()] + [c for c in wf_lemmas() if 'SortedDeque' in c.name]
