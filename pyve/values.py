"""Engine values, heap objects and symbolic sequences."""
import itertools
import z3
from .solver import Item, Opq, IntS, RealS, BoolS, fresh, fresh_int, fresh_name, seq_fun


class Unsupported(Exception):
    """The code left the subset the engine understands: the obligation is undecided, never a violation."""


class Sym:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'{type(self).__name__}({self.t})'


class SInt(Sym):
    sort = IntS


class SBool(Sym):
    sort = BoolS


class SKey(Sym):
    """an element of the (totally ordered) key type, embedded in the rationals"""
    sort = RealS


class SItem(Sym):
    sort = Item


class SOpq(Sym):
    """an arbitrary user object that is not None"""
    sort = Opq


class SStr(Sym):
    """opaque string (only identity known)"""
    sort = Opq


KINDS = {IntS: SInt, BoolS: SBool, RealS: SKey, Item: SItem, Opq: SOpq}

# equality of items: items are equal iff they have the same class; keys respect equality
item_class = z3.Function('item_class', Item, IntS)
ord_of_class = z3.Function('ord_of_class', IntS, RealS)     # natural order of items (key=None)
opq_none = z3.Function('opq_none', Opq, BoolS)              # an unknown value can be None
opq_truth = z3.Function('opq_truth', Opq, BoolS)
item_truth = z3.Function('item_truth', Item, BoolS)
item_none = z3.Function('item_none', Item, BoolS)           # an item can be None, if it has a key
key_truth = z3.Function('key_truth', RealS, BoolS)


def item_ord(t):
    return ord_of_class(item_class(t))


class Poison:
    def __repr__(self):
        return '<poison>'


POISON = Poison()


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f'Ref({self.oid})'

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('Ref', self.oid))


class Exc:
    """an exception instance.  arbitrary: any subclass of cls except `excl`"""
    __slots__ = ('cls', 'args', 'arbitrary', 'excl', 'tag', 'fields')
    _n = itertools.count()

    def __init__(self, cls, args=(), arbitrary=False, excl=(), tag=None):
        self.cls, self.args, self.arbitrary, self.excl = cls, args, arbitrary, tuple(excl)
        self.tag = next(Exc._n) if tag is None else tag
        self.fields = {}

    def narrowed(self, cls=None, excl=None):
        e = Exc(cls or self.cls, self.args, self.arbitrary, self.excl + ((excl,) if excl else ()), self.tag)
        return e

    def __repr__(self):
        return f'{self.cls.__name__}{"(any)" if self.arbitrary else ""}#{self.tag}'


class ExcType:
    """the class of an arbitrary exception"""
    eng_type = type

    def __init__(self, exc):
        self.exc = exc

    def __eq__(self, o):
        return isinstance(o, ExcType) and o.exc.tag == self.exc.tag

    def __hash__(self):
        return hash(('ExcType', self.exc.tag))

    def __repr__(self):
        return f'type({self.exc})'


class Raise:
    __slots__ = ('exc',)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f'Raise({self.exc})'


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self == self.self

    def __hash__(self):
        return hash((id(self.func), self.self if isinstance(self.self, Ref) else 0))

    def __repr__(self):
        return f'Bound({getattr(self.func, "__qualname__", self.func)}, {self.self})'


class Closure:
    """a function or lambda created by symbolically executed code"""

    def __init__(self, node, fid, globs, defaults, kwdefaults, qualname, clsname):
        self.node, self.fid, self.globs = node, fid, globs
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qualname, self.clsname = qualname, clsname
        self.contextmanager = False
        self.attrs = {}


class SymClass:
    """a class created by symbolically executed code"""

    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns
        self.__name__ = name

    def mro(self):
        out = [self]
        for b in self.bases:
            for k in (b.mro() if isinstance(b, SymClass) else b.__mro__):
                if k not in out:
                    out.append(k)
        return out


class PropVal:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class NativeFn:
    """handler(eng, st, args, kwargs) -> generator of (st, value | Raise)"""

    def __init__(self, handler, name='', method=False):
        self.handler, self.name, self.method = handler, name, method
        self.attrs = {}

    def eng_getattr(self, eng, st, name):
        if name in self.attrs:
            yield st, self.attrs[name]
        else:
            yield st, Raise(Exc(AttributeError, (name,)))

    def __repr__(self):
        return f'NativeFn({self.name})'


class KeyFn:
    """an abstract key function: total on items; respects: items that compare equal have equal keys"""

    def __init__(self, name='key', real=None, raises=False, respects=False):
        self.name, self.respects = name, respects or real is not None
        self.fn = real if real is not None else z3.Function(fresh_name('kf'), IntS if respects else Item, RealS)
        self.raises = raises

    def of(self, item_term):
        return self.fn(item_class(item_term) if self.respects else item_term)

    def __repr__(self):
        return f'KeyFn({self.name})'


class OddItem(SItem):
    """an item whose key is not ordered (a NaN), or cannot be compared"""
    key = None


class Unordered:
    """a value that is neither less nor greater than, nor equal to, anything (a NaN)"""

    def eng_eq(self, o):
        return False

    def __repr__(self):
        return 'NaN'


UNORDERED = Unordered()


class Uncomparable:
    """a value whose comparison raises"""

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return f'Uncomparable({self.cls.__name__})'
NATURAL = KeyFn('natural order', real=ord_of_class)


class HObj:
    """heap object; immutable (replaced on write)"""
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def set(self, name, val):
        f = dict(self.fields)
        f[name] = val
        return HObj(self.cls, f)

    def without(self, name):
        f = dict(self.fields)
        del f[name]
        return HObj(self.cls, f)


def as_int(v):
    """z3 Int term or python int of a value; None if it is not an int"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v if type(v) is int else int(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return None


def zint(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def mkint(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def zbool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def vite(c, a, b):
    """value-level if-then-else"""
    if c is True or z3.is_true(c):
        return a
    if c is False or z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, Sym) and type(a) is type(b):
        return type(a)(z3.If(c, a.t, b.t))
    ai, bi = as_int(a), as_int(b)
    if ai is not None and bi is not None and not isinstance(a, (bool, SBool)) and not isinstance(b, (bool, SBool)):
        return SInt(z3.If(c, zint(ai), zint(bi)))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.If(c, zbool(a if isinstance(a, bool) else a.t), zbool(b if isinstance(b, bool) else b.t)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (SKey, SItem)) and isinstance(b, (SKey, SItem)):
        return SKey(z3.If(c, as_key(a), as_key(b)))
    if a is None and b is None:
        return None
    try:
        if isinstance(a, Ref) and a == b:
            return a
        if not isinstance(a, (Sym, Ref)) and not isinstance(b, (Sym, Ref)) and type(a) is type(b) and a == b:
            return a
    except Exception:
        pass
    raise Unsupported(f'merge of {a!r} and {b!r}')


def as_key(v):
    """Real term used to order v, or None"""
    if isinstance(v, SKey):
        return v.t
    if isinstance(v, SItem):
        return item_ord(v.t)
    return None


def is_num(v):
    return isinstance(v, (int, float, SInt, SKey)) and not isinstance(v, bool) or isinstance(v, (bool, SBool))


class TypeOf:
    """the class of an arbitrary object"""

    def __init__(self, v):
        self.v = v

    def eng_eq(self, c):
        if isinstance(c, TypeOf):
            return z3.BoolVal(True) if c.v.t.eq(self.v.t) else z3.FreshConst(BoolS, 'same_type')
        if not isinstance(c, type):
            return z3.BoolVal(False)
        return z3.Function(f'type_is_{c.__module__}.{c.__qualname__}_{self.v.sort}', self.v.sort, BoolS)(self.v.t)


def sym_eq(a, b):
    """specification-level equality (same value / same object): z3 Bool, True or False"""
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        if type(a) is type(b) or a.sort == b.sort:
            return a.t == b.t
        if isinstance(a, (SKey, SItem)) and isinstance(b, (SKey, SItem)):
            return as_key(a) == as_key(b)
        return False
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        x = a.t if isinstance(a, SBool) else z3.BoolVal(a)
        y = b.t if isinstance(b, SBool) else z3.BoolVal(b)
        return x == y
    ai, bi = as_int(a), as_int(b)
    if ai is not None and bi is not None:
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
            return False
        r = zint(ai) == zint(bi)
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        rs = [sym_eq(x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        rs = [r for r in rs if r is not True]
        return z3.And(*rs) if rs else True
    if a is None and isinstance(b, SItem) or b is None and isinstance(a, SItem):
        return item_none((b if a is None else a).t)
    if a is None and isinstance(b, SOpq) or b is None and isinstance(a, SOpq):
        return opq_none((b if a is None else a).t)
    if isinstance(a, (Sym, Ref)) or isinstance(b, (Sym, Ref)):
        return a == b if isinstance(a, Ref) and isinstance(b, Ref) else False
    if isinstance(a, Exc) or isinstance(b, Exc):
        return isinstance(a, Exc) and isinstance(b, Exc) and a.tag == b.tag
    try:
        return bool(type(a) is type(b) and a == b)
    except Exception:
        return False


_seq_ids = itertools.count()


class Seq:
    """finite sequence: length term and element function (index term -> value)"""
    __slots__ = ('n', 'at', 'sid', 'meta')

    def __init__(self, n, at, meta=None):
        self.n = n if isinstance(n, int) else n
        self.at = at
        self.sid = next(_seq_ids)
        self.meta = meta or {}

    @staticmethod
    def fresh(name, sort, n=None):
        f = seq_fun(name, sort)
        k = KINDS[sort]
        return Seq(n if n is not None else fresh_int('len_' + name), lambda i: k(f(zint(i))), {'base': f})

    @staticmethod
    def concrete(values):
        values = list(values)

        def at(i):
            if not isinstance(i, int):
                i2 = z3.simplify(i)
                if z3.is_int_value(i2):
                    i = i2.as_long()
            if isinstance(i, int):
                if 0 <= i < len(values):
                    return values[i]
                return POISON
            if not values:
                return POISON
            r = values[-1]
            for k in range(len(values) - 2, -1, -1):
                r = vite(i == k, values[k], r)
            return r
        return Seq(len(values), at, {'values': values})

    @property
    def values(self):
        return self.meta.get('values')

    def zn(self):
        return zint(self.n)

    def slice(self, lo, hi):
        """elements lo..hi-1; caller guarantees 0<=lo and lo<=hi<=n (or length max(0,hi-lo))"""
        if self.values is not None and isinstance(lo, int) and isinstance(hi, int):
            return Seq.concrete(self.values[lo:max(lo, hi)])
        at = self.at
        n = simp(z3.If(zint(hi) > zint(lo), zint(hi) - zint(lo), 0))
        return Seq(n, lambda i: at(addi(i, lo)))

    def insert(self, p, v):
        if self.values is not None and isinstance(p, int):
            vs = list(self.values)
            vs.insert(p, v)
            return Seq.concrete(vs)
        at = self.at
        if isinstance(self.n, int) and self.n == 0:
            return Seq.concrete([v])
        zp = zint(p)

        def at2(i):
            zi = zint(i)
            return vite(simp(zi < zp), at(zi), vite(simp(zi == zp), v, at(zi - 1)))
        return Seq(addi(self.n, 1), at2)

    def append(self, v):
        if self.values is not None:
            return Seq.concrete(self.values + [v])
        at, n = self.at, self.zn()
        return Seq(addi(self.n, 1), lambda i: vite(simp(zint(i) < n), at(zint(i)), v))

    def delete(self, p):
        if self.values is not None and isinstance(p, int):
            vs = list(self.values)
            del vs[p]
            return Seq.concrete(vs)
        at, zp = self.at, zint(p)

        def at2(i):
            zi = zint(i)
            return vite(simp(zi < zp), at(zi), at(addi(i, 1)))
        return Seq(subi(self.n, 1), at2)

    def concat(self, o):
        if self.values is not None and o.values is not None:
            return Seq.concrete(self.values + o.values)
        if isinstance(self.n, int) and self.n == 0:
            return o
        if isinstance(o.n, int) and o.n == 0:
            return self
        a, b, n = self.at, o.at, self.zn()
        return Seq(addi(self.n, o.n), lambda i: vite(simp(zint(i) < n), a(zint(i)), b(zint(i) - n)))

    def map(self, f):
        if self.values is not None:
            return Seq.concrete([f(v) for v in self.values])
        at = self.at
        return Seq(self.n, lambda i: f(at(i)))

    def reverse(self):
        if self.values is not None:
            return Seq.concrete(self.values[::-1])
        at, n = self.at, self.zn()
        return Seq(self.n, lambda i: at(n - 1 - zint(i)))


def simp(t):
    if isinstance(t, (bool, int)):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    return t


def addi(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(zint(a) + zint(b))


def subi(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return simp(zint(a) - zint(b))


class SeqIter:
    """immutable iterable/iterator value over a sequence (generator expression, iter(), islice(), map())"""

    def __init__(self, seq, kind='iter'):
        self.seq, self.kind = seq, kind


class FilterIter:
    """elements of seq whose condition holds: cond(value)->z3 Bool, val(value)->value"""

    def __init__(self, seq, cond, val):
        self.seq, self.cond, self.val = seq, cond, val


class GenObj:
    """a not yet started generator: function and bound locals"""

    def __init__(self, fn, binding, self_fid=None):
        self.fn, self.binding = fn, binding


class CMVal:
    """context manager made from a generator function by contextlib.contextmanager"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class SuppressVal:
    def __init__(self, classes):
        self.classes = classes


class RangeVal:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class ModelTerms:
    pass
