"""Small functions over a list of integers and two integers; run by CPython and by the contract engine (conformance.py).
Those after SORTED get a sorted list."""
import bisect
import collections
import contextlib
import functools
import itertools
import operator


# ---- lists

def get(xs, a, b):
    return xs[a]


def cut(xs, a, b):
    return xs[a:b]


def cut_from(xs, a, b):
    return xs[a:]


def cut_to(xs, a, b):
    return xs[:b]


def cut_step(xs, a, b):
    return xs[0:b:2]


def cut_last(xs, a, b):
    return xs[-1:], xs[-2:-1]


def put(xs, a, b):
    xs[a] = b


def delete(xs, a, b):
    del xs[a]


def delete_cut(xs, a, b):
    del xs[a:b]


def delete_first(xs, a, b):
    del xs[:b]


def insert(xs, a, b):
    xs.insert(a, b)


def append(xs, a, b):
    xs.append(a)
    return len(xs), xs[-1]


def extend(xs, a, b):
    xs.extend([a, b])
    return xs[-2:]


def pop_last(xs, a, b):
    return xs.pop()


def pop_at(xs, a, b):
    return xs.pop(a)


def pop_first(xs, a, b):
    return xs.pop(0), len(xs)


def index(xs, a, b):
    return xs.index(a)


def index_from(xs, a, b):
    return xs.index(a, b)


def remove(xs, a, b):
    xs.remove(a)


def count(xs, a, b):
    return xs.count(a)


def contains(xs, a, b):
    return a in xs, b not in xs


def clear(xs, a, b):
    xs.clear()
    return not xs


def reverse(xs, a, b):
    xs.reverse()
    return xs[0] if xs else None


def copied(xs, a, b):
    ys = list(xs)
    ys.append(a)
    return len(xs), len(ys)


def alias(xs, a, b):
    ys = xs
    ys.append(a)
    return ys is xs, len(xs)


def joined(xs, a, b):
    return xs + [a, b]


def unpack(xs, a, b):
    first, *rest = xs
    return first, rest


def unpack_two(xs, a, b):
    x, y = xs
    return y, x


def ordered(xs, a, b):
    return sorted(xs)


def ordered_down(xs, a, b):
    return sorted(xs, key=lambda x: -x)


def ordered_ties(xs, a, b):
    return sorted(xs, key=lambda x: x // 2)


def lengths(xs, a, b):
    return len(xs), bool(xs), len(xs) > a


def comprehension(xs, a, b):
    return [x + a for x in xs]


def filtered(xs, a, b):
    return any(x > a for x in xs), all(x > a for x in xs)


def summed(xs, a, b):
    return sum(1 for x in xs if x == a)


def pairs(xs, a, b):
    return list(zip(xs, xs))


def numbered(xs, a, b):
    return list(enumerate(xs))


def numbered_from(xs, a, b):
    return list(enumerate(xs, a))


def next_default(xs, a, b):
    return next(iter(xs), a)


def next_none(xs, a, b):
    it = iter(xs)
    return next(it)


def turned(xs, a, b):
    return list(reversed(xs))


def mapped(xs, a, b):
    return list(map(lambda x: x * 2, xs))


def tuple_of(xs, a, b):
    return tuple(xs)


def sliced(xs, a, b):
    return list(itertools.islice(xs, a, b))


def sliced_n(xs, a, b):
    return list(itertools.islice(xs, b))


def sliced_step(xs, a, b):
    return list(itertools.islice(xs, 0, None, b))


# ---- deques

def dq(xs, a, b):
    return list(collections.deque(xs, b))


def dq_append(xs, a, b):
    d = collections.deque(xs, b)
    d.append(a)
    return list(d), len(d), d.maxlen


def dq_appendleft(xs, a, b):
    d = collections.deque(xs, b)
    d.appendleft(a)
    return list(d)


def dq_extend(xs, a, b):
    d = collections.deque([7, 8], b)
    d.extend(xs)
    return list(d)


def dq_insert(xs, a, b):
    d = collections.deque(xs)
    d.insert(a, b)
    return list(d)


def dq_insert_full(xs, a, b):
    d = collections.deque(xs, b)
    d.insert(0, a)
    return list(d)


def dq_popleft(xs, a, b):
    d = collections.deque(xs)
    return d.popleft(), list(d)


def dq_pop(xs, a, b):
    d = collections.deque(xs)
    return d.pop(), list(d)


def dq_get(xs, a, b):
    return collections.deque(xs)[a]


def dq_del(xs, a, b):
    d = collections.deque(xs)
    del d[a]
    return list(d)


def dq_slice(xs, a, b):
    return collections.deque(xs)[a:b]


def dq_rest(xs, a, b):
    d = collections.deque(xs)
    return a in d, d.count(a), len(d), bool(d)


def dq_index(xs, a, b):
    return collections.deque(xs).index(a)


def dq_remove(xs, a, b):
    d = collections.deque(xs)
    d.remove(a)
    return list(d)


def dq_copy(xs, a, b):
    d = collections.deque(xs, b)
    e = d.copy()
    e.append(a)
    return list(d), list(e), e.maxlen


def dq_clear(xs, a, b):
    d = collections.deque(xs, b)
    d.clear()
    return len(d), d.maxlen


def dq_rotate_free(xs, a, b):
    d = collections.deque(xs)
    return list(itertools.islice(d, a, b)), d[0], d[-1]


# ---- statements

def finally_order(xs, a, b):
    out = []
    try:
        out.append(1)
        out.append(xs[a])
    except IndexError:
        out.append(2)
    else:
        out.append(3)
    finally:
        out.append(4)
    return out


def finally_wins(xs, a, b):
    try:
        return xs[a]
    finally:
        if b > 1:
            return -9


def nested(xs, a, b):
    try:
        try:
            raise KeyError(a)
        except ValueError:
            return 1
        finally:
            xs.append(5)
    except LookupError as e:
        return 2


def reraise(xs, a, b):
    try:
        xs[a]
    except IndexError as e:
        raise ValueError('x') from e
    return a


def suppressed(xs, a, b):
    with contextlib.suppress(IndexError):
        return xs[a]
    return 'none'


@contextlib.contextmanager
def managed(out, swallow):
    out.append(1)
    try:
        yield 5
    except ValueError:
        out.append(2)
        if not swallow:
            raise
    finally:
        out.append(3)


def context(xs, a, b):
    out = []
    with managed(out, a > 0) as v:
        out.append(v)
        if b > 0:
            raise ValueError(a)
        out.append(6)
    return out


def context_return(xs, a, b):
    out = []

    def f():
        with managed(out, True) as v:
            return v + a
    return f(), out


class Manager:
    def __init__(self, swallow):
        self.swallow, self.seen = swallow, None

    def __enter__(self):
        return 3

    def __exit__(self, t, v, tb):
        self.seen = t is None
        return self.swallow


def manager(xs, a, b):
    m = Manager(a > 0)
    with m as x:
        if b > 0:
            raise KeyError(1)
    return x, m.seen


def loop_break(xs, a, b):
    out = []
    for x in [1, 2, 3, 4]:
        if x == a:
            continue
        if x == b:
            break
        out.append(x)
    else:
        out.append(99)
    return out


def while_loop(xs, a, b):
    i, out = 0, []
    while i < 4:
        i += 1
        if i == a:
            continue
        out.append(i)
        if i == b:
            break
    else:
        out.append(77)
    return out


def gen():
    x = yield 1
    yield 2
    return 3


def generated(xs, a, b):
    out = []
    for x in gen():
        out.append(x)
    return out


def delegated(xs, a, b):
    def g():
        r = yield from gen()
        yield r
    out = []
    for x in g():
        out.append(x)
    return out


def closure(xs, a, b):
    n = a

    def f(x):
        nonlocal n
        n += x
        return n
    f(1)
    n = n * 2
    return f(b), n


def defaults(xs, a, b):
    def f(x, y=a, *args, z=b, **kw):
        return (x, y, args, z, sorted(kw))
    return f(1), f(1, 2), f(1, 2, 3, 4), f(1, z=5, q=6), f(*[1, 2], **{'z': 3, 'w': 4})


def bad_call(xs, a, b):
    def f(x):
        return x
    return f(1, 2)


def bad_keyword(xs, a, b):
    def f(x, *, y):
        return x
    return f(x=1)


def positional_only(xs, a, b):
    def f(x, /, **kw):
        return x, kw['x']
    return f(a, x=b)


def partials(xs, a, b):
    def f(x, y, z=0):
        return x, y, z
    return functools.partial(f, a)(b), functools.partial(f, a, z=b)(1), functools.partial(f, z=1)(a, b, z=2)


def lambdas(xs, a, b):
    return (lambda x, y=a: x - y)(b), operator.itemgetter(1)((a, b))


def chained(xs, a, b):
    return a < b < 3, a <= b, a == b, a != b, not a, a or b, a and b, None or a


def arithmetic(xs, a, b):
    return a + b, a - b, a * b, -a, abs(a), max(a, b), min(a, b), a // 2, a % 2, b // 3, b % 3


def bits(xs, a, b):
    return a & 15, b & 1, a & 255, a << 3, b >> 1, a >> 0, (a - b) & 7, (a + 1) & 15


def divided(xs, a, b):
    return 7 // b


def conditional(xs, a, b):
    return a if a > b else b, (a > b) is True, isinstance(a, int), isinstance(xs, list)


def walrus(xs, a, b):
    if (n := len(xs)) > a:
        return n
    return -1


class Base:
    n = 1
    __slots__ = ()

    def who(self):
        return 'base', self.n

    @property
    def prop(self):
        return self.n * 2

    @classmethod
    def make(cls, x):
        o = cls()
        return o, x

    @staticmethod
    def stat(x):
        return x


class Derived(Base):
    __slots__ = ('__dict__',)
    n = 2

    def __init__(self):
        self.m = 5

    def who(self):
        return ('derived',) + super().who()

    def __len__(self):
        return self.m

    def __getattr__(self, name):
        if name.startswith('x'):
            return name
        raise AttributeError(name)

    def __call__(self, x):
        return x, self.m

    def __contains__(self, x):
        return x == 3

    def __getitem__(self, i):
        return i, 'item'


def classes(xs, a, b):
    d = Derived()
    d.m = a
    return (d.who(), d.prop, Derived.make(b)[1], Base.stat(b), d.xyz, hasattr(d, 'y'), getattr(d, 'zz', 4), d(b), b in d, d[a], d.n, Derived.n)


def truthy(xs, a, b):
    d = Derived()
    d.m = 0 if a > 0 else 1
    return bool(d), not d, 1 if d else 2, (d and 3) == 3


def missing(xs, a, b):
    return Derived().zz


def readonly(xs, a, b):
    Derived().prop = 3


def dicts(xs, a, b):
    d = dict(x=a, y=b)
    d['z'] = 1
    d.update(x=5)
    e = dict(d, y=None)
    return d['x'], d.get('q'), d.get('q', 2), 'y' in d, e['y'], d['y'], len(e), d.pop('z'), len(d), list(e), {**d, 'x': 0}['x']


def dict_missing(xs, a, b):
    return {}['k']


def dict_values(xs, a, b):
    return list({k: v if v is not None else 9 for k, v in dict(p=a, q=None, r=b).items()}.values())


def asserted(xs, a, b):
    assert a > b, 'not so'
    return 1


def unbound(xs, a, b):
    if a > 100:
        y = 1
    return y


def deleted(xs, a, b):
    y = a
    del y
    return y


def none_compare(xs, a, b):
    return a < None


def none_tests(xs, a, b):
    x = None
    return x is None, x == a, x != a, x is not None


def star_first(xs, a, b):
    x, *y = (a, b, 3)
    return x, list(y)


def star_middle(xs, a, b):
    x, *y, z = (a, b)
    return x, len(y), z


def star_too_few(xs, a, b):
    x, *y, z = (a,)
    return x


def star_call(xs, a, b):
    def f(*args, **kw):
        this, *args = args
        return this, len(args), args[0]
    return f(a, b, 3)


def marks(xs, a, b):
    m, n = object(), object()
    return m is n, m is m, m == n, m is None, [m, n].count(m) if False else 1


# ---- SORTED

def left(xs, a, b):
    return bisect.bisect_left(xs, a)


def right(xs, a, b):
    return bisect.bisect_right(xs, a)


def both(xs, a, b):
    return bisect.bisect_left(xs, a, 0, len(xs)), bisect.bisect(xs, b)


def insort(xs, a, b):
    bisect.insort_left(xs, a)


def insort_right(xs, a, b):
    bisect.insort(xs, b)


def left_key(xs, a, b):
    return bisect.bisect_left(xs, a, key=lambda x: x)


def span(xs, a, b):
    i = bisect.bisect_left(xs, a)
    return bisect.bisect_right(xs, a, i), bisect.bisect_right(xs, b, lo=0, hi=i), bisect.bisect_left(xs, b, i, len(xs))


def bad_lo(xs, a, b):
    return bisect.bisect_left(xs, b, min(a, len(xs)), len(xs))


SORTED = {'left', 'right', 'both', 'insort', 'insort_right', 'left_key', 'span', 'bad_lo'}
