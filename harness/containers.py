"""Small histories of SortedCollection / SortedDeque compared with a plain sorted list (C01-C04)."""
import copy
import itertools
import random
import time

from . import Report


class It:
    """an item: compares equal by value, is not orderable"""
    __slots__ = ('k', 'v', 'a')

    def __init__(self, k, v, a=0):
        self.k, self.v, self.a = k, v, a

    def __eq__(self, o):
        return isinstance(o, It) and (self.k, self.v) == (o.k, o.v)

    def __hash__(self):
        return hash((self.k, self.v))

    def __repr__(self):
        return f'It({self.k},{self.v!r})'


def k1(x):
    return x.k


def k2(x):
    return -x.k


def k3(x):
    return x.v


def ident(x):
    return x


class Touchy:
    """a key that cannot be compared"""

    def __init__(self, e):
        self.e = e

    def _cmp(self, o):
        raise self.e('cannot be compared')
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = _cmp
    __hash__ = None

    def __neg__(self):
        return self

    def __repr__(self):
        return f'Touchy({self.e.__name__})'


TOUCHY = [Touchy(e) for e in (IndexError, TypeError, ValueError, KeyError, AttributeError, StopIteration)]


class OddKey:
    """a key function that says it equals anything"""
    __hash__ = None

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False


KEYS = {'k': k1, '-k': k2, 'v': k3, None: None, 'odd k': OddKey(k1), 'odd -k': OddKey(k2)}
BIG = 60            # beyond this size not everything is asked


def classes():
    from stream2py.utility.sorted_collection import SortedCollection
    from stream2py.utility.sorted_deque import SortedDeque
    return {'SortedCollection': SortedCollection, 'SortedDeque': SortedDeque}


NAN = float('nan')


class Bad(Exception):
    pass


def ident_list(a):
    return [id(x) for x in a]


def same(a, b):
    return len(a) == len(b) and all(x is y or (type(x) is not It and x == y) for x, y in zip(a, b))


def outcome(f, *a):
    try:
        return ('ok', f(*a))
    except Exception as e:
        return ('raise', e)


class Run:
    """one collection under test with its reference contents"""

    def __init__(self, clsname, items, key, maxlen, check, one=None):
        self.one = one
        self.C = classes()[clsname]
        self.deque = clsname == 'SortedDeque'
        self.kn, self.maxlen = key, maxlen if self.deque else None
        self.check = check
        self.log = [f'{clsname}({items!r}, key={key!r}' + (f', maxlen={maxlen})' if self.deque else ')')]
        kf = KEYS[key]
        r = outcome(self.C, list(items), kf, maxlen) if self.deque else outcome(self.C, list(items), kf)
        if r[0] == 'raise':
            raise Bad(f'building raised {r[1]!r}')
        self.c = r[1]
        self.model = None
        self.rebuilt(list(items))

    def key(self, x):
        return KEYS[self.kn](x) if self.kn is not None else x

    def rebuilt(self, items):
        """contents must be a sorted permutation of items, the largest ones if limited"""
        got = list(self.c)
        ks = [self.key(x) for x in got]
        if any(b < a for a, b in zip(ks, ks[1:])):
            raise Bad(f'not in key order: {got!r}')
        n = len(items) if self.maxlen is None else min(len(items), self.maxlen)
        want = sorted(self.key(x) for x in items)[len(items) - n:]
        if sorted(ks) != want:
            raise Bad(f'holds {got!r}, should hold those of {items!r} with keys {want!r}')
        ids = ident_list(items)
        for x in ident_list(got):
            if x not in ids:
                raise Bad(f'holds an item that was not given: {got!r}')
            ids.remove(x)
        if self.deque and self.c.maxlen != self.maxlen:
            raise Bad(f'limit is {self.c.maxlen!r}, should be {self.maxlen!r}')
        self.model = got

    def expect_same(self):
        got = list(self.c)
        if not same(got, self.model):
            raise Bad(f'holds {got!r}, should hold {self.model!r}')

    def step(self, op, arg):
        self.log.append(f'{op}({arg!r})')
        c, m = self.c, self.model
        if op in ('insert', 'insert_right'):
            full = self.maxlen is not None and len(m) >= self.maxlen
            r = outcome(getattr(c, op), arg)
            if full:
                if r[0] != 'raise':
                    self.check and self.rebuilt(list(c))
                    raise Bad('inserting into a full collection did not fail')
                self.expect_same()
                return
            if r[0] == 'raise':
                raise Bad(f'raised {r[1]!r}')
            k = self.key(arg)
            p = len([x for x in m if (self.key(x) < k if op == 'insert' else self.key(x) <= k)])
            m.insert(p, arg)
            self.expect_same()
        elif op == 'remove':
            r = outcome(c.remove, arg)
            if arg in m:
                if r[0] == 'raise':
                    raise Bad(f'raised {r[1]!r}')
                m.remove(arg)
            elif not (r[0] == 'raise' and isinstance(r[1], ValueError)):
                raise Bad(f'{r[1]!r} instead of ValueError')
            self.expect_same()
        elif op == 'clear':
            r = outcome(c.clear)
            if r[0] == 'raise':
                raise Bad(f'raised {r[1]!r}')
            self.model = []
            self.expect_same()
            if self.deque and c.maxlen != self.maxlen:
                raise Bad(f'limit is {c.maxlen!r}, should be {self.maxlen!r}')
        elif op == 'copy':
            r = outcome(c.copy) if arg < 2 else outcome(copy.copy, c)
            if r[0] == 'raise':
                raise Bad(f'raised {r[1]!r}')
            d = r[1]
            if type(d) is not type(c) or not same(list(d), m):
                raise Bad(f'copy is {d!r}, of {m!r}')
            if self.deque and d.maxlen != self.maxlen:
                raise Bad(f'the limit of the copy is {d.maxlen!r}')
            # (without a given key, the identity function need not be the same object)
            if d.key is not c.key and (arg < 2 or [d.key(x) for x in m] != [c.key(x) for x in m]):
                raise Bad('the copy has another key function')
            # later changes to one do not show in the other
            if arg % 2 == 0:
                before = list(c)
                if len(d):
                    d.remove(before[0])
                d.clear()
                if not same(list(c), before):
                    raise Bad('changing the copy changed the original')
            else:
                before = list(d)
                if len(c):
                    c.remove(before[0])
                    self.model.pop(self.model.index(before[0]))
                if not same(list(d), before):
                    raise Bad('changing the original changed the copy')
                self.expect_same()
        elif op == 'key':
            old = list(m)
            if arg is None:
                r = outcome(delattr, c, 'key')
            else:
                r = outcome(setattr, c, 'key', KEYS[arg])
            if r[0] == 'raise':
                raise Bad(f'raised {r[1]!r}')
            self.kn = arg
            self.rebuilt(old)
        elif op == 'append':
            k = self.key(arg)
            if isinstance(k, Touchy) or isinstance(arg, It) and isinstance(arg.k, Touchy):
                if m and isinstance(k, Touchy):
                    r = outcome(c.append, arg)
                    if r[0] != 'raise':
                        raise Bad('an item whose key cannot be compared is accepted')
                    self.expect_same()
                return
            if k != k and not m or isinstance(arg, It) and arg.k != arg.k and k == k:
                return              # a key that is not ordered is of interest as a key to be refused only
            r = outcome(c.append, arg)
            if m and not k > self.key(m[-1]):
                if not (r[0] == 'raise' and isinstance(r[1], ValueError)):
                    raise Bad(f'{r!r} instead of ValueError')
            else:
                if r[0] == 'raise':
                    raise Bad(f'raised {r[1]!r}')
                m.append(arg)
                if self.maxlen is not None and len(m) > self.maxlen:
                    del m[0]
            self.expect_same()
        elif op == 'drop':
            if arg > len(m):
                return
            r = outcome(c.drop, arg) if arg != 1 else outcome(c.drop)
            if r[0] == 'raise':
                raise Bad(f'raised {r[1]!r}')
            del m[:arg]
            self.expect_same()
        elif op == 'maxlen':
            old = list(m)
            if arg == 'del':
                r = outcome(delattr, c, 'maxlen')
            else:
                r = outcome(setattr, c, 'maxlen', arg)
            if r[0] == 'raise':
                raise Bad(f'raised {r[1]!r}')
            self.maxlen = None if arg == 'del' else arg
            self.rebuilt(old)
            if self.model != old[len(old) - len(self.model):]:
                raise Bad(f'kept {self.model!r} of {old!r}')

    # ---- queries
    def basics(self, pool):
        c, m = self.c, self.model
        if len(c) != len(m):
            raise Bad(f'length {len(c)} of {m!r}')
        for name, got, want in (('iteration', list(c), m), ('reversed', list(reversed(c)), m[::-1]),
                                ('indexing', [c[i] for i in range(len(c))], m),
                                ('negative indexing', [c[-i - 1] for i in range(len(c))], m[::-1])):
            if not same(got, want):
                raise Bad(f'{name} gives {got!r}, contents {m!r}')
        for i in (len(m), -len(m) - 1):
            r = outcome(lambda: c[i])
            if not (r[0] == 'raise' and isinstance(r[1], IndexError)):
                raise Bad(f'index {i} gives {r!r}')
        if self.deque:
            if self.maxlen is not None and len(c) > self.maxlen:
                raise Bad('more items than the limit')
        for x in m[:BIG] if len(m) <= BIG else ():
            if not any(y is x for y in list(c)):
                raise Bad('lost item')

    def queries(self, pool, probes):
        c, m = self.c, self.model
        if self.one is not None and self.one % 7 == 0:
            pool, probes = [pool[self.one % len(pool)]] * 2, ()
        elif self.one is not None:
            pool, probes = (), [probes[self.one % len(probes)]] * 2
        for x in pool:
            if outcome(lambda: x in c) != ('ok', x in m):
                raise Bad(f'{x!r} in collection gives {outcome(lambda: x in c)!r}, contents {m!r}')
            if outcome(c.count, x) != ('ok', m.count(x)):
                raise Bad(f'count({x!r}) gives {outcome(c.count, x)!r}, contents {m!r}')
            r = outcome(c.index, x)
            if x in m:
                if r != ('ok', m.index(x)):
                    raise Bad(f'index({x!r}) gives {r!r}, contents {m!r}')
            elif not (r[0] == 'raise' and isinstance(r[1], ValueError)):
                raise Bad(f'index({x!r}) gives {r!r}, contents {m!r}')
        K = self.key
        rules = {'find': lambda k: [x for x in m if K(x) == k][:1], 'find_le': lambda k: [x for x in m if K(x) <= k][-1:],
                 'find_lt': lambda k: [x for x in m if K(x) < k][-1:], 'find_ge': lambda k: [x for x in m if K(x) >= k][:1],
                 'find_gt': lambda k: [x for x in m if K(x) > k][:1]}
        if self.deque:
            rules['find_last_gt'] = lambda k: [x for x in m if K(x) > k][-1:]
        if self.one is not None:
            nm = sorted(rules)[self.one // 7 % len(rules)]
            rules = {nm: rules[nm]}
        for k in probes:
            for nm, rule in rules.items():
                r = outcome(getattr(c, nm), k)
                w = rule(k)
                if w:
                    if not (r[0] == 'ok' and same([r[1]], w)):
                        raise Bad(f'{nm}({k!r}) gives {r[1]!r}, should be {w[0]!r}, contents {m!r}')
                elif not (r[0] == 'raise' and isinstance(r[1], ValueError)):
                    raise Bad(f'{nm}({k!r}) gives {r[1]!r} instead of ValueError, contents {m!r}')
        self.expect_same()

    def ranges(self, probes):
        c, m, K = self.c, self.model, self.key
        ab = list(itertools.product(probes, probes))
        ij = list(itertools.product(range(len(m) + 2), range(len(m) + 2))) if len(m) < 20 else [
            (i, j) for i in (0, 1, 15, len(m) // 2, len(m) - 1, len(m)) for j in (0, 16, len(m) - 2, len(m) + 1)]
        if len(m) > BIG:
            ab = [ab[i * 7 % len(ab)] for i in range(12)]
        sts = (None, 1, 2, 3)
        if self.one is not None:            # one and the same question all along, asked twice each time
            x = self.one // 2
            sts = [sts[x % 4]] * 2
            ab, ij = ([], [(x // 4 % 4, x // 16 % 7)]) if self.one % 2 else ([ab[x // 4 % len(ab)]], [])
        for a, b in ab:
            for st in sts:
                r = outcome(c.range, a, b, st) if st is not None else outcome(c.range, a, b)
                w = [x for x in m if a <= K(x) <= b][::st or 1]
                if not (r[0] == 'ok' and type(r[1]) is list and same(r[1], w)):
                    raise Bad(f'range({a!r},{b!r},{st!r}) gives {r[1]!r}, should be {w!r}')
                r[1].append('mine')
        for i, j in ij:
            for st in sts:
                r = outcome(c.range_by_index, i, j, st)
                w = m[i:j:st or 1]
                if not (r[0] == 'ok' and type(r[1]) is list and same(r[1], w)):
                    raise Bad(f'range_by_index({i},{j},{st}) gives {r[1]!r}, should be {w!r}')
                r[1].append('mine')
        self.expect_same()


def pools():
    a = [It(0, 'a'), It(0, 'b'), It(1, 'a'), It(1, 'b'), It(1, 'a', 1), It(2, 'c'), It(3, 'a')]
    n = [0, 1, 2, 3, 1.0, 2.5]
    return a, n


def cases(prop, tier, seed, budget):
    """yields (clsname, items, key, maxlen, ops, the one question asked all along or None)"""
    a, n = pools()
    rnd = random.Random(seed)
    cls = ['SortedCollection', 'SortedDeque'] if prop in ('C01', 'C02') else ['SortedDeque']
    mut = {'C01': ['insert', 'insert_right', 'remove', 'clear', 'copy', 'key', 'append', 'drop', 'maxlen'],
           'C02': ['insert', 'remove', 'append', 'drop', 'key', 'clear'],
           'C03': ['append', 'insert', 'drop', 'maxlen', 'remove'],
           'C04': ['append', 'drop', 'maxlen', 'clear', 'insert', 'key']}[prop]

    def args(op, pool, kn):
        if op == 'append' and prop == 'C04':
            return pool + [x if kn is None else It(x, 'x') for x in [NAN] + TOUCHY]
        if op in ('insert', 'insert_right', 'remove', 'append'):
            return pool
        if op == 'key':
            return ['k', '-k', 'v', 'odd k', 'odd -k'] if kn is not None else [None]
        if op == 'copy':
            return [0, 1, 2, 3]
        if op == 'drop':
            return [0, 1, 2]
        if op == 'maxlen':
            return [None, 0, 1, 2, 3, 'del']
        return [None]
    # exhaustive: at most 3 items built, at most one operation
    for cn in cls:
        for kn, pool in (('k', a), (None, n)):
            for ml in ([None, 0, 1, 2, 3] if cn == 'SortedDeque' else [None]):
                for ln in range(0, 4 if kn else 3):
                    combos = list(itertools.product(pool, repeat=ln))
                    if len(combos) > 60:
                        combos = rnd.sample(combos, 60)
                    for items in combos:
                        ops = [(op, x) for op in mut if cn == 'SortedDeque' or op not in ('append', 'drop', 'maxlen')
                               for x in args(op, pool, kn)]
                        yield cn, items, kn, ml, [], None
                        for o in (ops if tier != 'quick' else rnd.sample(ops, min(6, len(ops)))):
                            yield cn, items, kn, ml, [o], None
    # random longer histories
    t0 = time.time()
    while time.time() - t0 < budget:
        cn = rnd.choice(cls)
        kn, pool = rnd.choice((('k', a), ('v', a), ('-k', a), (None, n)))
        ml = rnd.choice([None, None, 1, 2, 3, 4]) if cn == 'SortedDeque' else None
        big = rnd.random() < .02
        few = [rnd.choice(pool) for _ in range(rnd.choice([1, 2, 2, 3]))]
        items = [rnd.choice(pool) for _ in range(rnd.randint(0, 6))] if not big else [
            rnd.choice(few) for _ in range(rnd.choice([17, 33, 66, 130, 260, 1030] + [5000] * (rnd.random() < .3)))]
        if big and rnd.random() < .5:       # long runs of one item, then others of the same key
            x = rnd.choice(pool)
            key = {'k': lambda y: y.k, '-k': lambda y: y.k, 'v': lambda y: y.v, None: lambda y: y}[kn]
            few = [y for y in pool if key(y) == key(x)]
            rnd.shuffle(few)
            items = [y for y in few for _ in range(len(items) // max(1, len(few) - 1))][:len(items) + 1] + rnd.sample(pool, 2)
        if big:
            ml = ml and rnd.choice([10, 100, 2000])
        ops = []
        for _ in range(rnd.randint(1, 6) if not big else rnd.randint(0, 2)):
            op = rnd.choice([o for o in mut if cn == 'SortedDeque' or o not in ('append', 'drop', 'maxlen')])
            ops.append((op, rnd.choice(args(op, pool, kn))))
        yield cn, items, kn, ml, ops, rnd.randrange(10000) if prop in ('C02', 'C03') and rnd.random() < .7 else None


def run_case(prop, cn, items, kn, ml, ops, one=None):
    """None or the description of the violation"""
    a, n = pools()
    pool = a if kn is not None else n
    r = None
    log = [f'{cn}({list(items)!r}, key={kn!r}, maxlen={ml!r})']

    def look():
        probes = sorted({r.key(x) for x in pool}) if r.kn is not None else n
        if r.kn != 'v':
            probes = sorted(set(list(probes) + [p + 0.5 for p in probes] + [-10, 10]))
        else:
            probes = sorted(set(list(probes) + ['', 'bb', 'z']))
        if prop in ('C01', 'C04'):
            r.basics(pool)
        if prop == 'C01':
            for x in r.model:
                if x not in r.c:
                    raise Bad(f'{x!r} is not found under its current key')
                if r.c.key(x) != r.key(x):
                    raise Bad('wrong key function')
        if prop == 'C02':
            r.basics(pool)
            r.queries(pool, probes)
        if prop == 'C03':
            r.ranges(probes)
    try:
        r = Run(cn, items, kn, ml, True, one)
        log = r.log
        look()
        for n_, (op, arg) in enumerate(ops, 1):
            r.step(op, arg)
            if one is None or n_ == len(ops) or not one >> n_ + 4 & 1:      # now and then nothing is asked in between
                look()
    except Bad as e:
        return f'{"; ".join(log)}: {e}'
    except Exception as e:
        return f'{"; ".join(log)}: unexpected {type(e).__name__}: {e}'
    return None


def _run(prop, tier, seed, budget):
    rep = Report('histories (build then operations) of a collection against a sorted list; non-trivial: distinct '
                 'history with at least one item or operation', ('harness.containers', 'replay'),
                 'contents <= 6 items (now and then up to 5000), <= 6 operations')
    t0 = time.time()
    b = {'quick': 8, 'search': 40}.get(tier, 200)
    for c in cases(prop, tier, seed, b):
        desc = repr(c)
        rep.case(desc, bool(c[1] or c[4]))
        v = run_case(prop, *c)
        if v:
            rep.violation(v, dict(prop=prop, cls=c[0], items=[list((x.k, x.v, x.a)) if isinstance(x, It) else x for x in c[1]],
                                  one=c[5], key=c[2], maxlen=c[3], ops=[[o, [x.k, x.v, x.a] if isinstance(x, It) else x] for o, x in c[4]]))
            if len(rep.violations) >= 3:
                break
        if time.time() - t0 > 2 * budget + 30:
            break
    return rep.result()


def replay(d):
    un = lambda x: It(*x) if isinstance(x, list) else x
    return run_case(d['prop'], d['cls'], [un(x) for x in d['items']], d['key'], d['maxlen'],
                    [(o, un(x)) for o, x in d['ops']], d.get('one'))


def c01(tier, seed, budget):
    return _run('C01', tier, seed, budget)


def c02(tier, seed, budget):
    return _run('C02', tier, seed, budget)


def c03(tier, seed, budget):
    return _run('C03', tier, seed, budget)


def c04(tier, seed, budget):
    return _run('C04', tier, seed, budget)
