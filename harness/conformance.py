"""The contract engine (pyve) against CPython: every function of snippets.py is interpreted by the engine, on inputs given as
values and on inputs pinned by assumptions to a symbolic list of symbolic length, and must give what CPython gives, for every
outcome the engine considers possible.  This tests the trusted part of the proofs: the meaning given to Python statements and the
contracts of the library."""
import inspect
import itertools
import time

from . import Report

LISTS = [[], [3], [1, 2], [2, 2, 1], [1, 1, 3], [3, 2, 1, 0]]
NUMS = [-2, -1, 0, 1, 2, 5]


def functions():
    from . import snippets
    return [(n, f) for n, f in vars(snippets).items() if inspect.isfunction(f) and f.__module__ == snippets.__name__ and
            list(inspect.signature(f).parameters) == ['xs', 'a', 'b']], snippets.SORTED


def real(f, xs, a, b):
    ys = list(xs)
    try:
        return ('value', f(ys, a, b)), ys
    except Exception as e:
        return ('raise', type(e)), ys


def engine_runs(f, xs, a, b, pinned):
    """outcomes of the engine: [(state, engine, result, list reference)]"""
    import z3
    from pyve.interp import Engine, State
    from pyve.natives import NList
    from pyve.solver import fresh_int, IntS
    from pyve.values import Seq, SInt
    eng = Engine('conformance')
    eng.inline_modules = ('harness',)
    st = State()
    if pinned:
        n = fresh_int('n')
        sq = Seq.fresh('xs', IntS, n)
        st.assume(n == len(xs))
        for i, x in enumerate(xs):
            st.assume(sq.at(i).t == x)
        va, vb = SInt(fresh_int('a')), SInt(fresh_int('b'))
        st.assume(z3.And(va.t == a, vb.t == b))
    else:
        sq, va, vb = Seq.concrete(list(xs)), a, b
    ref = st.alloc(NList, {'seq': sq})
    out = []
    for s, r in eng.call(st, f, [ref, va, vb], {}):
        if eng.feasible(s):
            out.append((s, eng, r, ref))
    return out


class Differs(Exception):
    pass


def same(eng, s, v, want):
    from pyve.values import SBool, SInt, Ref, Seq, SeqIter, as_int, zint, Sym
    import z3
    if isinstance(v, Ref):
        o = s.get(v)
        if 'seq' in o.fields:
            v = o.fields['seq']
            if type(want) is not list and not (o.cls.__name__ == 'NDeque'):
                raise Differs(f'a list, not {want!r}')
        else:
            raise Differs(f'{o.cls} instead of {want!r}')
    if isinstance(v, (Seq, SeqIter)):
        v = v.seq if isinstance(v, SeqIter) else v
        if not isinstance(want, (list, tuple)):
            raise Differs(f'a sequence instead of {want!r}')
        if not prove(eng, s, zint(v.n) == len(want)):
            raise Differs(f'length {v.n} instead of {len(want)}')
        for i, w in enumerate(want):
            same(eng, s, v.at(i) if v.values is None else v.values[i], w)
        return
    if isinstance(v, tuple):
        if type(want) is not tuple or len(want) != len(v):
            raise Differs(f'{v!r} instead of {want!r}')
        for x, w in zip(v, want):
            same(eng, s, x, w)
        return
    if type(want) is bool:
        if not isinstance(v, (bool, SBool)) or not prove(eng, s, (v.t if isinstance(v, SBool) else z3.BoolVal(v)) == want):
            raise Differs(f'{v!r} instead of {want!r}')
        return
    if type(want) is int:
        i = as_int(v)
        if i is None or isinstance(v, (bool, SBool)) or not prove(eng, s, zint(i) == want):
            raise Differs(f'{v!r} instead of {want!r}')
        return
    if isinstance(v, Sym) or v != want or type(v) is not type(want):
        raise Differs(f'{v!r} instead of {want!r}')


def prove(eng, s, g):
    import z3
    if isinstance(g, bool):
        return g
    g = z3.simplify(g)
    if z3.is_true(g):
        return True
    k = len(eng.obligations)
    return eng.oblige(s.copy(), 'conformance', g)


def compare(name, xs, a, b, pinned):
    """None, 'unsupported' or what differs"""
    from pyve.values import Raise, Unsupported
    fs = dict(functions()[0])
    (kind, want), ys = real(fs[name], xs, a, b)
    where = f'{name}({xs}, {a}, {b}){" pinned" if pinned else ""}'
    try:
        runs = engine_runs(fs[name], xs, a, b, pinned)
        if not runs:
            return f'{where}: no outcome, CPython: {want!r}'
        for s, eng, r, ref in runs:
            if isinstance(r, Raise):
                cls = r.exc.cls
                if kind != 'raise' or not (isinstance(cls, type) and issubclass(want, cls)):
                    return f'{where}: raises {cls}, CPython: {want!r}'
            elif kind == 'raise':
                return f'{where}: gives {r!r}, CPython raises {want}'
            else:
                same(eng, s, r, want)
            same(eng, s, ref, ys)
    except Unsupported:
        return 'unsupported'
    except Differs as e:
        return f'{where}: {e}'
    return None


def facts():
    """facts about texts assumed by the contracts of C20"""
    import sys
    bad = []
    for x, lo in (('GET', 'get'),):
        up = {c for c in range(sys.maxunicode + 1) if any(p in chr(c).upper() for p in 'GET')}
        dn = {c for c in range(sys.maxunicode + 1) if any(p in chr(c).lower() for p in 'get')}
        cs = [chr(c) for c in up | dn]
        # upper(s) is the concatenation of the upper cases of its characters (likewise lower, except for the final sigma)
        whole = lambda f, w: {p for n in (1, 2, 3) for p in itertools.product(cs, repeat=n) if ''.join(map(f, p)) == w}
        if whole(str.upper, x) != whole(str.lower, lo):
            bad.append('upper(s) is GET, lower(s) is not get (or the reverse)')
    for s in ('', 'é', '€x'):
        if s.encode() != s.encode('utf-8'):
            bad.append('encode')
    return bad


def run(tier, seed, budget, part=0, parts=1):
    rep = Report('functions of snippets.py on small inputs, engine against CPython; non-trivial: supported by the engine',
                 ('harness.conformance', 'replay'), 'lists <= 4, numbers -2..5')
    t0 = time.time()
    fs, srt = functions()
    unsupported = set()
    step = 1 if tier == 'thorough' else 5
    for f in facts() if part == 0 else ():
        rep.violation('engine assumption: ' + f)
    k = seed
    for n, f in fs[part::parts]:
        for xs in LISTS:
            xs = sorted(xs) if n in srt else xs
            for a, b in itertools.product(NUMS, NUMS):
                k += 1
                for pinned in (False, True):
                    if pinned and (k % (step * 4) or n.startswith('ordered') and k % 144) or not pinned and k % step:
                        continue
                    r = compare(n, xs, a, b, pinned)
                    rep.case(f'{n}({xs}, {a}, {b}){" pinned" if pinned else ""}', r != 'unsupported')
                    if r == 'unsupported':
                        unsupported.add((n, pinned))
                    elif r:
                        rep.violation('engine differs from CPython: ' + r, [n, xs, a, b, pinned], kind=(n, pinned))
    return dict(rep.result(), unsupported=sorted(unsupported))


def replay(case):
    return compare(*case)

