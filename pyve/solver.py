"""Back end: obligations are ground z3 formulas plus universally quantified facts (QFact).

A goal is proved by refuting  path-condition AND facts AND NOT goal.  Step 1 instantiates every fact over the
ground index terms of the problem (rounds until nothing new) and asks z3 for a quantifier-free answer: `unsat`
is a proof (instances are consequences).  Step 2, only if step 1 says `sat`, gives z3 the quantified facts
themselves, so that a `sat` answer is a genuine counterexample to the obligation ("definite")."""
import itertools
import time
import z3

Item = z3.DeclareSort('Item')     # identities of buffered items
Opq = z3.DeclareSort('Opq')       # opaque user objects
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()

SEQ_FUNS = set()                  # names of functions whose Int arguments are index terms
_fresh = itertools.count()


def fresh_name(base):
    return f'{base}!{next(_fresh)}'


def fresh(base, sort):
    return z3.Const(fresh_name(base), sort)


def fresh_int(base='i'):
    return fresh(base, IntS)


def seq_fun(base, sort):
    name = fresh_name(base)
    SEQ_FUNS.add(name)
    return z3.Function(name, IntS, sort)


class QFact:
    """forall i1..in (Int). fn(i1..in); only = name of a function: instantiate only over the arguments of that
    function (and their predecessors) that occur in the problem as posed"""
    __slots__ = ('n', 'fn', 'name', 'key', 'only')

    def __init__(self, n, fn, name='', only=None):
        self.n, self.fn, self.name, self.only = n, fn, name, only
        self.key = next(_fresh)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {'z3-inst': 0, 'z3-quant': 0, 'simplifier': 0}


STATS = Stats()
DUMP = None            # list collecting SMT-LIB texts for the second back end (thorough tier)

_term_cache = {}


def _index_terms(e, acc, seen, by=None):
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in SEQ_FUNS:
                    for a in x.children():
                        if a.sort() == IntS:
                            acc[a.get_id()] = a
                            if by is not None:
                                by.setdefault(x.decl().name(), {})[a.get_id()] = a
                stack.extend(x.children())


def instantiate(ground, facts, rounds=3, limit=6000):
    """ground instances of facts over the index terms of ground"""
    acc, seen, out, by = {}, set(), list(ground), {}
    for g in ground:
        _index_terms(g, acc, seen, by)
    done = set()
    total = 0
    complete = True
    for r in range(rounds):
        terms = list(acc.values())
        new = []
        for q in facts:
            if q.only is not None:
                if r > 0:
                    continue
                cand = list(by.get(q.only, {}).values())
                if q.n == 1 and q.name == 'cnt step':
                    cand = {t.get_id(): t for t in cand + [z3.simplify(t - 1) for t in cand]}.values()
            else:
                cand = terms
            for tup in itertools.product(cand, repeat=q.n):
                k = (q.key,) + tuple(t.get_id() for t in tup)
                if k in done:
                    continue
                done.add(k)
                total += 1
                if total > limit:
                    complete = False
                    break
                f = q.fn(*tup)
                if f is True or z3.is_true(f):
                    continue
                new.append(f)
        if not new:
            break
        out.extend(new)
        before = len(acc)
        for g in new:
            _index_terms(g, acc, seen)
        if len(acc) == before:
            break
    return out


def _solver(timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', 1)
    return s


def feasible(pc, facts, timeout=3.0):
    """False only if the path condition is certainly contradictory"""
    t = time.time()
    try:
        s = _solver(timeout)
        s.add(*instantiate(pc, facts, rounds=2, limit=1500))
        STATS.queries += 1
        return s.check() != z3.unsat
    finally:
        STATS.time += time.time() - t


class Result:
    __slots__ = ('status', 'model', 'definite', 'reason', 'secs', 'backend')

    def __init__(self, status, model=None, definite=False, reason='', secs=0.0, backend=''):
        self.status, self.model, self.definite = status, model, definite
        self.reason, self.secs, self.backend = reason, secs, backend


def prove(pc, facts, goal, timeout=10.0, quick=False):
    t0 = time.time()
    if goal is True or (not isinstance(goal, bool) and z3.is_true(z3.simplify(goal))):
        STATS.by['simplifier'] += 1
        return Result('proved', backend='simplifier')
    neg = z3.BoolVal(True) if goal is False else z3.Not(goal)
    try:
        s = _solver(timeout)
        ground = instantiate(list(pc) + [neg], facts)
        s.add(*ground)
        STATS.queries += 1
        r = s.check()
        if DUMP is not None and not quick:
            DUMP.append((s.to_smt2(), str(r)))
        if r == z3.unsat:
            STATS.by['z3-inst'] += 1
            return Result('proved', backend='z3-inst', secs=time.time() - t0)
        model1 = s.model() if r == z3.sat else None
        if not facts or quick:
            if r == z3.sat:
                return Result('failed', model1, True, 'sat', time.time() - t0, 'z3-inst')
            return Result('unknown', None, False, s.reason_unknown(), time.time() - t0, 'z3-inst')
        s2 = _solver(timeout)
        s2.add(*pc)
        s2.add(neg)
        for q in facts:
            vs = [z3.Int(f'q!{k}') for k in range(q.n)]
            f = q.fn(*vs)
            if f is True:
                continue
            s2.add(z3.ForAll(vs, f))
        STATS.queries += 1
        r2 = s2.check()
        if r2 == z3.unsat:
            STATS.by['z3-quant'] += 1
            return Result('proved', backend='z3-quant', secs=time.time() - t0)
        if r2 == z3.sat:
            return Result('failed', s2.model(), True, 'sat (quantified)', time.time() - t0, 'z3-quant')
        if model1 is not None:
            return Result('failed', model1, False, 'sat on all ground instances; quantified query: '
                          + s2.reason_unknown(), time.time() - t0, 'z3-inst')
        return Result('unknown', None, False, s2.reason_unknown(), time.time() - t0, 'z3-quant')
    finally:
        STATS.time += time.time() - t0
