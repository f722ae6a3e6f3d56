"""Loops: unrolled when the number of iterations is concrete, otherwise by invariant.

The loop rule: at the head everything the body may change is replaced by an arbitrary value satisfying the
invariant; the body is executed once from there and must re-establish the invariant; the code after the loop is
executed from the head state in which the loop ends.  What the body may change is inferred (the body is
re-executed until the set is closed), so a location that is not replaced is proved unchanged.  The inferred
invariants are constructive: integers v0+it, v0-it or arbitrary; sequences s0[it:] or arbitrary (it = number of
completed iterations).  A contract may add its own through a LoopSpec."""
import ast
import z3
from .solver import fresh, fresh_int, IntS, BoolS, RealS, Item, Opq, prove, QFact, _fresh
from .values import *
from .natives import sub, NDeque, NList
from . import hidden, natives

MAX_UNROLL = 24


class LoopSpec:
    """invariant of one loop, given by a contract"""

    def handles(self, oid, field):
        """heap location havocked by self.havoc"""
        return False

    def enter(self, eng, st, fid):
        """obligations on entry"""

    def havoc(self, eng, st, fid):
        """replace what the spec handles by an arbitrary state satisfying the invariant: yields states"""
        yield st

    def check(self, eng, st, fid, head):
        """obligations at the end of an iteration"""

    def cover(self, eng, st, fid):
        """False where a state in which another iteration starts was not foreseen by havoc, which foresees it from
        then on"""
        return True

    ghost_ok = False


class _Restart(Exception):
    pass


class GenExit:
    pass


def _outs(eng, n, st, fid, body_out):
    """normalise the outcome of one body execution: ('next'|'brk'|other)"""
    k = body_out[0]
    if k in ('norm', 'cont'):
        return 'next'
    if k == 'brk':
        return 'brk'
    return 'out'


def while_loop(eng, n, st, fid):
    from .interp import assigned_names

    def cond(s):
        """yields (st, bool|Raise)"""
        for s1, v in eng.ev(n.test, s, fid):
            if isinstance(v, Raise):
                yield s1, v
            else:
                yield from eng.truth(s1, v)

    spec = eng.loop_spec(eng, n, st, fid) if eng.loop_spec else None
    if spec is None and not isinstance(n.test, ast.Constant):
        r = try_unroll(eng, n, st, fid, cond)
        if r is not None:
            yield from r
            return

    def step(s, it):
        """one evaluation of the head: yields (st, 'body'|'exit'|Raise)"""
        for s1, b in cond(s):
            yield s1, (b if isinstance(b, Raise) else 'body' if b else 'exit')
    yield from inv_loop(eng, n, st, fid, step, spec, assigned_names(n.body + [ast.Expr(n.test)]))


def try_unroll(eng, n, st, fid, cond):
    """concrete unrolling when the test is decided by the path condition in every round; None if not"""
    mark = len(eng.obligations)
    done = []
    front = [st.copy()]
    for _ in range(MAX_UNROLL):
        nxt = []
        for s in front:
            s0 = s.copy()
            rs = list(cond(s0))
            if len(rs) != 1:
                del eng.obligations[mark:]
                return None
            s1, b = rs[0]
            if isinstance(b, Raise):
                done.append((s1, ('exc', b.exc)))
                continue
            if not b:
                done.append((s1, 'exit'))
                continue
            for s2, out in eng.block(n.body, s1, fid):
                k = _outs(eng, n, s2, fid, out)
                if k == 'next':
                    nxt.append(s2)
                else:
                    done.append((s2, 'brk' if k == 'brk' else out))
        front = nxt
        if not front:
            break
    else:
        del eng.obligations[mark:]
        return None

    def gen():
        for s, o in done:
            if o == 'exit':
                yield from eng.block(n.orelse, s, fid)
            elif o == 'brk':
                yield s, ('norm', None)
            else:
                yield s, o
    return gen()


def for_loop(eng, n, st, fid):
    from .interp import assigned_names, range_seq
    for s, itv in eng.ev(n.iter, st, fid):
        if isinstance(itv, Raise):
            yield s, ('exc', itv.exc)
            continue
        h = eng.hooks.get('for_iter')
        if h is not None:
            r = h(eng, n, s, fid, itv)
            if r is not None:
                yield from r
                continue
        for s1, sq in eng.iterate(s, itv):
            if isinstance(sq, Raise):
                yield s1, ('exc', sq.exc)
                continue
            if isinstance(sq, RangeVal):
                sq = range_seq(sq)
            if isinstance(sq, GenObj):
                yield from for_generator(eng, n, s1, fid, sq)
                continue
            if isinstance(sq, FilterIter):
                raise Unsupported('for over a filtered sequence')
            if sq.values is not None and len(sq.values) <= 60:
                yield from unroll(eng, n, s1, fid, list(sq.values), itv)
                continue

            def step(ss, it, sq=sq):
                for s2, more in eng.branch(ss, it < sq.zn()):
                    if not more:
                        yield s2, 'exit'
                        continue
                    for s3, r in eng.assign(s2, fid, n.target, sq.at(it)):
                        yield s3, (r if isinstance(r, Raise) else 'body')
            spec = eng.loop_spec(eng, n, s1, fid) if eng.loop_spec else None
            src = (itv, s1.get(itv)) if isinstance(itv, Ref) else None
            yield from inv_loop(eng, n, s1, fid, step, spec, assigned_names(n.body) | assigned_names([n]),
                                bound=sq.n, src=src)


def unroll(eng, n, st, fid, values, itv):
    src = st.get(itv) if isinstance(itv, Ref) else None

    def go(s, k):
        if k == len(values):
            yield from eng.block(n.orelse, s, fid)
            return
        if src is not None and s.get(itv) is not src:
            raise Unsupported('container changed while iterated')
        for s1, r in eng.assign(s, fid, n.target, values[k]):
            if isinstance(r, Raise):
                yield s1, ('exc', r.exc)
                continue
            for s2, out in eng.block(n.body, s1, fid):
                kk = _outs(eng, n, s2, fid, out)
                if kk == 'next':
                    yield from go(s2, k + 1)
                elif kk == 'brk':
                    yield s2, ('norm', None)
                else:
                    yield s2, out
    yield from go(st, 0)


def for_generator(eng, n, st, fid, gen):
    """for target in generator: the body is run at each yield; leaving the loop closes the generator"""
    def on_yield(eng_, s, v):
        for s1, r in eng.assign(s, fid, n.target, v):
            if isinstance(r, Raise):
                yield s1, leave(('exc', r.exc))
                continue
            for s2, out in eng.block(n.body, s1, fid):
                k = _outs(eng, n, s2, fid, out)
                if k == 'next':
                    yield s2, None
                elif k == 'brk':
                    yield s2, leave('brk')
                else:
                    yield s2, leave(out)

    def leave(out):
        e = Exc(GeneratorExit)
        e.fields['loop'] = (fid, n, out)
        return Raise(e)
    for s, r in eng.run_body(st, gen.fn, gen.binding, on_yield):
        if isinstance(r, Raise):
            p = r.exc.fields.get('loop')
            if p is not None and p[0] == fid and p[1] is n:
                yield s, (('norm', None) if p[2] == 'brk' else p[2])
            else:
                yield s, ('exc', r.exc)
        else:
            yield from eng.block(n.orelse, s, fid)


# ---------------------------------------------------------------- invariant rule

def shape(v, st=None, old=None):
    """st, old: state the value is in, and the heap before the loop: an object created in the loop is described
    by its class and the shapes of its fields"""
    if isinstance(v, Ref) and st is not None and v.oid not in old:
        o = st.get(v)
        fs = []
        for f, x in sorted(o.fields.items()):
            sh = shape(x)
            if sh == 'seq':
                srt = elem_sort(x)
                if srt is None:
                    raise Unsupported('loop creates a sequence of unknown elements')
                sh = ('seq', srt)
            elif isinstance(sh, tuple) and isinstance(sh[1], Ref) and sh[1].oid not in old:
                raise Unsupported('loop creates nested objects')
            fs.append((f, sh))
        return ('new', o.cls, tuple(fs))
    if v is None:
        return 'none'
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, SKey):
        return 'key'
    if isinstance(v, SItem):
        return 'item'
    if isinstance(v, SStr):
        return 'str'
    if isinstance(v, SOpq):
        return 'opq'
    if type(v).__name__ == 'SReal':
        return 'real'
    if isinstance(v, Seq):
        return 'seq'
    if v is POISON:
        return 'poison'
    return ('const', v)


def shape_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if len(a) == 3:
            return (a[1] is b[1] and [f for f, _ in a[2]] == [f for f, _ in b[2]]
                    and all(shape_eq(x, y) for (_, x), (_, y) in zip(a[2], b[2])))
        if a[0] == 'seq' or b[0] == 'seq':
            return a[0] == b[0] and a[1] == b[1]
        return sym_eq(a[1], b[1]) is True
    return a == b


def mk_shape(sh, name, sample=None):
    if sh == 'none':
        return None
    if sh == 'bool':
        return SBool(fresh(name, BoolS))
    if sh == 'int':
        return SInt(fresh_int(name))
    if sh == 'key':
        return SKey(fresh(name, RealS))
    if sh == 'item':
        return SItem(fresh(name, Item))
    if sh == 'opq':
        return SOpq(fresh(name, Opq))
    if sh == 'str':
        return SStr(fresh(name, Opq))
    if sh == 'real':
        from .interp import SReal
        return SReal(fresh(name, RealS))
    if sh == 'poison':
        return POISON
    if isinstance(sh, tuple):
        return sh[1]
    raise Unsupported('loop changes a value of unknown shape')


def elem_sort(sq):
    if isinstance(sq.n, int) and sq.n == 0:
        return None
    v = sq.at(fresh_int('probe')) if sq.values is None else sq.values[0]
    if isinstance(v, Sym):
        return v.sort
    raise Unsupported('loop changes a sequence of structured elements')


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        return False
    return sym_eq(a, b) is True


class Var:
    """one havocked location"""

    def __init__(self, kind, key, v0):
        self.kind, self.key, self.v0 = kind, key, v0
        s = shape(v0)
        self.shapes = [s]
        if s == 'int':
            self.modes = ['+it', '-it', 'any']
        elif s == 'seq' and not (isinstance(v0.n, int) and v0.n == 0):
            self.modes = ['drop', 'any']
        else:
            self.modes = ['any']


def inv_loop(eng, n, st, fid, step, spec, assigned, bound=None, src=None):
    from .interp import State
    fr = st.frames[fid]

    def start():
        d = {}
        for nm in sorted(assigned):
            nm = eng.mangle(st, fid, nm)
            d[('loc', nm)] = Var('loc', nm, fr[nm] if nm in fr else POISON)
        return d
    vars_ = start()
    rotate = False
    if spec is not None:
        spec.enter(eng, st, fid)
    mark = len(eng.obligations)
    for round_ in range(60):
        if not rotate and any(v.modes[0] == 'any' for v in vars_.values()):
            vars_, rotate = start(), True
        try:
            went_on = []
            results = run_once(eng, n, st, fid, step, spec, vars_, bound, src, rotate, went_on)
            earlier = continued(spec, vars_, went_on)
            if earlier is not None:
                del eng.obligations[mark:]
                results = run_once(eng, n, st, fid, step, spec, vars_, bound, src, rotate, [], earlier)
        except _Restart:
            del eng.obligations[mark:]
            continue
        break
    else:
        raise Unsupported('loop invariant inference did not converge')
    for s, o in results:
        if o == 'exit':
            yield from eng.block(n.orelse, s, fid)
        elif o == 'brk':
            yield s, ('norm', None)
        else:
            yield s, o


def continued(spec, vars_, went_on):
    """where the state at the head is a function of the number of the iteration (and the state before the loop), and
    so is what the body does: the condition under which an iteration did not leave the loop, as a function"""
    if spec is not None:
        return None
    if not went_on:
        return lambda j: z3.BoolVal(False)
    if len({k for _, k, _, _ in went_on}) != 1:
        return None
    for v in vars_.values():
        if v.modes[0] == 'any' and not (v.kind == 'loc' and v.v0 is POISON):
            return None
    _, _, it, mark = went_on[0]
    alts = [z3.And(*d) if d else z3.BoolVal(True) for d, _, _, _ in went_on]
    if any(z3.is_true(z3.simplify(a)) for a in alts):
        return None
    cond = z3.Or(*alts)
    todo, seen = [cond], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_var(x):
            return None
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            k = x.decl().name().rpartition('!')[2]
            if k.isdigit() and int(k) > mark:
                return None        # depends on something that came about in the iteration
        todo.extend(x.children())
    return lambda j: z3.substitute(cond, (it, j))


def heads(eng, st, fid, vars_, it, spec):
    """arbitrary head states"""
    s = st.copy()
    s.assume(it >= 0)
    s.ghost = dict(s.ghost)
    s.trace = ('loop',)
    todo = list(vars_.values())

    def put(ss, var, val):
        if var.kind == 'loc':
            if val is POISON and var.key not in st.frames[fid]:
                ss.frames[fid][var.key] = POISON
            else:
                ss.frames[fid][var.key] = val
        elif var.kind == 'heap':
            ss.setf(Ref(var.key[0]), var.key[1], val)

    def go(ss, k):
        if k == len(todo):
            for oid in list(ss.heap):
                hidden.forget(ss, Ref(oid))
            if spec is not None:
                yield from spec.havoc(eng, ss, fid)
            else:
                yield ss
            return
        var = todo[k]
        mode = var.modes[0]
        if mode == '+it' and len(var.shapes) == 1:
            put(ss, var, mkint(zint(as_int(var.v0)) + it))
            yield from go(ss, k + 1)
            return
        if mode == '-it' and len(var.shapes) == 1:
            put(ss, var, mkint(zint(as_int(var.v0)) - it))
            yield from go(ss, k + 1)
            return
        if mode == 'drop':
            ss.assume(it <= var.v0.zn())
            put(ss, var, sub(var.v0, it, var.v0.n))
            yield from go(ss, k + 1)
            return
        for sh in var.shapes:
            s2 = ss.copy()
            if sh == 'seq':
                srt = var.sort if getattr(var, 'sort', None) is not None else elem_sort(var.v0)
                if srt is None:
                    put(s2, var, var.v0)
                else:
                    q = Seq.fresh('lv', srt)
                    s2.assume(q.n >= 0)
                    put(s2, var, q)
            elif isinstance(sh, tuple) and sh[0] == 'new':
                fields = {}
                for f, x in sh[2]:
                    if isinstance(x, tuple) and x[0] == 'seq':
                        q = Seq.fresh('lv', x[1])
                        s2.assume(q.n >= 0)
                        fields[f] = q
                    else:
                        fields[f] = mk_shape(x, 'lv_' + f)
                put(s2, var, s2.alloc(sh[1], fields))
            else:
                put(s2, var, mk_shape(sh, 'lv_' + str(var.key if var.kind == 'loc' else var.key[1])))
            yield from go(s2, k + 1)
    yield from go(s, 0)


def run_once(eng, n, st, fid, step, spec, vars_, bound, src, rotate, went_on, earlier=None):
    """rotate: where the loop changes something the inferred invariant does not describe exactly, it is treated as
    'if test: (body while test)': the invariant then has to cover only the states from which another iteration
    starts, and the states the loop ends in are those without any iteration and those at the end of an iteration"""
    it = fresh_int('it')
    results = []
    if rotate:
        for s1, o in step(st.copy(), z3.IntVal(0)):
            if o != 'body':
                results.append((s1, 'exit' if o == 'exit' else ('exc', o.exc)))
    for number, h in enumerate(heads(eng, st, fid, vars_, it, spec)):
        if earlier is not None:
            h.assume(z3.Or(it == 0, earlier(it - 1)))
            h.facts = h.facts + [QFact(1, lambda j: z3.Implies(z3.And(0 <= j, j < it), earlier(j)), 'went on')]
        if bound is not None:
            h.assume(it <= zint(bound))
        if not eng.feasible(h):
            continue
        h0 = dict(h.heap)
        fr0 = dict(h.frames[fid])
        g0 = dict(h.ghost)
        outer0 = {f: dict(v) for f, v in h.frames.items() if f != fid}
        mark, known = next(_fresh), len(h.pc)
        for s1, o in step(h.copy(), it):
            if rotate and (o == 'exit' or isinstance(o, Raise)):
                continue
            if o == 'exit':
                results.append((s1, 'exit'))
                continue
            if isinstance(o, Raise):
                results.append((s1, ('exc', o.exc)))
                continue
            if src is not None and s1.get(src[0]) is not src[1]:
                raise Unsupported('container changed while iterated')
            for s2, out in eng.block(n.body, s1, fid):
                k = _outs(eng, n, s2, fid, out)
                if k == 'brk':
                    results.append((s2, 'brk'))
                    continue
                if k == 'out':
                    results.append((s2, out))
                    continue
                went_on.append((list(s2.pc[known:]), number, it, mark))
                if spec is not None:
                    spec.check(eng, s2, fid, (h0, g0))
                if not rotate:
                    end_of_iteration(eng, s2, fid, vars_, it, h0, fr0, g0, outer0, spec, st.heap)
                    continue
                for s3, o3 in step(s2.copy(), it + 1):
                    if o3 == 'body':
                        s4 = s2.copy()
                        s4.pc, s4.facts = s3.pc, s3.facts
                        end_of_iteration(eng, s4, fid, vars_, it, h0, fr0, g0, outer0, spec, st.heap)
                    else:
                        results.append((s3, 'exit' if o3 == 'exit' else ('exc', o3.exc)))
    return results


def end_of_iteration(eng, s, fid, vars_, it, h0, fr0, g0, outer0, spec, before):
    changed = False
    # heap frame
    for oid, o in h0.items():
        o2 = s.heap.get(oid)
        if o2 is o:
            continue
        for f in set(o.fields) | set(o2.fields):
            a, b = o.fields.get(f, POISON), o2.fields.get(f, POISON)
            if ('heap', (oid, f)) in vars_ or same(a, b):
                continue
            if spec is not None and spec.handles(oid, f):
                continue
            if hidden.ignored(o.cls, f) and (f in o.fields or f not in hidden.hidden(o.cls)):
                continue           # unknown at the head
            if f not in o.fields or f not in o2.fields:
                raise Unsupported('attribute created or deleted in a loop')
            if isinstance(a, Seq):
                elem_sort(a)
            vars_[('heap', (oid, f))] = Var('heap', (oid, f), a)
            changed = True
    # outer frames (closures)
    for f, d in outer0.items():
        for k, v in s.frames.get(f, {}).items():
            if k in d and not k.startswith('__') and not same(d[k], v):
                raise Unsupported('loop changes a variable of an enclosing function')
    # locals created in the body
    for k, v in s.frames[fid].items():
        if k.startswith('__') or ('loc', k) in vars_:
            continue
        if k not in fr0:
            vars_[('loc', k)] = Var('loc', k, POISON)
            changed = True
        elif not same(fr0[k], v):
            vars_[('loc', k)] = Var('loc', k, fr0[k])
            changed = True
    if changed:
        raise _Restart()
    if spec is not None and not spec.cover(eng, s, fid):
        raise _Restart()
    # ghost state
    if spec is None or not spec.ghost_ok:
        for k in set(g0) | set(s.ghost):
            if isinstance(k, str) and k not in ('line', 'perms') and not k.startswith('_'):
                a, b = g0.get(k), s.ghost.get(k)
                if not (a is b or (not isinstance(a, (Seq,)) and sym_eq(a, b) is True)):
                    raise Unsupported(f'loop changes ghost state {k}')
    # shapes and modes
    for var in vars_.values():
        if var.kind == 'loc':
            v = s.frames[fid].get(var.key, POISON)
        else:
            v = s.heap[var.key[0]].fields[var.key[1]]
        if POISON is var.v0 and var.kind == 'loc':
            continue           # unknown before the loop: stays unknown at the head
        sh = shape(v, s, before)
        if not any(shape_eq(sh, x) for x in var.shapes):
            var.shapes.append(sh)
            var.modes = ['any']
            mk_shape(sh, 'x') if sh != 'seq' and not (isinstance(sh, tuple) and sh[0] == 'new') else None
            raise _Restart()
        mode = var.modes[0]
        ok = True
        if mode == '+it':
            ok = prove(s.pc, s.facts, zint(as_int(v)) == zint(as_int(var.v0)) + it + 1, 3, quick=True).status == 'proved'
        elif mode == '-it':
            ok = prove(s.pc, s.facts, zint(as_int(v)) == zint(as_int(var.v0)) - it - 1, 3, quick=True).status == 'proved'
        elif mode == 'drop':
            n0 = var.v0.zn()
            ok = prove(s.pc, s.facts, z3.And(v.zn() == n0 - it - 1, n0 - it - 1 >= 0), 3, quick=True).status == 'proved'
            if ok:
                j = fresh_int('dj')
                e = sym_eq(v.at(j), var.v0.at(j + it + 1))
                ok = prove(s.pc + [0 <= j, j < v.zn()], s.facts, e, 3, quick=True).status == 'proved'
        if not ok:
            var.modes.pop(0)
            if var.modes == ['any'] and sh == 'seq':
                var.sort = elem_sort(v)
            raise _Restart()
