"""State outside the representation the contracts describe.

The contracts describe the attributes the classes of the package keep at the pinned revision (known_state.json,
written by `python3 -m pyve.hidden`).  A change may add attributes.  What an added attribute holds when a function
under contract starts is unknown: reading it there gives an arbitrary value of its type (integers and truth values) or
is outside the verifier's reach, so that a conclusion that depends on it is never drawn; that it is written is not
compared with the specification.  Attributes no code reads are ignored."""
import ast
import collections
import itertools
import json
import os
import weakref

KNOWN_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_state.json')
SKIP = ('tests', 'examples')


def _mangle(cls, name):
    return f'_{cls.lstrip("_")}{name}' if cls and name.startswith('__') and not name.endswith('__') else name


def sources(pkg):
    for d, ds, fs in os.walk(pkg):
        ds[:] = [x for x in ds if x not in SKIP]
        for f in fs:
            if f.endswith('.py'):
                with open(os.path.join(d, f), encoding='utf-8') as fh:
                    try:
                        yield d, f, ast.parse(fh.read())
                    except SyntaxError:
                        pass


def scan(pkg):
    """({class name: names stored on self}, names stored on other objects, names read)"""
    classes, other, read = {}, set(), set()
    for _, _, tree in sources(pkg):
        def walk(node, cls, first):
            if isinstance(node, ast.ClassDef):
                classes.setdefault(node.name, set())
                for c in node.body:
                    walk(c, node.name, None)
                return
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = node.args.posonlyargs + node.args.args
                first = a[0].arg if a else first
            if isinstance(node, ast.Attribute):
                nm = _mangle(cls, node.attr)
                if isinstance(node.ctx, ast.Load):
                    read.add(nm)
                elif cls and isinstance(node.value, ast.Name) and node.value.id == first:
                    classes[cls].add(nm)
                else:
                    other.add(nm)
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and len(node.args) > 1 \
                    and isinstance(node.args[1], ast.Constant) and isinstance(node.args[1].value, str):
                nm = node.args[1].value
                if node.func.id in ('setattr', 'delattr'):
                    other.add(nm)
                elif node.func.id in ('getattr', 'hasattr'):
                    read.add(nm)
            for c in ast.iter_child_nodes(node):
                walk(c, cls, first)
        walk(tree, None, None)
    return classes, other, read


class Hidden:
    """the value of an added attribute when a function under contract starts"""

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return f'<hidden {self.kind}>'


_state = None
_cache = {}


def state():
    global _state
    if _state is None:
        import stream2py
        with open(KNOWN_FILE) as fh:
            k = json.load(fh)
        _state = (scan(os.path.dirname(stream2py.__file__)), k['classes'], set(k['other']))
    return _state


def mro_names(cls):
    m = getattr(cls, '__mro__', None)
    if m is None:                      # a class made by the code under contract
        m = cls.mro() if hasattr(cls, 'mro') else ()
    return [getattr(k, '__name__', '') for k in m]


_kinds = None


def kinds():
    """{attribute: 'int' | 'bool' | 'other'} by everything that is ever stored in an attribute of that name"""
    global _kinds
    if _kinds is None:
        import stream2py
        _kinds = {}

        def of(e, cls, name):
            if isinstance(e, ast.Constant):
                return type(e.value).__name__ if type(e.value) in (int, bool) else 'other'
            if isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops) \
                    or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return 'bool'
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
                k = of(e.left, cls, name), of(e.right, cls, name)
                return 'int' if all(x in ('int', 'bool') for x in k) else 'other'
            if isinstance(e, ast.Attribute) and _mangle(cls, e.attr) == name:
                return 'int'       # the same attribute: whatever else is stored decides
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
                if e.func.id == 'len':
                    return 'int'
                if e.func.id in ('max', 'min') and len(e.args) > 1 and all(of(a, cls, name) == 'int' for a in e.args):
                    return 'int'
                if e.func.id == 'getattr' and len(e.args) == 3 and isinstance(e.args[1], ast.Constant) \
                        and e.args[1].value == name:
                    return of(e.args[2], cls, name)
                if e.func.id == 'bool':
                    return 'bool'
            return 'other'

        def note(name, k):
            _kinds[name] = k if _kinds.get(name, k) == k else 'other'

        plain = set()

        def walk(n, cls):
            if isinstance(n, ast.ClassDef):
                cls = n.name
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                pairs = []
                for t in ts:
                    if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) \
                            and not any(isinstance(x, ast.Starred) for x in t.elts + n.value.elts):
                        pairs += zip(t.elts, n.value.elts)
                    else:
                        pairs.append((t, n.value))
                for t, val in pairs:
                    if isinstance(t, ast.Attribute):
                        nm = _mangle(cls, t.attr)
                        if isinstance(n, ast.AugAssign):
                            k = of(ast.BinOp(t, n.op, val), cls, nm)
                        else:
                            k = of(val, cls, nm) if val is not None else 'other'
                        note(nm, k)
                        plain.add(t)
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.Attribute) and not isinstance(c.ctx, ast.Load) and c not in plain:
                    note(_mangle(cls, c.attr), 'other')
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('setattr', 'delattr') \
                        and len(c.args) > 1:
                    note(getattr(c.args[1], 'value', None), 'other')
                walk(c, cls)
        for _, _, tree in sources(os.path.dirname(stream2py.__file__)):
            walk(tree, None)
    return _kinds


def forget(st, ref):
    """the added attributes of an object hold anything from now on"""
    o = st.heap.get(ref.oid)
    if o is None:
        return
    for n in hidden(o.cls):
        if n in o.fields and not isinstance(o.fields[n], Hidden):
            st.setf(ref, n, Hidden(kinds().get(n, 'other')))


def of_class(cls, name):
    """(is there a value for all instances, the kind of value an instance without one of its own has)"""
    k = kinds().get(name, 'other')
    if not isinstance(cls, type):
        return False, 'other'
    if not hasattr(cls, name):
        return False, k
    t = type(getattr(cls, name)).__name__
    return True, k if t == k else 'other'


def read(eng, name, h):
    from .solver import fresh, fresh_int, BoolS
    from .values import SInt, SBool, Unsupported
    k = h.kind if isinstance(h, Hidden) else h
    if k == 'other':
        raise Unsupported(f'reads {name}, which is not part of the representation under contract')
    eng.hidden_used = True
    return SInt(fresh_int(name)) if k == 'int' else SBool(fresh(name, BoolS))


def ours(module):
    return isinstance(module, str) and module.split('.')[0] == 'stream2py'


MUTABLE = (dict, list, set, bytearray, collections.deque, weakref.WeakKeyDictionary, weakref.WeakValueDictionary,
           weakref.WeakSet, itertools.count)


def shared(v, name):
    """an object shared by all calls (a global, a class attribute, a default value): its contents when a function
    starts are unknown unless the code only ever looks things up in it"""
    from .values import Unsupported
    if isinstance(v, MUTABLE) and name not in constants():
        raise Unsupported(f'{name} is shared by all calls')
    if name in _globals():
        raise Unsupported(f'{name} is assigned by functions')


_const = None
COPIES = ('dict', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'len', 'bool', 'any', 'all')
LOOKUPS = ('get', 'items', 'keys', 'values', 'index', 'count', 'copy')


def _scan_names():
    global _const
    if _const is None:
        import stream2py
        stores, bad, glob = set(), set(), set()
        for _, _, tree in sources(os.path.dirname(stream2py.__file__)):
            parent = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Global):
                    glob.update(n.names)
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if nm is None or not isinstance(n.ctx, ast.Load):
                    continue
                p = parent.get(n)
                ok = isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load) \
                    or isinstance(p, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) \
                    or isinstance(p, ast.Attribute) and p.attr in LOOKUPS \
                    or isinstance(p, ast.keyword) and p.arg is None or isinstance(p, (ast.Dict, ast.Starred)) \
                    or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in COPIES \
                    or isinstance(p, (ast.For, ast.comprehension)) and p.iter is n
                if not ok:
                    bad.add(nm)
                stores.add(nm)
        _const = (stores - bad, glob)
    return _const


def constants():
    return _scan_names()[0]


def _globals():
    return _scan_names()[1]


def hidden(cls):
    """names of attributes of instances of cls that are not part of the representation"""
    if cls in _cache:
        return _cache[cls]
    (now, other, read), known, known_other = state()
    names = mro_names(cls)
    r = set()
    pkg = any(n in now for n in names)
    if pkg:
        allowed = set(known_other)
        for n in names:
            allowed |= set(known.get(n, ()))
        for n in names:
            r |= now.get(n, set())
        r = ((r | other) - allowed) & read
    _cache[cls] = frozenset(r)
    return _cache[cls]


def ignored(cls, name):
    """an attribute the contracts do not describe: not compared with the specification"""
    (now, other, _), known, known_other = state()
    names = mro_names(cls)
    return (any(name in now.get(n, ()) for n in names) or name in other) and name not in known_other and \
        not any(name in known.get(n, ()) for n in names)


if __name__ == '__main__':
    c, o, _ = scan('/repo/stream2py')
    with open(KNOWN_FILE, 'w') as fh:
        json.dump(dict(classes={k: sorted(v) for k, v in sorted(c.items())}, other=sorted(o)), fh, indent=1)
        fh.write('\n')
