"""Contracts of the HTTP source (C20).

urllib.request.Request and urlopen, and the response, are used through contracts: a request is the URL, data, headers and
method it was made with; urlopen(request) gives a response or raises; response.read(*args) gives any bytes or raises;
leaving or closing the response closes it.  Texts and byte strings are uninterpreted, with encode, decode, upper, lower
and length as uninterpreted functions (and the fact that upper(s) == 'GET' iff lower(s) == 'get')."""
import itertools
import urllib.request
from types import SimpleNamespace
import z3
from pyve.interp import Engine, State, is_raise, SReal
from pyve.solver import fresh, fresh_int, Item, RealS, BoolS, IntS, Opq
from pyve.values import *
from pyve import solver
from pyve.natives import NDict
from pyve.contract import Contract
from .stream import call
from .world import only

import stream2py.sources.http as _http

HR = _http.HTTPResponseReader

_upper, _lower, _fold = (z3.Function(n, Opq, Opq) for n in ('str_upper', 'str_lower', 'str_casefold'))
_encode = z3.Function('str_encode', Opq, Opq, Opq)
_decode = z3.Function('bytes_decode', Opq, Opq, Opq)
_len = z3.Function('text_len', Opq, IntS)
_LITS = {}


def lit(s):
    """the constant text or byte string"""
    if s not in _LITS:
        _LITS[s] = z3.Const('lit_' + repr(s), Opq)
    return _LITS[s]


def facts(st):
    """what is known of constants and of the functions on texts"""
    for s in ('GET', 'get', 'utf-8', '', b''):
        st.assume(_len(lit(s)) == len(s))
    st.assume(z3.Distinct(*[lit(s) for s in ('GET', 'get', 'utf-8', '')]))


def known_text(st, t):
    st.assume(_len(t) >= 0)
    get = [_upper(t) == lit('GET'), _lower(t) == lit('get'), _fold(t) == lit('get')]
    st.assume(z3.And(get[0] == get[1], get[1] == get[2]))
    st.assume(z3.Implies(get[0], _len(t) == 3))
    for c in ('', 'GET', 'get'):
        st.assume(z3.Implies(t == lit(c), z3.And(_upper(t) == lit(c.upper()), _lower(t) == lit(c.lower()))))


def term(v):
    if isinstance(v, (STxt, SByt)):
        return v.t
    if isinstance(v, (str, bytes)):
        return lit(v)
    raise Unsupported(f'text {v!r}')


def norm_enc(a, kw):
    """the encoding named in a call of encode or decode; utf-8 by default"""
    a = list(a) + [kw[k] for k in ('encoding',) if k in kw]
    if len(a) > 1 or set(kw) - {'encoding'}:
        raise Unsupported('error handling of encode/decode')
    e = a[0] if a else 'utf-8'
    if isinstance(e, str):
        import codecs
        try:
            e = codecs.lookup(e).name
        except LookupError:
            pass
    return term(e)


class STxt(SStr):
    """an arbitrary text"""
    eng_type = str

    def eng_truth(self):
        return _len(self.t) != 0

    def eng_len(self):
        return _len(self.t)

    def eng_eq(self, o):
        if isinstance(o, (STxt, str)):
            return self.t == term(o)
        return False

    def eng_getattr(self, eng, st, name):
        f = dict(upper=_upper, lower=_lower, casefold=_fold).get(name)
        if f is not None:
            def h(eng, st, a, kw):
                yield st, STxt(f(self.t))
        elif name == 'encode':
            def h(eng, st, a, kw):
                yield st, SByt(_encode(self.t, norm_enc(a, kw)))
        else:
            raise Unsupported(f'str.{name}')
        yield st, NativeFn(h, name)


class SByt(Sym):
    """an arbitrary byte string"""
    sort = Opq
    eng_type = bytes

    def eng_truth(self):
        return _len(self.t) != 0

    def eng_len(self):
        return _len(self.t)

    def eng_eq(self, o):
        if isinstance(o, (SByt, bytes)):
            return self.t == term(o)
        return False

    def eng_getattr(self, eng, st, name):
        if name != 'decode':
            raise Unsupported(f'bytes.{name}')

        def h(eng, st, a, kw):
            r = _decode(self.t, norm_enc(a, kw))
            b = st.copy()
            e = Exc(ValueError, ('decode',), arbitrary=True)
            b.ghost['decode_exc'] = e.tag
            yield b, Raise(e)
            yield st, STxt(r)
        yield st, NativeFn(h, name)


def text(st, name):
    t = fresh(name, Opq)
    known_text(st, t)
    return STxt(t)


def byts(st, name):
    t = fresh(name, Opq)
    st.assume(_len(t) >= 0)
    return SByt(t)


def same(a, b):
    """the same text or byte string (a text never equals a byte string), or None"""
    if a is None or b is None:
        return a is None and b is None
    ta, tb = (isinstance(x, (STxt, str)) for x in (a, b))
    ba, bb = (isinstance(x, (SByt, bytes)) for x in (a, b))
    if not (ta and tb or ba and bb):
        return False
    return simp(term(a) == term(b))


# ------------------------------------------------------------------ urllib

class NRequest:
    """urllib.request.Request"""


class EnvResponse:
    """what urlopen returns"""


def rs_read(eng, st, args, kw):
    r, a = args[0], tuple(args[1:])
    ob = lambda nm, g: eng.oblige(st, f'http: {nm}', g)
    ob('data are read from the response of the last opening', zbool(sym_eq(r, st.ghost['response'])))
    ob('an open response is read', st.f(r, 'closed') is False)
    ob('the response is asked with the configured read arguments', zbool(sym_eq(a, eng.w.read_args)) if not kw else False)
    st.ghost['reads'] += 1
    b = st.copy()
    e = Exc(BaseException, ('read',), arbitrary=True)
    b.ghost['read_exc'] = e.tag
    yield b, Raise(e)
    st.ghost['received'] = byts(st, 'received')
    st.log('received')
    yield st, st.ghost['received']


def rs_close(eng, st, args, kw):
    r = args[0]
    eng.oblige(st, 'http: the response is closed once', st.f(r, 'closed') is False)
    st.setf(r, 'closed', True)
    st.ghost['closes'] += 1
    b = st.copy()
    e = Exc(Exception, ('close',), arbitrary=True)
    b.ghost['close_exc'] = e.tag
    yield b, Raise(e)
    yield st, None


def rs_isclosed(eng, st, args, kw):
    """an open response is closed for http.client once it was read to its end"""
    if st.f(args[0], 'closed') is not True:
        yield st.copy(), False
    yield st, True


def rs_enter(eng, st, args, kw):
    yield st, args[0]


EnvResponse.read = NativeFn(rs_read, 'read', method=True)
EnvResponse.close = NativeFn(rs_close, 'close', method=True)
EnvResponse.__exit__ = NativeFn(rs_close, '__exit__', method=True)
EnvResponse.isclosed = NativeFn(rs_isclosed, 'isclosed', method=True)
EnvResponse.__enter__ = NativeFn(rs_enter, '__enter__', method=True)


def add_header(eng, st, args, kw):
    r, k, v = args
    d = st.alloc(NDict, {'d': {**as_dict(st, st.f(r, 'headers')), k: v}})
    st.setf(r, 'headers', d)
    yield st, None


NRequest.add_header = NativeFn(add_header, 'add_header', method=True)


def as_dict(st, h):
    if h is None:
        return {}
    if isinstance(h, Ref) and 'd' in st.get(h).fields:
        return dict(st.f(h, 'd'))
    raise Unsupported('headers')


def mk_request(eng, st, a, kw):
    names = ('url', 'data', 'headers', 'origin_req_host', 'unverifiable', 'method')
    v = dict(zip(names, a))
    v.update(kw)
    if set(v) - set(names) or 'url' not in v:
        yield st, Raise(Exc(TypeError, ('Request',)))
        return
    h = st.alloc(NDict, {'d': as_dict(st, v.get('headers'))})      # a copy
    yield st, st.alloc(NRequest, {'full_url': v['url'], 'data': v.get('data'), 'headers': h, 'method': v.get('method')})


def urlopen(eng, st, a, kw):
    if len(a) != 1 or set(kw) - {'timeout', 'context'}:
        raise Unsupported('urlopen with other arguments')
    q, w = a[0], eng.w
    ob = lambda nm, g: eng.oblige(st, f'http: {nm}', g)
    if not (isinstance(q, Ref) and st.get(q).cls is NRequest):
        if isinstance(q, (STxt, str)):
            h = st.alloc(NDict, {'d': {}})
            q = st.alloc(NRequest, {'full_url': q, 'data': None, 'headers': h, 'method': None})
        else:
            raise Unsupported('urlopen of an unknown request')
    ob('the request has the configured URL', zbool(same(st.f(q, 'full_url'), w.url)))
    m = st.f(q, 'method')
    if m is None:
        m = 'GET' if st.f(q, 'data') is None else 'POST'        # the default of urllib
    ob('the request has the configured method', zbool(same(m, w.method)))
    h = as_dict(st, st.f(q, 'headers'))
    ob('the request has the configured headers', set(h) == set(w.headers))
    for k in w.headers:
        if k in h:
            ob('the request has the configured headers', zbool(same(h[k], w.headers[k])))
    d = st.f(q, 'data')
    g = _upper(term(w.method)) == lit('GET') if isinstance(w.method, STxt) else z3.BoolVal(w.method.upper() == 'GET')
    ob('a GET request has no body', z3.Implies(g, zbool(d is None)))
    ob('other requests have the configured body, texts as UTF-8', z3.Implies(z3.Not(g), zbool(same(d, w.data))))
    st.ghost['opens'] += 1
    b = st.copy()
    e = Exc(BaseException, ('urlopen',), arbitrary=True)
    b.ghost['open_exc'] = e.tag
    yield b, Raise(e)
    r = st.alloc(EnvResponse, {'closed': False})
    st.ghost['response'] = r
    yield st, r


def mk_engine():
    eng = Engine()
    eng.focus = lambda n: n.startswith('http')
    eng.native(urllib.request.Request, mk_request)
    eng.native(urllib.request.urlopen, urlopen)
    return eng


# ------------------------------------------------------------------ arbitrary configurations

GHOST = dict(opens=0, closes=0, reads=0, response=None, received=None, open_exc=None, read_exc=None, close_exc=None, decode_exc=None)

METHODS = ('any', 'omitted')
BODIES = ('omitted', 'none', 'text', 'bytes')
HEADERS = ('omitted', 'none', 'empty', 'two')
READ_ARGS = ('omitted', 'none', 'number', 'tuple')
ENCODINGS = ('omitted', 'none', 'text')


def configure(eng, method='any', body='text', headers='two', read_args='tuple', encoding='text'):
    """a source made with arbitrary arguments: yields (st, src)"""
    st = State()
    st.ghost.update(GHOST)
    facts(st)
    w = eng.w = SimpleNamespace()
    w.url = text(st, 'url')
    kw = {}
    w.method = 'GET'
    if method == 'any':
        w.method = kw['method'] = text(st, 'method')
    w.data = b''
    if body == 'none':
        w.data = kw['body'] = None
    elif body == 'text':
        t = kw['body'] = text(st, 'body')
        w.data = SByt(_encode(t.t, lit('utf-8')))
        st.assume(_len(w.data.t) >= 0)
    elif body == 'bytes':
        w.data = kw['body'] = byts(st, 'body')
    w.headers = {}
    if headers == 'two':
        w.headers = {'Accept': text(st, 'accept'), 'X-Any': text(st, 'other')}
    if headers != 'omitted':
        kw['headers'] = None if headers == 'none' else st.alloc(NDict, {'d': dict(w.headers)})
    w.read_args = ()
    if read_args == 'number':
        kw['response_read_args'] = SInt(fresh_int('size'))
        w.read_args = (kw['response_read_args'],)
    elif read_args == 'tuple':
        w.read_args = kw['response_read_args'] = (SInt(fresh_int('size')),)
    elif read_args == 'none':
        kw['response_read_args'] = None
    w.encoding = None
    if encoding != 'omitted':
        w.encoding = kw['encoding'] = text(st, 'encoding') if encoding == 'text' else None
    for s, src in eng.instantiate(st, HR, [w.url], kw):
        if is_raise(src):
            eng.oblige(s, 'http: every configuration is accepted', False)
        elif eng.feasible(s):
            yield s, src


def configurations():
    seen = set()
    for dims in itertools.chain(
            itertools.product(METHODS, BODIES, ('two',), ('tuple',), ('text',)),
            itertools.product(('any',), ('text',), HEADERS, ('omitted',), ('omitted',)),
            itertools.product(('any',), ('text',), ('two',), READ_ARGS, ENCODINGS)):
        if dims not in seen:
            seen.add(dims)
            yield dict(zip(('method', 'body', 'headers', 'read_args', 'encoding'), dims))


def label(c):
    return ', '.join(f'{k} {v}' for k, v in c.items())


def total(eng, st, src):
    for s, v in eng.getattr(st.copy(), src, 'info'):
        if isinstance(v, Ref) and 'd' in s.get(v).fields and 'n_bytes_read' in s.f(v, 'd'):
            return s.f(v, 'd')['n_bytes_read']
    raise Unsupported('info')


def counter(eng, st, src):
    """the attribute holding the number of bytes read, found by what a read does to it"""
    s, r = good(eng, call(eng, st.copy(), src, 'read'), 'read')
    got = _len(s.ghost['received'].t)
    before = st.get(src).fields
    fs = [k for k, v in s.get(src).fields.items() if isinstance(v, SInt) and before.get(k) == 0 and type(before[k]) is int
          and solver.prove(s.pc, s.facts, v.t == got, 5.0).status == 'proved']
    if len(fs) != 1:
        raise Unsupported('no attribute of the source counts the bytes read')
    return fs[0]


def steps(eng, s, src, names):
    """the states after these calls succeeded"""
    if not names:
        yield s
        return
    for s2, r in call(eng, s, src, names[0]):
        if not is_raise(r) and eng.feasible(s2):
            yield from steps(eng, s2, src, names[1:])


def good(eng, it, what):
    out = [(s, r) for s, r in it if not is_raise(r) and eng.feasible(s)]
    if not out:
        raise Unsupported(f'{what} never succeeds')
    return out[0]


# ------------------------------------------------------------------ contracts

def c_open():
    """each opening, the first and after closing, sends the configured request"""
    def scenarios():
        for c, again in itertools.product(configurations(), (False, True)):
            def setup(eng, c=c, again=again):
                for s, src in configure(eng, **c):
                    for s in steps(eng, s, src, ('open', 'read', 'close') if again else ()):
                        s.ghost.update(read_exc=None, decode_exc=None)
                        yield s, [src], {}
            yield f'open{" again" if again else ""}, {label(c)}', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'open')

    def post(eng, pre, s, args, out, rep):
        ob = lambda nm, g: eng.oblige(s, f'http: {nm}', g)
        src = args[0]
        n = pre.ghost['opens']
        ob('an opening sends one request', s.ghost['opens'] == n + 1)
        if is_raise(out):
            ob('opening raises only what sending the request raised', out.exc.tag == s.ghost['open_exc'])
            c = s.ghost['closes']
            for s2, r in call(eng, s.copy(), src, 'close'):
                eng.oblige(s2, 'http: closing is harmless after a failed opening', not is_raise(r) and s2.ghost['closes'] == c)
            return
        ob('an error while sending the request is not swallowed', s.ghost['open_exc'] is None)
        ob('opening changes no byte count', zbool(sym_eq(total(eng, pre, src), total(eng, s, src))))
    c = Contract('HTTPResponseReader.open', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def c_read():
    """a read after any history: any number of bytes read before, by this opening or earlier ones"""
    def scenarios():
        for c, again in itertools.product(configurations(), (False, True)):
            def setup(eng, c=c, again=again):
                for s, src in configure(eng, **c):
                    for s in steps(eng, s, src, ('open', 'close', 'open') if again else ('open',)):
                        eng.oblige(s, 'http: no bytes are counted before any was read', zbool(sym_eq(total(eng, s, src), 0)))
                        n = fresh_int('bytes_before')
                        s.assume(n >= 0)
                        s.setf(src, counter(eng, s, src), SInt(n))
                        s.trace = ()
                        yield s, [src, n], {}
            yield f'read{" after opening again" if again else ""}, {label(c)}', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'read')

    def post(eng, pre, s, args, out, rep):
        src, n = args
        w, g = eng.w, s.ghost
        ob = lambda nm, x: eng.oblige(s, f'http: {nm}', x)
        ob('a read reads the response once', g['reads'] == pre.ghost['reads'] + 1)
        got = g['received'] if g['read_exc'] is None else None
        add = _len(got.t) if got is not None else z3.IntVal(0)
        t = total(eng, s, src)
        ob('the number of bytes read is the total received', zbool(sym_eq(t, SInt(n + add))))
        if is_raise(out):
            ob('a read raises only what reading or decoding raised', out.exc.tag in (g['read_exc'], g['decode_exc']))
            if g['decode_exc'] is not None and out.exc.tag == g['decode_exc']:
                ob('data are decoded only if an encoding was given', decodes(w))
            return
        ob('an error while reading or decoding is not swallowed', g['read_exc'] is None and g['decode_exc'] is None)
        if got is None:
            return
        if not eng.oblige(s, 'http: a read gives a time stamp with the data', isinstance(out, tuple) and len(out) == 2):
            return
        times = [x[1] for x in s.trace if x[0] == 'time']
        ob('the time stamp is the time of the read', z3.Or(*[out[0].t == x for x in times]) if times and isinstance(out[0], SReal)
           else False)
        d = out[1]
        raw = zbool(same(d, got))
        if w.encoding is None:
            ob('the data are exactly the bytes received', raw)
        else:
            dec = zbool(same(d, STxt(_decode(got.t, w.encoding.t))))
            ob('the data are the bytes received, decoded if an encoding was given', z3.If(decodes(w), dec, raw))

    def decodes(w):
        return z3.BoolVal(False) if w.encoding is None else _len(w.encoding.t) != 0
    c = Contract('HTTPResponseReader.read', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def c_close():
    def scenarios():
        for kind in ('new', 'open', 'open again', 'closed', 'failed'):
            def setup(eng, kind=kind):
                for s, src in configure(eng):
                    if kind == 'failed':
                        outs = [x for x, r in call(eng, s, src, 'open') if is_raise(r)]
                    else:
                        outs = list(steps(eng, s, src, {'new': [], 'open': ['open', 'read'], 'closed': ['open', 'read', 'close'],
                                                        'open again': ['open', 'close', 'open']}[kind]))
                    for s in outs:
                        s.ghost['closes'] = 0
                        yield s, [src, kind], {}
            yield f'close, {kind}', setup

    def run(eng, st, args, kw):
        yield from call(eng, st, args[0], 'close')

    def post(eng, pre, s, args, out, rep):
        src, kind = args
        ob = lambda st, nm, g: eng.oblige(st, f'http: {nm}', g)
        if kind.startswith('open'):
            ob(s, 'closing closes the response', s.ghost['closes'] == 1)
            ob(s, 'closing closes the response of the last opening', s.f(s.ghost['response'], 'closed') is True)
            if is_raise(out):
                ob(s, 'closing raises only what closing the response raised', out.exc.tag == s.ghost['close_exc'])
                return
        else:
            ob(s, 'closing is harmless when not open', not is_raise(out) and s.ghost['closes'] == 0)
        ob(s, 'closing sends nothing', s.ghost['opens'] == pre.ghost['opens'])
        ob(s, 'closing changes no byte count', zbool(sym_eq(total(eng, pre, src), total(eng, s, src))))
        n = s.ghost['closes']
        for s2, r in call(eng, s.copy(), src, 'close'):
            ob(s2, 'closing is harmless when not open', not is_raise(r) and s2.ghost['closes'] == n)
    c = Contract('HTTPResponseReader.close', None, None, scenarios, run=run, post=post)
    c.mk_engine = mk_engine
    return c


def for_c20():
    return [c_open(), c_read(), c_close()]
