"""The HTTP source against a recording opener and a loopback server (C20)."""
import http.server
import itertools
import random
import threading
import time
import urllib.request

from . import Report


class Broken(Exception):
    pass


class Bad(Exception):
    pass


class Response:
    status = code = 200
    headers = {}

    def __init__(self, chunks):
        self.chunks, self.reads, self.closes = list(chunks), [], 0

    def read(self, *args, **kw):
        if self.closes:
            raise Bad('read from a closed response')
        self.reads.append((args, kw))
        x = self.chunks.pop(0) if self.chunks else b''
        self.ended = x == b''
        if isinstance(x, Exception):
            raise x
        return x

    def close(self):
        self.closes += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closes += 1

    def __bool__(self):
        return True

    @property
    def closed(self):
        return self.closes > 0

    ended = False
    isclosed = lambda self: self.closed or self.ended        # http.client lets go of the connection at the end of the data


class Opener:
    """takes the place of OpenerDirector.open: records what is sent, gives the responses prepared"""

    def __init__(self):
        self.sent, self.given, self.script, self.fail = [], [], [], None

    def open(self, director, fullurl, data=None, timeout=None):
        r = fullurl if isinstance(fullurl, urllib.request.Request) else urllib.request.Request(fullurl, data=data)
        if data is not None:
            r.data = data
        d = r.data
        self.sent.append((r.full_url, r.get_method(), {k.lower(): v for k, v in r.header_items()}, d))
        if self.fail is not None:
            raise self.fail
        x = Response(self.script)
        self.given.append(x)
        return x

    def __enter__(self):
        me = self
        self.saved = urllib.request.OpenerDirector.open
        urllib.request.OpenerDirector.open = lambda director, *a, **k: me.open(director, *a, **k)
        return self

    def __exit__(self, *a):
        urllib.request.OpenerDirector.open = self.saved


def kwargs(case):
    return {k: v for k, v in case.items() if k in ('method', 'headers', 'body', 'response_read_args', 'encoding', 'response_format')}


def expected(case, url):
    m = case.get('method', 'GET')
    b = case.get('body', '')
    if m.upper() == 'GET':
        b = None
    elif isinstance(b, str):
        b = b.encode('utf-8')
    return url, m, {k.lower(): v for k, v in (case.get('headers') or {}).items()}, b


def read_args(case):
    a = case.get('response_read_args', ())
    return () if a is None else a if isinstance(a, tuple) else (a,)


def short(x):
    return repr(x) if not hasattr(x, '__len__') or len(x) < 1000 else f'{type(x).__name__} of length {len(x)}'


def check_read(case, src, resp, chunk, total):
    n = len(resp.reads)
    t0 = time.time()
    enc = case.get('encoding')
    try:
        x = src.read()
    except Exception as e:
        if isinstance(chunk, Exception):
            if e is not chunk:
                raise Bad(f'reading raised {e!r}, not what the response raised')
            return total
        try:
            if enc:
                chunk.decode(enc)
        except UnicodeDecodeError:
            if isinstance(e, UnicodeDecodeError):
                return total + len(chunk)
        raise
    t1 = time.time()
    if isinstance(chunk, Exception):
        raise Bad('an error of the response is swallowed')
    if len(resp.reads) != n + 1:
        raise Bad(f'{len(resp.reads) - n} reads of the response for one read')
    if resp.reads[-1] != (read_args(case), {}):
        raise Bad(f'the response is read with {resp.reads[-1]}, configured is {read_args(case)}')
    if type(x) is not tuple or len(x) != 2:
        raise Bad(f'a read gives {x!r}')
    if not isinstance(x[0], float) or not t0 - 1e-3 <= x[0] <= t1 + 1e-3:
        raise Bad(f'the time stamp is {x[0]!r}, the time {t0}')
    want = chunk.decode(enc) if enc else chunk
    if type(x[1]) is not type(want) or x[1] != want:
        raise Bad(f'a read gives {short(x[1])}, received is {short(chunk)}')
    return total + len(chunk)


def run(case):
    """ops on a source made with the arguments of the case"""
    from stream2py.sources.http import HTTPResponseReader
    url = case.get('url', 'http://localhost:1/x?y=1')
    done = []
    with Opener() as op:
        try:
            kw = kwargs(case)
            if isinstance(kw.get('headers'), dict):
                kw['headers'] = dict(kw['headers'])
            src = HTTPResponseReader(url, **kw)
            if op.sent:
                raise Bad('constructing sends a request')
            total, cur, want_sent = 0, None, 0
            for o in case['ops']:
                done.append(o)
                if o == 'big':
                    o = bytes(2 ** 31 + 5)      # (never touched: costs no memory)
                if o == 'open' and cur is None:
                    op.script = []
                    src.open()
                    want_sent += 1
                    cur = op.given[-1] if op.given else None
                    if len(op.given) != sum(1 for _ in op.given) or cur is None:
                        raise Bad('no response')
                elif o == 'failopen' and cur is None:
                    op.fail = Broken('open')
                    try:
                        src.open()
                        raise Bad('a failing request is ignored')
                    except Broken as e:
                        if e is not op.fail:
                            raise Bad(f'raised {e!r}')
                    op.fail = None
                    want_sent += 1
                elif isinstance(o, (bytes, Exception)) and cur is not None:
                    cur.chunks.append(o)
                    total = check_read(case, src, cur, o, total)
                elif o == 'close':
                    src.close()
                    if cur is not None and cur.closes != 1:
                        raise Bad(f'closing closes the response {cur.closes} times')
                    cur = None
                if len(op.sent) != want_sent:
                    raise Bad(f'{len(op.sent)} requests for {want_sent} openings')
                for s in op.sent:
                    if s != expected(case, url):
                        raise Bad(f'the request is {s}, should be {expected(case, url)}')
                    if s[3] is not None and type(s[3]) is not bytes:
                        raise Bad(f'the body is {s[3]!r}')
                for r in op.given:
                    if r.closes > 1 or (r is not cur and r.closes != 1):
                        raise Bad(f'a response was closed {r.closes} times')
                if src.info.get('n_bytes_read') != total:
                    raise Bad(f'reported are {src.info.get("n_bytes_read")!r} bytes, received were {total}')
        except Bad as e:
            return f'{case}, after {done}: {e}'
        except Exception as e:
            return f'{case}, after {done}: unexpected {type(e).__name__}: {e}'
    return None


class Server:
    def __init__(self):
        me = self

        class H(http.server.BaseHTTPRequestHandler):
            def handle_one_request(self):
                super().handle_one_request()

            def __getattr__(self, nm):
                if nm.startswith('do_'):
                    return self.answer
                raise AttributeError(nm)

            def answer(self):
                n = int(self.headers.get('Content-Length') or 0)
                me.seen.append((self.command, self.path, dict(self.headers.items()), self.rfile.read(n)))
                self.send_response(200)
                self.send_header('Content-Length', str(len(me.payload)))
                self.end_headers()
                if self.command != 'HEAD':
                    self.wfile.write(me.payload)

            def log_message(self, *a):
                pass
        self.seen, self.payload = [], b''
        self.s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.s.daemon_threads = True
        threading.Thread(target=self.s.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True).start()

    def close(self):
        self.s.shutdown()
        self.s.server_close()


def run_server(case, server=None):
    from stream2py.sources.http import HTTPResponseReader
    own = server is None
    server = server or Server()
    try:
        server.seen.clear()
        server.payload = case['payload']
        port = server.s.server_address[1]
        src = HTTPResponseReader(f'http://127.0.0.1:{port}/p?q=1', **kwargs(case))
        got = []
        for i in (1, 2):
            src.open()
            data = []
            while True:
                t, x = src.read()
                if not x:
                    break
                data.append(x)
            src.close()
            got.append((b'' if not case.get('encoding') else '').join(data))
        src.close()
        want = case['payload'].decode(case['encoding']) if case.get('encoding') else case['payload']
        if got != [want] * 2:
            return f'{case}: delivered {got}, sent was {case["payload"]}'
        if src.info['n_bytes_read'] != 2 * len(case['payload']):
            return f'{case}: reported are {src.info["n_bytes_read"]} bytes'
        e = expected(case, None)
        for m, p, h, b in server.seen:
            if (m, p, b) != (e[1], '/p?q=1', e[3] or b''):
                return f'{case}: the server received {(m, p, b)}'
            for k, v in e[2].items():
                if v != {a.lower(): c for a, c in h.items()}.get(k):
                    return f'{case}: the server received the headers {h}'
        if len(server.seen) != 2:
            return f'{case}: {len(server.seen)} requests'
    except Exception as e:
        return f'{case}: unexpected {type(e).__name__}: {e}'
    finally:
        if own:
            server.close()
    return None


def replay(case):
    return run_server(case) if 'payload' in case else run(case)


METHODS = ('GET', 'get', 'Get', 'POST', 'put', 'DELETE', 'HEAD', 'GETX')
BODIES = ('', 'x', 'é€', '{"a": 1}', b'', b'\xff\x00', 'é'.encode('latin-1'))
HEADERS = (None, {}, {'X-a': '1'}, {'Accept': 'x', 'content-type': 'text/plain', 'User-agent': 'me'})
ARGS = (None, (), 10, (10,), 0, (0,), -1)


def c20(tier, seed, budget):
    rep = Report('requests of every method, header and body kind, read arguments and encodings, sequences of opening, reading and closing; against a '
                 'recording opener and a loopback server; non-trivial: distinct case', ('harness.http', 'replay'), '<= 12 operations')
    rnd = random.Random(seed)
    lim = {'quick': 12, 'search': 40}.get(tier, 300)
    t0 = time.time()

    def cases():
        ops = ['close', 'open', b'ab', b'', 'close', 'close', 'open', b'c', 'close']
        for m, b, h in itertools.product(METHODS, BODIES, HEADERS):
            yield dict(method=m, body=b, headers=h, ops=ops)
        for m in METHODS:
            yield dict(method=m, ops=ops)
        for b in BODIES:
            yield dict(body=b, ops=ops)
        text = ['open', 'é€x'.encode(), b'', b'abc', 'close', 'open', 'é'.encode(), 'close']
        for e, a in itertools.product((None, '', 'utf-8', 'latin-1', 'ascii'), ARGS):
            yield dict(encoding=e, response_read_args=a, ops=text)
            yield dict(encoding=e, response_read_args=a, ops=ops, response_format='str')
        yield dict(ops=['open', 'big', b'ab', 'close', 'open', 'big', 'big', 'close'])
        yield dict(ops=['failopen', 'close', 'open', b'x', 'close', 'failopen', 'close', 'close'])
        yield dict(ops=['open', b'x', Broken('read'), b'yz', 'close', 'close', 'open', Broken('read'), b'q', 'close'])
        while True:
            c = dict(ops=[rnd.choice(['open', 'open', 'close', 'failopen', b'abc', 'é'.encode(), b'\xff', b'', b'0' * 70000, Broken('r')]) for _ in range(12)])
            for k, vs in dict(method=METHODS, body=BODIES, headers=HEADERS, response_read_args=ARGS, encoding=(None, '', 'utf-8', 'latin-1', 'utf-16')).items():
                if rnd.random() < 0.5:
                    c[k] = rnd.choice(vs)
            yield c

    server_cases = []
    for p in (b'', b'abc', 'é€'.encode(), b'\xe9' * 300):
        for m, b, h in (('GET', 'x', None), ('POST', 'é', {'X-a': 'b'}), ('PUT', b'\xff', {'Content-Type': 'a/b'}), ('get', '', None), ('DELETE', '', None)):
            for e, a in ((None, 7), ('latin-1', (2,)), ('', ())):
                server_cases.append(dict(payload=p, method=m, body=b, headers=h, encoding=e, response_read_args=a))
    try:
        server = Server()
    except OSError:
        server, server_cases = None, server_cases[:1]
    import os
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    try:
        if server is not None:
            for c in server_cases:
                rep.case(repr(c))
                v = run_server(c, server)
                if v:
                    rep.violation(v, None)
                    if len(rep.violations) >= 2:
                        return rep.result()
        for c in cases():
            if time.time() - t0 > lim:
                break
            rep.case(repr(c))
            v = run(c)
            if v:
                rep.violation(v, {k: v for k, v in c.items()} if not any(isinstance(o, (bytes, Exception)) for o in c['ops']) else None)
                if len(rep.violations) >= 2:
                    break
    finally:
        if server is not None:
            server.close()
    return rep.result()
