import runpy
_p=runpy.run_path('/verif/tools/specs/s2.py'); S=_p['S']; R=_p['R']
BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'; SS='stream2py/stream_source.py'
SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

seed('C15-restart-wins-race','C15',[(SB,
'''        with self.start_lock:
            if self._stop_event and not self._stop_event.is_set():
                self.stop()
            self._set_read''',
'''        with self.start_lock:
            if self._stop_event and not self._stop_event.is_set():
                if self._read_to_buffer_thread.is_alive() and len(self.source_buffer) == 0:
                    return  # only just started: nothing to restart
                self.stop()
            self._set_read''')] if False else [(SB,
'''        self.source_reader.open()
        self.source_buffer = _SourceBuffer(
''',
'''        if self.source_reader.closed if hasattr(self.source_reader, 'closed') else True:
            self.source_reader.open()
        self.source_buffer = _SourceBuffer(
''')],
S+'''
class Keeping(Src):
    # closed follows open/close, except that a failing close leaves it open
    def open(self): super().open(); self._closed = False
    def close(self):
        super().close()
        raise OSError('busy')
s = Keeping([1])
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start(); wait(lambda: len(b.source_buffer) == 1); b.stop(); b.join(5)
b.start(); b.stop(); b.join(5)
assert s.log.count('open') == 2, s.log
''','a restart after the source failed to close (or a source that reports to be open already)',
'the restarted session reads a source that was not opened for it')

seed('C15-same-event','C15',[(SB,
'''        self._stop_event = threading.Event()

    def _open(self):
''',
'''        if self._stop_event is None or self._stop_event.is_set():
            self._stop_event = self._stop_event or threading.Event()
            self._stop_event.clear()

    def _open(self):
''')],
S+'''
b = StreamBuffer(Src([1]), sleep_time_on_read_none_s=0.01)
b.start(); r = b.mk_reader(); wait(lambda: len(b.source_buffer) == 1); b.stop()
assert r.is_stopped
b.start()
stopped = r.is_stopped; same = r.is_same_buffer(b.mk_reader())
b.stop()
assert stopped and not same, (stopped, same)
''','a reader of an earlier session looked at after a restart',
'the earlier reader sees its stream as running again')

seed('C15-thread-before-open-fails','C15',[(SB,
'''        with self.start_lock:
            return self._stop_event is not None and not self._stop_event.is_set()
''',
'''        with self.start_lock:
            return self.source_buffer is not None and not self._stop_event.is_set()
'''),(SB,
'''        self._maxlen = maxlen
        self.auto_drop = auto_drop
''','''        self._maxlen, self.auto_drop = maxlen or None, auto_drop
''')],
S+'''
b = StreamBuffer(Src([1, 2]), maxlen=0, sleep_time_on_read_none_s=0.01)
b.start(); time.sleep(0.2); n = len(b.source_buffer); b.stop()
assert n == 0, n
''','a limit of 0','a limit of 0 means no limit') if False else None

seed('C16-count-shared','C16',[(SS,
'''        self._open_readers += 1
''',
'''        type(self)._open_readers += 1
'''),(SS,
'''        self._open_readers -= 1
''',
'''        type(self)._open_readers -= 1
''')],
'''
import time
from stream2py.examples.stream_source import SimpleCounterString
a = SimpleCounterString(start=0, stop=10); b = SimpleCounterString(start=0, stop=10)
ra = a.open_reader(); ra.close()
ra = a.open_reader()
try:
    rb = b.open_reader()
    rb.close()
    running = a._stream_buffer.is_running and not b._stream_buffer.is_running
except Exception as e:
    running = e
ra.close()
assert running is True, running
''','two sources of the same class with readers open at the same time',
'the sources share one reader count: the second one is not started and closing stops the wrong one')

seed('C16-settings-leak','C16',[(SS,
'''        self._buffer_kwargs = dict(
            maxlen=maxlen,
''',
'''        self._buffer_kwargs.update(
            maxlen=maxlen,
''')],
'''
from stream2py.examples.stream_source import SimpleCounterString
a = SimpleCounterString(start=0, stop=10); b = SimpleCounterString(start=0, stop=500)
a.configure_buffer(maxlen=3)
r = b.open_reader()
import time
time.sleep(1)
n = len(b._stream_buffer.source_buffer)
r.close()
assert n == 100, n
''','configuring one source and using another one',
'the settings of one source are applied to others')

seed('C16-exit-once','C16',[(SS,
'''        if self._open_readers <= 0:
            self.exit()

    def open_reader(''',
'''        if self._open_readers <= 0 and self._stream_buffer.is_running:
            self.exit()
            self._stream_buffer = None

    def open_reader(''')],
'''
from stream2py.examples.stream_source import SimpleCounterString
a = SimpleCounterString(start=0, stop=10)
r = a.configure_buffer(maxlen=5).open_reader()
r.close()
try:
    a.configure_buffer(maxlen=7)
except ValueError:
    pass
else:
    raise AssertionError('configured although the stream exists')
''','x','x') if False else None

seed('C16-close-at-one','C16',[(SS,
'''        self._open_readers -= 1
        if self._open_readers <= 0:
            self.exit()
''',
'''        if self._open_readers <= 1:
            self.exit()
        self._open_readers -= 1
''')],
'''
# the source stops with the last reader; stopping takes a second, during which another one is closed/opened
import threading, time
from stream2py.examples.stream_source import SimpleCounterString
a = SimpleCounterString(start=0, stop=10)
r1 = a.open_reader()
t = threading.Thread(target=r1.close); t.start()
time.sleep(0.3)          # r1 is being closed
r2 = a.open_reader()     # starts the source afresh
t.join()
time.sleep(0.2)
alive = not r2.is_stopped
r2.close()
assert alive, 'the new reader got a stream that is over'
''','opening a reader while the last one is just being closed (which takes a second)',
'the new reader is counted on the stream that is being stopped')

seed('C16-strict-lost','C16',[(SS,
'''                strict_n=strict_n,
                ignore_no_item_found=ignore_no_item_found,
            )
''',
'''                **({'strict_n': True} if strict_n and read_size > 1 else {}),
                ignore_no_item_found=ignore_no_item_found,
            )
''')],
'''
from stream2py.examples.stream_source import SimpleCounterString
import time
a = SimpleCounterString(start=0, stop=3)
r = a.open_reader(strict_n=True)
time.sleep(0.5)
try:
    got = r.read(n=5)
except ValueError:
    got = None
finally:
    r.close()
assert got is None, got
''','a strict reader with read size 1 asked for more items in a call',
'the reader option is lost')

seed('C17-index-goes-on','C17',[(SI,
'''        def open(self):
            self.read_idx = 0
            if open_stream''',
'''        def open(self):
            if open_stream''')],
'''
import time
from stream2py.simply import mk_stream_buffer
n = [0]
def read(_):
    n[0] += 1
    return 'a' if n[0] < 4 else None
with mk_stream_buffer(read, key=lambda d: d[0], sleep_time_on_read_none_seconds=0.01) as b:
    time.sleep(0.3)
    assert b.mk_reader().head() == (0, 'a')
    n[0] = 0
    b.start()      # restart
    time.sleep(0.3)
    head = b.mk_reader().head()
assert head == (0, 'a'), head
''','a second opening of the stream','the index does not start from 0 in the second opening')

seed('C17-key-of-falsy','C17',[(SI,
'''        def close(self):
            if close_stream is not None:
''',
'''        def close(self):
            if close_stream is not None and self.open_instance:
''')],
'''
import time
from stream2py.simply import mk_stream_buffer
closed = []
with mk_stream_buffer(lambda inst: None, open_stream=lambda: [], close_stream=closed.append,
                      sleep_time_on_read_none_seconds=0.01) as b:
    time.sleep(0.1)
b.join(5)
assert closed == [[]], closed
''','an open instance that is falsy (an empty list, a file descriptor 0)',
'the close function is not called')

seed('C17-left-by-interrupt','C17',[(SI,
'''    try:
        stream_buffer.start()
        yield stream_buffer
    finally:
        stream_buffer.stop()
''',
'''    stream_buffer.start()
    try:
        yield stream_buffer
    except Exception:
        stream_buffer.stop()
        raise
    else:
        stream_buffer.stop()
''')],
'''
import time
from stream2py.simply import mk_stream_buffer
closed = []
try:
    with mk_stream_buffer(lambda inst: None, close_stream=closed.append,
                          sleep_time_on_read_none_seconds=0.01) as b:
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
running = b.is_running
b.stop()
assert not running
''','leaving the context by KeyboardInterrupt (or SystemExit, or closing a generator)',
'the stream keeps running')

seed('C17-info-when-empty','C17',[(SI,
'''            if info is not None:
                return info(self.open_instance)
''',
'''            if info is not None:
                return {'open_time': self.open_time, **info(self.open_instance)}
''')],
'''
from stream2py.simply import mk_stream_buffer
with mk_stream_buffer(lambda inst: None, info=lambda inst: {'rate': 7}) as b:
    i = b.source_reader_info
assert i == {'rate': 7}, i
''','an info function','the info is not what the function returns')

seed('C18-swallow-stopiteration','C18',[(SR,
'''    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        self.close()
        self._closed = True
''',
'''    def __exit__(self, exc_type, exc_val, exc_tb):
        self.close()
        self._closed = True
        return exc_type is not None and issubclass(exc_type, (StopIteration, GeneratorExit))
''')],
'''
from stream2py import SourceReader
class Src(SourceReader):
    def open(self): pass
    def read(self): return None
    def close(self): pass
    def key(self, d): return d
s = Src()
try:
    with s:
        raise StopIteration
except StopIteration:
    pass
else:
    raise AssertionError('swallowed')
''','the context left by StopIteration','the exception is swallowed')

seed('C18-valid-or-none','C18',[(SR,
'''            if self.is_valid_data(_next):
                yield _next
''',
'''            if _next is not None and self.is_valid_data(_next):
                yield _next
''')],
'''
from stream2py.source_reader import QuickSourceReader
class S(QuickSourceReader):
    vals = [None, 1, 'skip', None, 2]
    def read(self):
        v = self.vals[self.read_idx] if self.read_idx < len(self.vals) else 'end'
        self.read_idx += 1
        return v
    def is_valid_data(self, d): return d != 'skip'
s = S(); s.open(); got = []
for v in s:
    if v == 'end': break
    got.append(v)
assert got == [None, 1, None, 2], got
''','a source for which None is valid data','None is not delivered although it counts as valid')

seed('C18-reopen-keeps-index','C18',[(SR,
'''        self.read_idx = 0
        self.open_time = self.get_timestamp()
''',
'''        if self._closed or self.read_idx is None:
            self.read_idx = 0
        self.open_time = self.get_timestamp()
''')],
'''
from stream2py.source_reader import QuickSourceReader
class S(QuickSourceReader):
    def read(self):
        self.read_idx += 1
        return self.read_idx
s = S()
s.open(); s.read(); s.read()
s.open()
assert s.read_idx == 0, s.read_idx
''','opening a quick source that is still open','the index is not reset')

seed('C18-whole-seconds','C18',[(SR,
'        return int(time.time() * cls.timestamp_seconds_to_unit_conversion)\n',
'        return int(time.time()) * int(cls.timestamp_seconds_to_unit_conversion)\n')],
'''
import time
from stream2py.source_reader import QuickSourceReader
from stream2py import SourceReader
for _ in range(4):
    a = time.time(); t = SourceReader.get_timestamp(); b = time.time()
    assert isinstance(t, int) and int(a * 1e6) <= t <= int(b * 1e6), (a, t, b)
    time.sleep(0.21)
''','a time stamp taken in the middle of a second','the time stamp has a resolution of one second')

seed('C18-closed-late','C18',[(SR,
'''    def __enter__(self):
        self.open()
        self._closed = False
        return self
''',
'''    def __enter__(self):
        if self._closed:
            self.open()
            self._closed = False
        return self
''')],
'''
from stream2py.source_reader import QuickSourceReader
class S(QuickSourceReader):
    opened = 0
    def open(self): super().open(); self.opened += 1
    def read(self): return 1
s = S(); s.open()
with s: pass
assert s.opened == 2, s.opened
''','entering the context of a source that reports open','the source is not opened on entry')

seed('C19-unwraps','C19',[(UT,
'        return self.enter_func(self.func)\n',
"        return self.enter_func(getattr(self.func, '__wrapped__', self.func))\n")],
'''
from functools import wraps
from stream2py.util import ContextualizeCall
def f(x): return x
@wraps(f)
def g(x): return f(x) + 1
seen = []
c = ContextualizeCall(g, enter_func=lambda h: seen.append(h), exit_func=lambda h, *a: seen.append(h))
with c: assert c(1) == 2
assert seen == [g, g], seen
''','a wrapped callable that itself wraps another one','the enter function gets another callable than the wrapped one')

seed('C19-exit-result','C19',[(UT,
'        return self.exit_func(self.func, exc_type, exc_val, exc_tb)\n',
'        return bool(self.exit_func(self.func, exc_type, exc_val, exc_tb)) or None\n')],
'''
from stream2py.util import ContextualizeCall
c = ContextualizeCall(len, exit_func=lambda f, *a: 'done')
assert c.__exit__(None, None, None) == 'done'
c = ContextualizeCall(len, exit_func=lambda f, *a: False)
assert c.__exit__(None, None, None) is False
''','using the return value of the exit','what the exit function returns is not returned')

seed('C19-falsy-func','C19',[(UT,
'''        if not callable(func):
            raise TypeError(''',
'''        if isinstance(func, ContextualizeCall):
            func = func.func  # no need to go through two wrappers
        if not callable(func):
            raise TypeError(''')] if False else [(UT,
'        return self.func(*args, **kwargs)\n',
'''        func = self.func
        if isinstance(func, ContextualizeCall):
            func = func.func  # no need to go through two wrappers
        return func(*args, **kwargs)
''')],
'''
from stream2py.util import ContextualizeCall
class Counting(ContextualizeCall):
    n = 0
    def __call__(self, *args):
        self.n += 1
        return super().__call__(*args) * 10
inner = Counting(lambda x: x + 1)
outer = ContextualizeCall(inner)
assert inner(1) == 20
assert outer(1) == 20 and inner.n == 2, (inner.n)
''','a contextualized callable of a class with its own call, contextualized again','the wrapped callable is bypassed')

seed('C19-min-args','C19',[(UT,
'    return len(signature(func).parameters) >= mininum_n_args\n',
'''    params = signature(func).parameters.values()
    return (
        len(params) >= mininum_n_args
        or any(p.kind == Parameter.VAR_KEYWORD for p in params)
    )
''')],
'''
from stream2py.util import ContextualizeCall
for bad in (lambda f, **kw: None, lambda f, t, **kw: None):
    try:
        ContextualizeCall(len, exit_func=bad)
    except TypeError:
        pass
    else:
        raise AssertionError('accepted')
''','an exit function with too few positional parameters and **kwargs','an invalid exit function is accepted')

seed('C20-get-lower-case','C20',[(HT,
"        if method.upper() == 'GET':\n",
"        if method == 'GET':\n")],
'''
import urllib.request
from stream2py.sources.http import HTTPResponseReader
reqs = []
urllib.request.urlopen = lambda req, *a, **kw: reqs.append(req)
HTTPResponseReader('http://localhost/x', method='get', body='abc').open()
HTTPResponseReader('http://localhost/x', method='POST', body='abc').open()
assert reqs[0].data is None and reqs[1].data == b'abc', reqs[0].data
''','the method given in lower case with a body','a GET request is sent with a body')

seed('C20-decode-lenient','C20',[(HT,
'            result = result.decode(encoding)\n',
"            result = result.decode(encoding, errors='replace')\n")],
'''
import urllib.request, io
from stream2py.sources.http import HTTPResponseReader
urllib.request.urlopen = lambda req, *a, **kw: io.BytesIO(b'ok\\xff')
s = HTTPResponseReader('http://localhost/x', encoding='ascii', response_read_args=(2,)); s.open()
assert s.read()[1] == 'ok'
try:
    got = s.read()
except UnicodeDecodeError:
    pass
else:
    raise AssertionError('other characters than those received: %r' % (got[1],))
''','bytes that are invalid in the encoding','characters are delivered that do not stand for the bytes received')

seed('C20-close-twice','C20',[(HT,
'''            self._response.__exit__()
            self._response = None
''',
'''            self._response.close()
''')],
'''
import urllib.request
from stream2py.sources.http import HTTPResponseReader
class Resp:
    n = 0
    def read(self, *a): return b'x'
    def close(self): self.n += 1
    def __exit__(self, *a): self.close()
    def __enter__(self): return self
r = Resp()
urllib.request.urlopen = lambda req, *a, **kw: r
s = HTTPResponseReader('http://localhost/x'); s.close(); s.open()
s.close(); s.close()
assert r.n == 1, r.n
''','closing twice','the response is closed twice')

seed('C20-count-text','C20',[(HT,
'''        if encoding:
            result = result.decode(encoding)
        return timestamp, result
''',
'''        if encoding:
            received, result = len(result), result.decode(encoding)
            self._n_bytes_read += len(result) - received
        return timestamp, result
''')],
'''
import urllib.request, io
from stream2py.sources.http import HTTPResponseReader
urllib.request.urlopen = lambda req, *a, **kw: io.BytesIO('h\u00e9llo'.encode())
s = HTTPResponseReader('http://localhost/x', encoding='utf-8'); s.open()
assert s.read()[1] == 'h\u00e9llo'
assert s.info['n_bytes_read'] == 6, s.info
''','text with characters of more than one byte','the number of characters is reported as number of bytes')

seed('C20-empty-read-args','C20',[(HT,
'''        if not isinstance(response_read_args, tuple):
            response_read_args = (response_read_args,)
''',
'''        if not isinstance(response_read_args, tuple):
            response_read_args = (response_read_args,) if response_read_args else ()
''')],
'''
import urllib.request, io
from stream2py.sources.http import HTTPResponseReader
urllib.request.urlopen = lambda req, *a, **kw: io.BytesIO(b'abc')
s = HTTPResponseReader('http://localhost/x', response_read_args=0); s.open()
assert s.read()[1] == b''
s = HTTPResponseReader('http://localhost/x', response_read_args=2); s.open()
assert s.read()[1] == b'ab'
''','a read argument of 0','everything is read instead of nothing')
SEEDS=[s for s in SEEDS if s['needs']!='x']
