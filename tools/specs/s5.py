import runpy
_p=runpy.run_path('/verif/tools/specs/s2.py'); S=_p['S']; R=_p['R']
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'; SS='stream2py/stream_source.py'
SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
BUF='''
import threading
from stream2py.stream_buffer import _SourceBuffer
ev = threading.Event()
def buf(*items, maxlen=100, **kw):
    b = _SourceBuffer({}, ev, maxlen=maxlen, **kw)
    for x in items: b.append(x)
    return b
'''
SRC='''
import threading, time
from stream2py import SourceReader, StreamBuffer
class Src(SourceReader):
    def __init__(self, vals): self.vals = list(vals); self.i = 0; self.log = []
    def open(self): self.log.append('open')
    def read(self):
        self.log.append('read')
        if self.i < len(self.vals):
            self.i += 1; return self.vals[self.i-1]
        time.sleep(.01); return None
    def close(self): self.log.append('close')
    def key(self, x): return x
'''
seed('C01-copy-shares-lists','C01',[(SC,'''        return self.__class__(self, self._key)
''','''        # already sorted: no need to sort again
        other = self.__class__((), self._key)
        other._keys, other._items = self._keys, self._items
        return other
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
c = SortedCollection([1, 3]); d = c.copy(); d.insert(2)
assert list(c) == [1, 3]
''','inserting into a copy','the original changes too')
seed('C01-insert-at-end-evicts','C01',[(SC,'''        k = self._key(item)
        i = bisect_right(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''','''        k = self._key(item)
        i = bisect_right(self._keys, k)
        if i == len(self._keys):
            self._keys.append(k)
            self._items.append(item)
        else:
            self._keys.insert(i, k)
            self._items.insert(i, item)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2], maxlen=2)
try: d.insert_right(3)
except IndexError: pass
assert list(d) == [1, 2]
''','insert_right at the end of a full deque','the oldest item is lost instead of an error')
seed('C02-find-lt-unique','C02',[(SC,'''        i = bisect_left(self._keys, k)
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key below: %r' % (k,))
''','''        i = bisect_right(self._keys, k)
        if i and self._keys[i - 1] == k:
            i -= 1
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key below: %r' % (k,))
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
c = SortedCollection([1, 2, 2, 3]); assert c.find_lt(2) == 1
''','several items with the searched key','find_lt returns an item with the key itself')
seed('C02-last-at-key','C02',[(SD,'''            if self._keys[-1] > k:
                return self._items[-1]
''','''            if not self._keys[-1] < k:
                return self._items[-1]
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
try: SortedDeque([1, 2]).find_last_gt(2)
except ValueError: pass
else: assert False
''','the last key itself searched','an item whose key is not above the key is returned')
seed('C03-empty-window','C03',[(SD,'''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''','''        i = bisect_left(self._keys, start) if start > self._keys[0] else 0
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
assert SortedDeque([]).range(1, 2) == []
''','a range of an empty window','IndexError')
seed('C04-room-before-check','C04',[(SD,'''        k = self._key(item)
        try:
            if not k > self._keys[-1]:''','''        k, = (self._key(item),)
        if self._maxlen and len(self._keys) >= self._maxlen:
            self.drop(1)  # make room
        try:
            if not k > self._keys[-1]:''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2], maxlen=2)
try: d.append(2)
except ValueError: pass
assert list(d) == [1, 2]
''','a refused item and a full window','the oldest item is lost')
seed('C04-larger-limit-in-place','C04',[(SD,'''        if maxlen is not self._maxlen:
            self.__init__(self._items, key=self._key, maxlen=maxlen)
''','''        if maxlen is None or len(self) <= maxlen:
            self._maxlen = maxlen  # everything fits
        elif maxlen is not self._maxlen:
            self.__init__(self._items, key=self._key, maxlen=maxlen)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2], maxlen=4)
d.maxlen = 2
d.append(3)
assert list(d) == [2, 3], list(d)
''','appending after the limit was set to at least the current length','the window follows the earlier limit')
seed('C06-unlocked-before-readers','C06',[(SB,'import logging\n','import contextlib\nimport logging\n'),(SB,'''        self.buffer_reader_class = buffer_reader_class

''','''        self.buffer_reader_class = buffer_reader_class
        self._shared = False

'''),(SB,'''        with self._buffer.writer_lock() as writer:
            writer.append(item)
''','''        with (
            self._buffer.writer_lock()
            if self._shared  # else nobody reads yet
            else contextlib.nullcontext(self._buffer._sorted_deque)
        ) as writer:
            writer.append(item)
'''),(SB,'''        return self.buffer_reader_class(
            buffer=''','''        self._shared = True
        return self.buffer_reader_class(
            buffer=''')],BUF+'''
a, b = buf(1), buf(5)
r = a.mk_reader(); b.attach_reader(r)
b._buffer.reader_acquire()
t = threading.Thread(target=b.append, args=(6,), daemon=True); t.start(); t.join(.5)
assert t.is_alive()
''','a reader attached to a buffer that made none itself','items are appended while a reader reads')
seed('C06-cursor-key-locked','C06',[(BR,'''        self._last_key = self._buffer.key(item)
''','''        with self._buffer.reader_lock() as reader:
            self._last_key = reader.key(item)
''')],BUF+'''
import time
b = buf(1, 2)
class It:
    pass
r = b.mk_reader()
held = b._buffer
orig = held._sorted_deque.find_gt
def find_gt(k):
    t = threading.Thread(target=b.append, args=(9,), daemon=True); t.start(); time.sleep(.3)
    return orig(k)
r.last_item = 1
held._sorted_deque.find_gt = find_gt
t = threading.Thread(target=r.read, daemon=True); t.start(); t.join(5)
assert not t.is_alive()
''','a writer waiting while a reader reads','dead-lock')
seed('C08-false-does-not-override','C08',[(BR,'''        n, peek, ignore_no_item_found, strict_n = defaulted_values(
            dict(
                n=n,
                peek=peek,
                ignore_no_item_found=ignore_no_item_found,
                strict_n=strict_n,
            ),
            defaults=self._read_kwargs,
        )
''','''        n = n or self._read_kwargs['n']
        peek = peek or self._read_kwargs['peek']
        ignore_no_item_found = (
            ignore_no_item_found or self._read_kwargs['ignore_no_item_found']
        )
        strict_n = strict_n or self._read_kwargs['strict_n']
''')],BUF+'''
b = buf(1, 2); r = b.mk_reader(peek=True)
r.read(peek=False)
assert r.last_item == 1
''','an option given as False where the reader was made with True','the given option is ignored')
seed('C09-cursor-range-end','C09',[(BR,'''            items = reader.range(_start, stop, step)

        if not peek:
            try:
                self.last_item = items[-1]
''','''            items = reader.range(_start, stop, step)
            newest = reader.find_le(stop) if items else None

        if not peek:
            try:
                items[-1]
                self.last_item = newest
''')],BUF+'''
b = buf(1, 2, 3, 4); r = b.mk_reader()
assert r.range(1, 4, 2) == [1, 3]; assert r.last_item == 3, r.last_item
''','a step that leaves out the last item in range','the cursor is beyond the last delivered item')
seed('C11-loop-ends-early','C11',[(BR,'''            if _next is not None:
                yield _next
            else:
                time''','''            if _next is not None:
                yield _next
            elif self.is_stopped:
                return
            elif True:
                time''')],BUF+'''
b = buf(1); r = b.mk_reader(); it = iter(r)
assert next(it) == 1
orig = type(r).__next__
done = []
def nxt(self):
    x = orig(self)
    if x is None and not done:
        done.append(1); b.append(2); ev.set()
    return x
type(r).__next__ = nxt
assert list(it) == [2]
''','the last item buffered and the stream stopped right after an empty read of the loop','the loop ends with an item undelivered')
seed('C11-blocking-falsy','C11',[(BR,'''                if _read is not None:
                    return _read
''','''                if _read:
                    return _read
''')],BUF+'''
b = buf(0, 1); ev.set(); r = b.mk_reader()
assert r.read(blocking=True) == 0
''','an item that counts as false','a blocking read skips it')
seed('C12-falsy-values','C12',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
''','''                if not data:
                    time.sleep(self._sleep_time_on_read_none_s)
                    continue
                self.source_buffer.append(data)
''')],SRC+'''
s = Src([-1, 0, 1])
with StreamBuffer(s, sleep_time_on_read_none_s=.01) as b:
    time.sleep(.3); r = b.mk_reader()
    assert r.range(-5, 5) == [-1, 0, 1]
''','a value that counts as false','it is not buffered')
seed('C13-drain-burst','C13',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
''','''                while data is not None:
                    self.source_buffer.append(data)
                    # take everything that is there before pausing
                    data = (
                        self.source_reader.read() if self.auto_drop is True else None
                    )
                if self.auto_drop is True or self._maxlen is None:
                    time.sleep(self._sleep_time_on_read_none_s)
''')],SRC+'''
class Fast(Src):
    def read(self):
        self.i += 1; time.sleep(.001); return self.i
s = Fast([])
b = StreamBuffer(s, sleep_time_on_read_none_s=.01); b.start(); time.sleep(.1); b.stop()
n = s.i; time.sleep(.3)
assert s.i == n, (s.i, n)
''','a source that always has data','the source is read on after the stop')
seed('C14-drop-zero','C14',[(SB,'''        self.source_buffer.drop(n)
''','''        self.source_buffer.drop(max(n, 1))
''')],SRC+'''
s = Src([1, 2])
with StreamBuffer(s, auto_drop=False, sleep_time_on_read_none_s=.01) as b:
    time.sleep(.3); b.drop(0); assert b.mk_reader().head() == 1
''','drop(0)','an item is dropped')
seed('C15-key-at-construction','C15',[(SB,'''        self._stop_event = None
        self.source_buffer = None
        # start''','''        self._stop_event = None
        self.source_buffer = None
        self._key = source_reader.key
        # start'''),(SB,'''            key=self.source_reader.key,
''','''            key=self._key,
''')],SRC+'''
class K(Src):
    key = None
    def open(self): self.key = lambda x: -x
s = K([3, 2, 1])
with StreamBuffer(s, sleep_time_on_read_none_s=.01) as b:
    time.sleep(.3)
    assert list(b.source_buffer._buffer._sorted_deque) == [3, 2, 1]
''','a source whose key is determined when it is opened','the stream orders by the key of before')
seed('C16-count-before-open','C16',[(SS,'''        self._ensure_buffer()
        try:''','''        self._ensure_buffer()
        self._handle_reader_open()
        try:'''),(SS,'''        self._handle_reader_open()
        new_reader.onclose''','''        new_reader.onclose''')],'''
import time
from stream2py import BufferReader
from stream2py.examples.stream_source import SimpleCounterString
class Bad(BufferReader):
    fail = True
    def open(self):
        if Bad.fail: raise OSError
        return self
s = SimpleCounterString(start=0, stop=10); s._reader_cls = Bad
try: s.open_reader()
except OSError: pass
Bad.fail = False
r = s.open_reader(); r.close()
assert not s._stream_buffer.is_running
''','a reader that fails to open','the stream is not stopped when all readers are closed')
seed('C16-exit-only-if-fine','C16',[(BR,'''    def __exit__(self, exc_type, exc_val, exc_tb):
        return self.exit()
''','''    def __exit__(self, exc_type, exc_val, exc_tb):
        if exc_type is None:
            return self.exit()
''')],'''
from stream2py.examples.stream_source import SimpleCounterString
s = SimpleCounterString(start=0, stop=10)
try:
    with s.open_reader() as r: raise KeyError
except KeyError: pass
assert s._stream_buffer is None or not s._stream_buffer.is_running
''','leaving the context by an exception','the reader is not closed')
seed('C17-none-limit','C17',[(SI,'''        maxlen=maxlen,
''','''        maxlen=maxlen or 100,
''')],'''
from stream2py.simply import mk_stream_buffer
import time
c = iter(range(300))
with mk_stream_buffer(lambda o: next(c, None), maxlen=None, sleep_time_on_read_none_seconds=.01) as b:
    time.sleep(.5); assert b.mk_reader().head() == (0, 0)
''','no limit','the stream keeps 100 items only')
seed('C17-falsy-instance','C17',[(SI,'''                self.open_instance = open_stream()
''','''                self.open_instance = open_stream() or self.open_instance
''')],'''
from stream2py.simply import mk_stream_buffer
import time
got = []
vals = [5, 0]
class S: pass
with mk_stream_buffer(lambda o: got.append(o), open_stream=lambda: vals.pop(0), sleep_time_on_read_none_seconds=.01) as b:
    time.sleep(.1); b.stop(); b.start(); time.sleep(.1)
assert got[-1] == 0, got[-1]
''','a second opening that gives a falsy instance','the instance of the first opening is read')
seed('C17-key-of-value','C17',[(SI,'''            if key is not None:
                return key(data)
            return data
''','''            if key is not None:
                return key(data[1] if enumerate_data and auto_drop else data)
            return data
''')],'''
from stream2py.simply import mk_stream_buffer
import time
c = iter([(5, 'a'), (3, 'b')])
with mk_stream_buffer(lambda o: next(c, None), key=lambda d: d[0], sleep_time_on_read_none_seconds=.01) as b:
    time.sleep(.3); assert b.mk_reader().tail() == (1, (3, 'b'))
''','a key of the index','the key function gets the bare value')
seed('C18-empty-not-valid','C18',[(SR,'''        return data is not None

''','''        return data is not None and data != ''

''')],'''
from stream2py.source_reader import QuickSourceReader
class Q(QuickSourceReader):
    v = iter(['a', '', 'b'])
    def read(self): return next(self.v)
    def when_no_data(self, _next=None): pass
it = iter(Q()); assert [next(it), next(it)] == ['a', '']
''','an empty text','it is not delivered')
seed('C18-enter-marks-first','C18',[(SR,'''        self.open()
        self._closed = False
        return self
''','''        self._closed = False
        self.open()
        return self
''')],SRC+'''
class B(Src):
    def open(self): raise OSError
s = B([])
try:
    with s: pass
except OSError: pass
assert s.closed
''','a source that fails to open','it reports itself open')
seed('C19-exit-bool','C19',[(UT,'''        return self.exit_func(self.func, exc_type, exc_val, exc_tb)
''','''        return bool(self.exit_func(self.func, exc_type, exc_val, exc_tb))
''')],'''
from stream2py.util import ContextualizeCall
assert ContextualizeCall(len, exit_func=lambda *a: None).__exit__(None, None, None) is None
''','the return value of the exit used','it is not what the exit function returned')
seed('C19-better-message','C19',[(UT,'''        return self.func(*args, **kwargs)
''','''        try:
            return self.func(*args, **kwargs)
        except TypeError as e:
            if not args and not kwargs:
                raise TypeError(f'{self.func} needs arguments: {e}') from e
            raise
''')],'''
from stream2py.util import ContextualizeCall
err = TypeError('x')
def f(): raise err
try: ContextualizeCall(f)()
except TypeError as e: assert e is err
''','a callable without arguments raising TypeError','another exception comes out')
seed('C20-empty-is-none','C20',[(HT,'''        timestamp = time.time()
''','''        timestamp = time.time() if result else None
''')],'''
from stream2py.sources.http import HTTPResponseReader
h = HTTPResponseReader('http://x')
class Rsp:
    def read(self, *a): return b''
h._response = Rsp()
assert h.read()[0] is not None
''','the end of the response','None instead of the time')
seed('C20-body-in-response-encoding','C20',[(HT,'''            body = body.encode()
''','''            body = body.encode(encoding or 'utf-8')
''')],'''
from stream2py.sources.http import HTTPResponseReader
h = HTTPResponseReader('http://x', method='POST', body='\\xe9', encoding='latin-1')
assert h._request.data == '\\xe9'.encode()
''','a text body together with another encoding','the body is not sent as UTF-8')
seed('C20-time-before-read','C20',[(HT,'''        self._n_bytes_read += len(result)
        if encoding:
            result = result.decode(encoding)
''','''        if encoding:
            result = result.decode(encoding)
        self._n_bytes_read += len(result.encode(encoding) if encoding else result)
''')],'''
from stream2py.sources.http import HTTPResponseReader
h = HTTPResponseReader('http://x', encoding='utf-16')
class Rsp:
    def read(self, *a): return 'ab'.encode('utf-16-le')
h._response = Rsp()
h.read()
assert h.info['n_bytes_read'] == 4, h.info
''','an encoding with several forms of the same text','the number of bytes is not that received')
seed('C21-writer-after-writers','C21',[(RW,'''        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire()
''','''        self.__no_writers.acquire()
        self.__write_switch.acquire(self.__no_readers)
''')],'''
import threading, time
from stream2py.utility.reader_writer_lock import RWLock
l = RWLock(); l.reader_acquire()
w = threading.Thread(target=lambda: (l.writer_acquire(), l.writer_release()), daemon=True); w.start(); time.sleep(.2)
r = threading.Thread(target=l.reader_acquire, daemon=True); r.start(); r.join(.5)
assert r.is_alive()
''','a writer waiting for a reader when another reader comes','the reader is admitted before the waiting writer')
