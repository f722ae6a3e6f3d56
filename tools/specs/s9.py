import runpy
_p=runpy.run_path('/verif/tools/specs/s8.py')
SC,SD,RW,BR,SB,SS,SR,SI,UT,HT,BUF,SRC,LD=(_p[k] for k in ('SC','SD','RW','BR','SB','SS','SR','SI','UT','HT','BUF','SRC','LD'))
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
SIMPLE=SRC+'''
from stream2py import StreamBuffer, SourceReader, BufferReader, StreamSource
class S(SourceReader):
    n = opened = closed_n = 0
    script = ()
    sleep_time_on_read_none_s = .01
    def open(self): self.opened += 1; self.it = iter(self.script)
    def close(self): self.closed_n += 1
    def key(self, x): self.n += 1; return self.n
    def read(self): return next(self.it, None)
threading.excepthook = lambda *a: None
'''
seed('C01-rekey-shrinks-limit','C01',[(SD,'''        if key is not self._key:
            self.__init__(self._items, key=key, maxlen=self._maxlen)
''','''        if key is not self._key:
            self.__init__(self._items, key=key, maxlen=self._items.maxlen and len(self._items))
'''),(SD,'''        return self._maxlen

    def _setmaxlen''','''        return self._items.maxlen

    def _setmaxlen''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2], maxlen=5)
d.key = lambda x: x * 2
d.append(3)
assert list(d) == [1, 2, 3] and d.maxlen == 5, (d, d.maxlen)
''','a new key for a limited collection that is not full','the limit is lost')
seed('C02-reversed-live','C02',[(SC,'''        j = bisect_right(self._keys, k)
        return self._items[i:j].count(item)
''','''        j = bisect_right(self._keys, k)
        n = 0
        while i < j and self._items[i] == item:
            n, i = n + 1, i + 1
        return n
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
c = SortedCollection([(1, 'b'), (1, 'a'), (1, 'b')], key=lambda x: x[0])
assert c.count((1, 'b')) == 2
''','equal items separated by another one of the same key','too few are counted')
seed('C04-index-error-of-key','C04',[(SD,'''        except IndexError as e:
            if len(self._keys) != 0:
                raise e
        self._keys.append(k)
''','''        except IndexError:  # nothing to compare with
            pass
        self._keys.append(k)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
class K:
    def __init__(self, x): self.x = x
    def __lt__(self, o): return self.x[1] < o.x[1]
    def __gt__(self, o): return self.x[1] > o.x[1]
d = SortedDeque([[2, 1]], key=K)
try: d.append([0])
except IndexError: pass
assert list(d) == [[2, 1]], list(d)
''','comparing the keys raises an IndexError','the item is added')
seed('C05-switch-wraps','C05',[(RW,'''        self.__counter += 1
        if self.__counter == 1:
''','''        self.__counter = (self.__counter + 1) & 15
        if self.__counter == 1:
'''),(RW,'''        self.__counter -= 1
        if self.__counter == 0:
''','''        self.__counter = (self.__counter - 1) & 15
        if self.__counter == 0:
''')],'''
import threading
from stream2py.utility.reader_writer_lock import RWLock
l = RWLock()
def enter():
    l.reader_acquire()
ts = [threading.Thread(target=enter, daemon=True) for _ in range(17)]
for t in ts: t.start()
for t in ts: t.join(1)
assert not any(t.is_alive() for t in ts), 'readers do not share'
for _ in range(17): l.reader_release()
w = threading.Thread(target=lambda: (l.writer_acquire(), l.writer_release()), daemon=True)
w.start(); w.join(2); assert not w.is_alive()
''','seventeen threads reading at once','readers wait for one another')
seed('C07-position-kept','C07',[(BR,'''                i = reader.index(next_item)
''','''                i = getattr(self, '_position', None)
                if i is None or not (i < len(reader) and reader[i] is next_item):
                    i = reader.index(next_item)
                self._position = i if peek else i + n
'''),(BR,'''                next_item = reader.find_gt(self.last_key)
            except ValueError as e:  # ValueError: No item found with key above:
                # self.last_key
                if ignore_no_item_found:
                    return None
                raise e
            except TypeError as e:
                # TypeError: '<' not''','''                i = getattr(self, '_position', None)
                if i is not None and n > 1 and i < len(reader) and self.last_key is not None:
                    next_item = reader[i]  # where the last chunk ended
                    if not reader.key(next_item) > self.last_key:
                        next_item = reader.find_gt(self.last_key)
                else:
                    next_item = reader.find_gt(self.last_key)
            except ValueError as e:  # ValueError: No item found with key above:
                # self.last_key
                if ignore_no_item_found:
                    return None
                raise e
            except TypeError as e:
                # TypeError: '<' not''')],'''
import threading
from stream2py import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
b = RWLockSortedDeque(range(6), key=lambda x: x, maxlen=6)
r = BufferReader(buffer=b, source_reader_info={}, stop_event=threading.Event())
assert r.read(n=2) == [0, 1]
with b.writer_lock() as w: w.append(6)
assert r.read(n=2) == [2, 3]
''','items are evicted between two chunks','items still in the buffer are skipped')
seed('C09-stop-ge-after-start','C09',[(BR,'''            if stop_ge is True:
                try:
''','''            if stop_ge is True and not stop < _start:
                try:
''')],'''
import threading
from stream2py import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
b = RWLockSortedDeque([0, 10, 20], key=lambda x: x, maxlen=6)
r = BufferReader(buffer=b, source_reader_info={}, stop_event=threading.Event())
assert r.range(7, 4, stop_ge=True) == [10]
''','a stop that is below the start and is rounded up','nothing is found')
seed('C09-tail-only-new-empty-key','C09',[(BR,'''                    if self.last_item is None:  # first time reading a value from buffer
                        item = reader[-1]
''','''                    if not self.last_key:  # first time reading a value from buffer
                        item = reader[0]
''')],'''
import threading
from stream2py import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
b = RWLockSortedDeque([0, 10, 20], key=lambda x: x, maxlen=6)
r = BufferReader(buffer=b, source_reader_info={}, stop_event=threading.Event())
assert r.tail(only_new_items=True) == 20
''','tail of new items by a reader that has seen nothing','the oldest item is delivered')
seed('C10-reader-reused','C10',[(SB,'''        return self.buffer_reader_class(
            buffer=self._buffer,
            source_reader_info=self._source_reader_info,
            stop_event=self._stop_event,
            **read_kwargs,
        )
''','''        spare, kwargs = getattr(self, '_spare', (None, None))
        if spare is None or kwargs != read_kwargs or spare.last_item is not None or not read_kwargs:
            spare = self.buffer_reader_class(
                buffer=self._buffer,
                source_reader_info=self._source_reader_info,
                stop_event=self._stop_event,
                **read_kwargs,
            )
            self._spare = spare, read_kwargs  # unused as yet
        return spare
''')],'''
import threading
from stream2py.stream_buffer import _SourceBuffer
b = _SourceBuffer({}, threading.Event(), key=lambda x: x, maxlen=5)
b.append(1)
r, q = b.mk_reader(read_size=1), b.mk_reader(read_size=1)
assert r.read() == 1 and q.last_item is None and q.read() == 1
''','two readers made with the same options before either is used','they share one cursor')
seed('C11-patience','C11',[(BR,'''        if blocking is True:
            while True:
''','''        if blocking is True:
            for _ in range(600):  # a minute
'''),],SRC+'''
from stream2py import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
b = RWLockSortedDeque([], key=lambda x: x, maxlen=6)
r = BufferReader(buffer=b, source_reader_info={}, stop_event=threading.Event())
import stream2py.buffer_reader as m
class T:
    n = 0
    @classmethod
    def sleep(cls, t):
        cls.n += 1
        if cls.n == 700:
            with b.writer_lock() as w: w.append(1)
m.time = T
assert r.read(blocking=True) == 1 and T.n == 700
''','nothing new for a long time','a blocking read ends while the stream is running')
seed('C12-not-a-number','C12',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
''','''                if data is not None and data == data:
                    self.source_buffer.append(data)
''')],SIMPLE+'''
S.script = (1.0, float('nan'), 2.0)
s = StreamBuffer(S()); s.start(); time.sleep(.2)
got = s.mk_reader().range(0, 9)
s._stop_event.set()
assert len(got) == 3, got
''','a value that is not equal to itself','it is not buffered')
seed('C13-close-again','C13',[(SB,'''            except Exception as e:
                logger.error(e)
''','''            except Exception as e:
                logger.error(e)
                try:
                    self.source_reader.close()  # once more
                except Exception:
                    pass
'''),(SB,'''            if not self._stop_event.is_set():
                self._stop_event.set()
            try:
''','''            self._stop_event.set()
            try:
''')],SIMPLE+'''
class T(S):
    def close(self): super().close(); raise OSError
s = StreamBuffer(T()); s.start(); s._stop_event.set(); s._read_to_buffer_thread.join()
assert s.source_reader.closed_n == 1
''','closing fails','the source is closed twice')
seed('C14-read-ahead','C14',[(SB,'''                    data = self.source_reader.read()
                else:
                    data = None
''','''                    data = self.__dict__.pop('_ahead', None)
                    if data is None:
                        data = self.source_reader.read()
                elif '_ahead' not in self.__dict__:
                    self._ahead, data = self.source_reader.read(), None
                else:
                    data = None
''')],SIMPLE+'''
class T(S):
    k = 0
    def read(self): self.k += 1; return self.k
s = StreamBuffer(T(), maxlen=2, auto_drop=False); s.start(); time.sleep(.2)
s._stop_event.set()
assert s.source_reader.k == 2, s.source_reader.k
''','the buffer is full','the source is read although there is no room, and the value is lost at a stop')
seed('C15-reader-of-thread','C15',[(SB,'''        return self._stop_event is not None and not self._stop_event.is_set()
''','''        return self._stop_event is not None and not self._stop_event.is_set()
'''),(SB,'''        self.source_buffer = None
        self._next_reader = None
        self._read_to_buffer_thread =''','''        self._next_reader = None
        self._read_to_buffer_thread =''')],SIMPLE+'''
class T(S):
    def open(self):
        if self.opened: raise OSError('no')
        super().open()
T.script = (1,)
s = StreamBuffer(T()); s.start(); time.sleep(.1); s.stop()
try: s.start()
except OSError: pass
from stream2py.exceptions import StreamNotStartedError
r = None
try: r = s.mk_reader()
except StreamNotStartedError: pass
assert r is None, 'a reader of the session before'
''','a restart that fails to open','a reader made afterwards belongs to the old session')
seed('C16-class-leak','C16',[(SS,'''        self._reader_cls = reader_cls
''','''        type(self)._reader_cls = reader_cls
''')],SIMPLE+'''
class R(BufferReader): pass
class T(StreamSource):
    info = {}
    def open(self): pass
    def close(self): pass
    def key(self, x): return x
    def read(self): return None
a = T(reader_cls=R); b = T()
r = a.open_reader()
try: assert type(r) is R
finally: r.close()
''','two sources of one class with different reader classes','the configured reader class does not reach the reader')
seed('C17-info-kept','C17',[(SI,'''            if info is not None:
                return info(self.open_instance)
            return {
''','''            if info is not None:
                if 'kept' not in vars(self):
                    self.kept = info(self.open_instance)
                return self.kept
            return {
''')],'''
from stream2py.simply import mk_stream_buffer
n = iter(range(9))
with mk_stream_buffer(lambda o: None, open_stream=lambda: next(n), info=lambda o: dict(n=o), sleep_time_on_read_none_seconds=.01) as s:
    assert s.source_reader_info == dict(n=0)
    s.start()
    assert s.source_reader_info == dict(n=1)
''','a stream started again inside its context','the info is that of the first opening')
seed('C18-repeats-skipped','C18',[(SR,'''    def __iter__(self) -> Iterator[StreamItem]:
        while True:
            _next = self.read()
            if self.is_valid_data(_next):
                yield _next
            else:
                self.when_no_data(_next)
''','''    def __iter__(self) -> Iterator[StreamItem]:
        previous = None
        while True:
            _next = self.read()
            if self.is_valid_data(_next):
                if _next is not previous or not isinstance(_next, (list, dict)):
                    yield _next
                previous = _next
            else:
                self.when_no_data(_next)
''')],'''
from stream2py.source_reader import QuickSourceReader
class Q(QuickSourceReader):
    buf = []
    def read(self): return self.buf
it = iter(Q())
import threading
got = []
def f():
    for x in it:
        got.append(x)
        if len(got) == 2: return
t = threading.Thread(target=f, daemon=True); t.start(); t.join(1)
assert len(got) == 2
''','a source that returns the same buffer object again','the value is not yielded')
seed('C20-empty-body-dropped','C20',[(HT,'''            url, data=body, headers=headers, method=method
''','''            url, data=body or None, headers=headers, method=method
''')],'''
from stream2py.sources.http import HTTPResponseReader
r = HTTPResponseReader('http://x/', method='POST', body='')
assert r._request.data == b''
''','a request with an empty body','the request is sent without a body')
seed('C20-close-at-end','C20',[(HT,'''        self._n_bytes_read += len(result)
''','''        self._n_bytes_read += len(result)
        if not result and self.response_read_args:  # nothing more to come
            self.close()
'''),(HT,'''        timestamp = time.time()
''','''        timestamp = time.time()  # when received
''')],'''
import io, urllib.request
from stream2py.sources import http
class R(io.BytesIO):
    def __exit__(self, *a): self.close()
urllib.request.urlopen = lambda q: R(b'abc')
r = http.HTTPResponseReader('http://x/', response_read_args=2)
r.open()
got = [r.read()[1] for _ in range(4)]
assert got == [b'ab', b'c', b'', b''], got
''','reading on at the end of the response','the read after the end fails')
seed('C21-switch-hands-over','C21',[(RW,'''    def writer_acquire(self):
        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire()
''','''    def writer_acquire(self):
        if self.__no_writers.acquire(blocking=False):  # free
            self.__write_switch.acquire(self.__no_readers)
        else:
            self.__write_switch.acquire(self.__no_readers)
            self.__no_writers.acquire()
''')],'''
import threading, time, sys
import stream2py.utility.reader_writer_lock as m
l = m.RWLock()
# a reader between its two steps while the writer takes the free lock
real = l._RWLock__no_readers
class L:
    def acquire(self, *a, **k):
        r = real.acquire(*a, **k)
        if threading.current_thread().name == 'reader': time.sleep(.5)
        return r
    def release(self): real.release()
l._RWLock__no_readers = L()
def rd(): l.reader_acquire(); l.reader_release()
def wr(): l.writer_acquire(); l.writer_release()
a = threading.Thread(target=rd, name='reader', daemon=True); a.start(); time.sleep(.2)
b = threading.Thread(target=wr, daemon=True); b.start()
a.join(3); b.join(3)
assert not a.is_alive() and not b.is_alive(), 'deadlock'
''','a writer arriving while a reader is entering','both block one another forever')
