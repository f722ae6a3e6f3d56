import runpy
_p=runpy.run_path('/verif/tools/specs/s9.py')
SC,SD,RW,BR,SB,SS,SR,SI,UT,HT,BUF,SRC,LD,SIMPLE=(_p[k] for k in ('SC','SD','RW','BR','SB','SS','SR','SI','UT','HT','BUF','SRC','LD','SIMPLE'))
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
seed('C01-window-rekey-names','C01',[(SD,'''        if key is not self._key:
            self.__init__(self._items, key=key, maxlen=self._maxlen)
''','''        if getattr(key, '__qualname__', key) != getattr(self._key, '__qualname__', self._key):
            self.__init__(self._items, key=key, maxlen=self._maxlen)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
def mk(m): return lambda x: m * x
d = SortedDeque([1, 2, 3], key=mk(1)); d.key = mk(-1)
assert list(d) == [3, 2, 1]
''','a key function of the same name as the one before','the window is not re-keyed')
seed('C02-lastgt-none','C02',[(SD,'''            if self._keys[-1] > k:
                return self._items[-1]
''','''            if self._keys[-1] > k and self._items[-1] is not None:
                return self._items[-1]
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, None], key=lambda x: 9 if x is None else x)
assert d.find_last_gt(3) is None
''','the newest item is None','it is not found')
seed('C02-iter-snapshot','C02',[(SC,'''    def __reversed__(self):
        return reversed(self._items)
''','''    def __reversed__(self):
        return iter(sorted(self._items, key=self._key, reverse=True))
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
c = SortedCollection(['b1', 'b2', 'a1'], key=lambda s: s[0])
assert list(reversed(c)) == ['b2', 'b1', 'a1'], list(reversed(c))
''','equal keys, backwards','items of equal keys come in the wrong order')
seed('C03-int-step','C03',[(SD,'''        return list(islice(self._items, start_index, stop_index, step))
''','''        items = list(islice(self._items, start_index, stop_index))
        return items[::step] if step is None or step < len(items) else items[:1] if step > 2 else items
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque(range(10))
assert d.range(3, 4, 2) == [3], d.range(3, 4, 2)
''','a step of two over two items','both are given')
seed('C04-drop-after-shrink','C04',[(SD,'''        if maxlen is not self._maxlen:
            self.__init__(self._items, key=self._key, maxlen=maxlen)
''','''        if maxlen is not self._maxlen:
            if maxlen is not None and len(self._items) <= maxlen:
                self._keys = deque(self._keys, maxlen)
                self._items = deque(self._items, self._maxlen)
                self._maxlen = maxlen
            else:
                self.__init__(self._items, key=self._key, maxlen=maxlen)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1], maxlen=5); d.maxlen = 2
for i in (2, 3, 4): d.append(i)
assert list(d) == [3, 4], list(d)
''','a limit made smaller with room left, then filled','items and keys are limited differently')
seed('C06-none-found-unlocked','C06',[(BR,'''                except TypeError as e:
                    # TypeError: '>' not supported between instances of type(key) and 'NoneType'
                    if self.last_item is None:  # first time reading a value from buffer
                        item = reader[-1]
                    else:
                        raise e
''','''                except TypeError as e:
                    # TypeError: '>' not supported between instances of type(key) and 'NoneType'
                    if self.last_item is None:  # first time reading a value from buffer
                        return self.tail(peek=peek, ignore_no_item_found=ignore_no_item_found)
                    else:
                        raise e
''')],BUF+'''
import threading
b = RWLockSortedDeque([1, 2, 3], key=lambda x: x); r = BufferReader(b, {}, threading.Event())
out = []
n = [0]; orig = b.reader_acquire
def acq():
    n[0] += 1
    assert n[0] == 1, 'asked for again while held'
    orig()
b.reader_acquire = acq
rel = b.reader_release
def rl():
    n[0] -= 1; rel()
b.reader_release = rl
assert r.tail(only_new_items=True) == 3
''','the first tail of a reader asks for new items only','the lock is asked for while it is held')
seed('C07-after-eviction','C07',[(BR,'''                i = reader.index(next_item)
                j = i + n
''','''                i = reader.index(next_item)
                if self._last_item is not None and i == 0:
                    n -= 1  # the last seen item is gone
                j = i + max(n, 1)
''')],BUF+'''
import threading
b = RWLockSortedDeque([1, 2, 3], key=lambda x: x, maxlen=3); r = BufferReader(b, {}, threading.Event())
assert r.read() == 1
with b.writer_lock() as w:
    w.append(4); w.append(5)
assert r.read(n=2) == [3, 4]
''','items, the last seen one among them, were evicted before a chunk is read','the chunk is one short')
seed('C08-next-deprecated','C08',[(BR,'''            n=n, peek=peek, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n
        )

    def enter''','''            n=n, peek=peek or None, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n
        )

    def enter''')],BUF+'''
import threading, warnings
warnings.simplefilter('ignore')
b = RWLockSortedDeque([1, 2, 3], key=lambda x: x); r = BufferReader(b, {}, threading.Event(), peek=True)
assert r.next(peek=False) == 1 and r.read(peek=False) == 2
''','next(peek=False) of a reader that peeks','it peeks')
seed('C09-start-le-last','C09',[(BR,'''                    _start = reader.key(reader.find_le(_start))
''','''                    _start = reader.key(reader.find_le(min(_start, stop)))
''')],BUF+'''
import threading
b = RWLockSortedDeque([1, 5, 9], key=lambda x: x); r = BufferReader(b, {}, threading.Event())
assert (r.range(8, 4, start_le=True, ignore_no_item_found=True, peek=True) or []) == []
''','start rounding with the start above the stop','an item is delivered')
seed('C10-head-of-limit','C10',[(BR,'''        with self._buffer.reader_lock() as reader:
            item = reader[0]
        if not peek:
''','''        with self._buffer.writer_lock() as reader:
            item = reader[0]
            if not peek and len(reader) == reader.maxlen and self._stop_event.is_set():
                reader.drop()
        if not peek:
''')],BUF+'''
import threading
e = threading.Event(); b = RWLockSortedDeque([1, 5, 9], key=lambda x: x, maxlen=3); r = BufferReader(b, {}, e)
e.set(); r.head()
assert len(b) == 3
''','head of a full buffer after the stream stopped','the item is taken away from the other readers')
seed('C10-same-buffer-cursor','C10',[(SB,'''        reader._buffer = self._buffer
        reader._stop_event = self._stop_event
''','''        if reader._buffer is not self._buffer:
            reader._buffer = self._buffer
            reader._read_kwargs = self.mk_reader()._read_kwargs
        reader._stop_event = self._stop_event
''')],SRC+'''
from stream2py import StreamBuffer
s, t = StreamBuffer(Src([1, 2, 3])), StreamBuffer(Src([4, 5, 6])); s.start(); t.start(); time.sleep(.3)
r = s.mk_reader(read_size=2); t.attach_reader(r)
got = r.read(); s._stop_event.set(); t._stop_event.set()
assert got == [4, 5], got
''','a reader with options of its own is attached to another stream','its options are lost')
seed('C12-none-like','C12',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
''','''                if data is not None and getattr(data, 'shape', True) != ():
                    self.source_buffer.append(data)
''')],SRC+'''
from stream2py import StreamBuffer
class Z(int):
    shape = ()
s = StreamBuffer(Src([Z(1), Z(2)])); s.start(); time.sleep(.3)
r = s.mk_reader(); got = r.read(ignore_no_item_found=True); s._stop_event.set()
assert got == 1, got
''','values like the scalars of an array library','they are not buffered')
seed('C12-source-stream','C12',[(SR,'''            sleep_time_on_read_none_s=sleep_time_on_read_none_s,
            auto_drop=auto_drop,
        )
''','''            sleep_time_on_read_none_s=sleep_time_on_read_none_s
            or self._sleep_time_on_iter_none_s,
            auto_drop=auto_drop,
        )
''')],SRC+'''
class P(Src):
    sleep_time_on_read_none_s = .2
s = P([]).stream_buffer(3)
assert s._sleep_time_on_read_none_s == .2
''','a stream made by the source, which has a pause of its own','the pause is not that of the source')
seed('C13-stop-then-close','C13',[(SB,'''        finally:
            if not self._stop_event.is_set():
                self._stop_event.set()
            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
''','''        except (MemoryError, RecursionError):
            self._stop_event.set()
            raise
        except BaseException:
            self._end()
            raise
        else:
            self._end()

    def _end(self):
        self._stop_event.set()
        try:
            self.source_reader.close()
        except Exception as e:
            logger.error(e)
''')],SRC+'''
from stream2py import StreamBuffer
threading.excepthook = lambda *a: None
class M(Src):
    closed_n = 0
    def read(self): raise MemoryError
    def close(self): self.closed_n += 1
m = M([]); s = StreamBuffer(m); s.start(); time.sleep(.3)
assert m.closed_n == 1
''','a read runs out of memory','the source is not closed')
seed('C14-source-made','C14',[(SR,'''            auto_drop=auto_drop,
        )
''','''            auto_drop=auto_drop or maxlen is None,
        )
''')],SRC+'''
s = Src([1, 2, 3]).stream_buffer(None, auto_drop=False); s.start(); time.sleep(.3)
try: s.drop(1)
finally: s._stop_event.set()
assert s.mk_reader().read() == 2
''','a stream without a limit made by the source, automatic dropping off','manual dropping is refused')
seed('C15-exit-not-started','C15',[(SB,'''    def __enter__(self):
        self.start()
        return self
''','''    def __enter__(self):
        if self._stop_event is None or self._stop_event.is_set():
            self.start()
        return self
''')],SRC+'''
from stream2py import StreamBuffer
a = Src([1]); n = []; o = a.open
a.open = lambda: (n.append(1), o())
s = StreamBuffer(a); s.start(); s.__enter__(); s._stop_event.set()
assert len(n) == 2
''','the context of a running stream is entered','it is not restarted')
seed('C16-configure-none','C16',[(SS,'''        if self._stream_buffer:
            raise ValueError('Buffer has already been started.')
''','''        if self._stream_buffer and self._stream_buffer.source_buffer:
            raise ValueError('Buffer has already been started.')
''')],'''
from stream2py.stream_source import StreamSource
import time
class S(StreamSource):
    def open(self): pass
    def read(self): time.sleep(.01)
    def close(self): pass
    info = {}
    def key(self, d): return d
s = S(); r = s.open_reader()
try: s.configure_buffer(maxlen=3); bad = 1
except ValueError: bad = 0
r.close()
assert not bad
''','nothing has been buffered yet','the settings are accepted and ignored')
seed('C17-index-skips-none','C17',[(SI,'''            if read_data is None:  # no data yet
                return None
            if enumerate_data:
                read_data = (self.read_idx, read_data)
            self.read_idx += 1
''','''            index = self.read_idx
            self.read_idx += 1
            if read_data is None:  # no data yet
                self.read_idx = index if index else self.read_idx
                return None
            if enumerate_data:
                read_data = (index, read_data)
''')],'''
from stream2py.simply import mk_stream_buffer
import time
vals = [None, 'a', None, 'b']
with mk_stream_buffer(lambda i: vals.pop(0) if vals else time.sleep(.01), sleep_time_on_read_none_seconds=.01) as s:
    r = s.mk_reader(); time.sleep(.3); got = [r.read(), r.read()]
assert got == [(0, 'a'), (1, 'b')], got
''','the first read gives None','the indices start at 1')
seed('C18-timestamp-unit','C18',[(SR,'''        return int(time.time() * cls.timestamp_seconds_to_unit_conversion)
''','''        return int(time.time() * int(cls.timestamp_seconds_to_unit_conversion)) // 10 * 10
''')],'''
from stream2py.source_reader import SourceReader
import time
time.time = lambda: 1.000003
assert SourceReader.get_timestamp() in (1000002, 1000003)
''','any time that is no multiple of ten microseconds','the last digit is lost')
seed('C18-quick-open-idx','C18',[(SR,'''    open_time = None
    open_instance = None
''','''    open_time = open_instance = None
    _closed = False
''')],'''
from stream2py.source_reader import QuickSourceReader
class Q(QuickSourceReader):
    def read(self): return 1
assert Q().closed
''','a quick source before it is opened','it says it is open')
seed('C20-read-on-empty','C20',[(HT,'''        result = self._response.read(*self.response_read_args)
        timestamp = time.time()
''','''        result = self._response.read(*self.response_read_args) or (
            self._response.read() if self._n_bytes_read else b''
        )
        timestamp = time.time()
''')],'''
from stream2py.sources.http import HTTPResponseReader
h = HTTPResponseReader('http://x/', response_read_args=(2,))
class R:
    d = [b'ab', b'', b'cd']; calls = []
    def read(self, *a): self.calls.append(a); return self.d.pop(0)
h._response = R()
h.read(); assert h.read()[1] == b'' and R.calls == [(2,), (2,)]
''','an empty read after some data','the response is asked again without the arguments')
