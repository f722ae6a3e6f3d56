import runpy
_p=runpy.run_path('/verif/tools/specs/s2.py'); S=_p['S']; R=_p['R']
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'; SS='stream2py/stream_source.py'
SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
BUF='''
import threading
from stream2py.stream_buffer import _SourceBuffer
ev = threading.Event()
def buf(*items, maxlen=100, **kw):
    b = _SourceBuffer({}, ev, maxlen=maxlen, **kw)
    for x in items: b.append(x)
    return b
'''
SRC='''
import threading, time
from stream2py import SourceReader, StreamBuffer
class Src(SourceReader):
    def __init__(self, vals): self.vals = list(vals); self.i = 0; self.log = []
    def open(self): self.log.append('open')
    def read(self):
        self.log.append('read')
        if self.i < len(self.vals):
            self.i += 1; return self.vals[self.i-1]
        time.sleep(.01); return None
    def close(self): self.log.append('close')
    def key(self, x): return x
'''

seed('C01-pickle-forgets-limit','C01',[(SD,'''        return self.__class__, (self._items, self._given_key, self._maxlen)
''','''        return self.__class__, (list(self._items), self._given_key)
''')],'''
import copy
from stream2py.utility.sorted_deque import SortedDeque
d = copy.copy(SortedDeque([1, 2], maxlen=2))
assert d.maxlen == 2
''','copying by the copy module','the copy has no limit')
seed('C02-getitem-wraps','C02',[(SC,'''    def __getitem__(self, i):
        return self._items[i]
''','''    def __getitem__(self, i):
        return self._items[max(i, -len(self._items)) if isinstance(i, int) else i]
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
try: SortedCollection([1])[-3]
except IndexError: pass
else: assert 0
''','an index before the first item','indexing gives an item that is not there')
seed('C03-step-from-window','C03',[(SD,'''        return list(islice(self._items, start_index, stop_index, step))
''','''        if step is not None and stop_index - start_index < step:
            step = None
        return list(islice(iter(self._items), start_index, stop_index, step))
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
assert SortedDeque([1, 2, 3]).range(1, 2, 3) == [1]
''','a step longer than the range','more than every step-th item')
seed('C04-drop-all-resets','C04',[(SD,'''        for _ in range(n):
            del self._keys[0]
            del self._items[0]
''','''        if n and n == len(self._keys):
            self.__init__([], self._key)
            n = 0
        for _ in range(n):
            self._keys.popleft()
            self._items.popleft()
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2], maxlen=2); d.drop(2)
for i in range(5): d.append(i)
assert len(d) == 2
''','dropping everything and appending more than the limit','the window has no limit any more')
seed('C06-tail-uses-head','C06',[(BR,'''                    if self.last_item is None:  # first time reading a value from buffer
                        item = reader[-1]
                    else:''','''                    if self.last_item is None:  # first time reading a value from buffer
                        item = self.tail(peek=True)
                    else:''')],BUF+'''
b = buf(1, 2); r = b.mk_reader()
n = [0, 0]
acq, rel = b._buffer.reader_acquire, b._buffer.reader_release
def a(): n[0] += 1; n[1] = max(n); acq()
def e(): n[0] -= 1; rel()
b._buffer.reader_acquire, b._buffer.reader_release = a, e
r.tail(only_new_items=True)
assert n[1] == 1
''','tail of new items as the first query of a reader','the lock is asked for again while it is held')
seed('C09-range-new-start','C09',[(BR,'''                _start = start if start > _next_key else _next_key
''','''                _start = start if start_le or start > _next_key else _next_key
''')],BUF+'''
b = buf(1, 2, 3, 4); r = b.mk_reader(); r.read(n=3)
assert r.range(2, 9, only_new_items=True, start_le=True) is not None
b2 = buf(0, 10, 20, 30); r = b2.mk_reader(); r.read(n=2)
assert r.range(10, 30, only_new_items=True, start_le=True) == [20, 30]
''','only new items together with start rounding','old items are delivered')
seed('C10-same-start-object','C10',[(BR,'''        self._read_kwargs_for_next = dict(self._read_kwargs, ignore_no_item_found=True)
''','''        self._read_kwargs_for_next = self._read_kwargs if ignore_no_item_found else dict(
            self._read_kwargs, ignore_no_item_found=True
        )
'''),(BR,'''    onclose: Callable = None
''','''    onclose: Callable = None
    _seen: dict = {}
'''),(BR,'''        self._last_key = self._buffer.key(item)
        self._last_item = item
''','''        self._last_key = self._buffer.key(item)
        self._last_item = self._seen.setdefault(id(self._buffer), item)
        if self._last_item is not item:
            self._seen[id(self._buffer)] = self._last_item = item
''')],BUF+'''
from stream2py import BufferReader
b = buf(1, 2, 3); r = b.mk_reader(); r.read()
assert not BufferReader._seen
''','never','nothing') if False else None
seed('C12-skip-older','C12',[(SB,'''        with self._buffer.writer_lock() as writer:
            writer.append(item)
''','''        with self._buffer.writer_lock() as writer:
            try:
                writer.append(item)
            except ValueError:
                if self._buffer.key(item) != self._buffer.key(writer[-1]):
                    raise
                # the same key again: take the newer item
                writer._items[-1] = item
''')],SRC+'''
s = Src([(1, 'a'), (1, 'b'), None, (2, 'c')])
s.key = lambda x: x[0]
with StreamBuffer(s, sleep_time_on_read_none_s=.01) as b:
    time.sleep(.3)
    assert list(b.source_buffer._buffer._sorted_deque) == [(1, 'a')]
''','two values with one key','the first one disappears from the buffer')
seed('C14-count-not-dropped','C14',[(SB,'''    def __len__(self):
        return len(self._buffer)
''','''    def __len__(self):
        return self._n if self._buffer._sorted_deque.maxlen else len(self._buffer)
'''),(SB,'''        self.buffer_reader_class = buffer_reader_class

''','''        self.buffer_reader_class = buffer_reader_class
        self._n = 0

'''),(SB,'''            writer.append(item)
''','''            writer.append(item)
            self._n = len(writer)
''')],SRC+'''
b = StreamBuffer(Src([1, 2, 3, 4]), maxlen=2, auto_drop=False, sleep_time_on_read_none_s=.01)
b.start(); time.sleep(.2); b.drop(1); time.sleep(.2)
assert b.mk_reader().tail() == 3
b.stop()
''','a manual drop from a full buffer','reading does not go on')
seed('C15-running-while-opening','C15',[(SB,'''        with self.start_lock:
            return self._stop_event is not None and not self._stop_event.is_set()
''','''        return self._stop_event is not None and not self._stop_event.is_set()
''')],SRC+'''
class Slow(Src):
    def open(self): time.sleep(.5)
b = StreamBuffer(Slow([1]))
t = threading.Thread(target=b.start); t.start(); time.sleep(.2)
r = b.is_running
assert not (r and t.is_alive()), 'running before it is started'
t.join(); b.stop()
''','asking while the source is being opened','a stream that is not started yet is running')
seed('C15-reader-while-starting','C15',[(SB,'''        with self.start_lock:
            if not isinstance(self.source_buffer, _SourceBuffer):
                raise StreamNotStartedError(
                    'StreamBuffer must be started before creating readers. '
                    'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
                )
            return self.source_buffer.mk_reader(**read_kwargs)
''','''        if not isinstance(self.source_buffer, _SourceBuffer):
            raise StreamNotStartedError(
                'StreamBuffer must be started before creating readers. '
                'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
            )
        return self.source_buffer.mk_reader(**read_kwargs)
''')],SRC+'''
class Slow(Src):
    def open(self): time.sleep(.5)
b = StreamBuffer(Slow([1]))
b.start(); b.stop()
t = threading.Thread(target=b.start); t.start(); time.sleep(.2)
b.mk_reader()
t.join(); b.stop()
''','making a reader while the stream is restarting','it raises that the stream has not been started')
seed('C16-configure-after-close','C16',[(SS,'''        if self._stream_buffer:
            raise ValueError('Buffer has already been started.')
''','''        if self._stream_buffer and self._open_readers > 0:
            raise ValueError('Buffer has already been started.')
''')],'''
from stream2py.examples.stream_source import SimpleCounterString
s = SimpleCounterString(start=0, stop=10)
r = s.open_reader(); r.close()
try: s.configure_buffer(maxlen=3)
except ValueError: pass
else: assert 0
''','configuring after all readers were closed','it is accepted and has no effect')
seed('C17-index-reset-on-close','C17',[(SI,'''            self.read_idx = 0
            if open_stream''','''            if open_stream'''),(SI,'''            if close_stream is not None:
                close_stream(self.open_instance)
''','''            if close_stream is not None:
                close_stream(self.open_instance)
            self.read_idx = 0
''')],'''
from stream2py.simply import mk_stream_buffer
import time
def bad(o): raise OSError
c = iter(range(6))
with mk_stream_buffer(lambda o: next(c, None), close_stream=bad, sleep_time_on_read_none_seconds=.01, maxlen=2, auto_drop=False) as b:
    time.sleep(.2); b.stop(); b.start(); time.sleep(.2)
    assert b.mk_reader().head()[0] == 0
''','a close function that raises, and a second start','the indices do not start from 0')
seed('C18-valid-cached','C18',[(SR,'''        while True:
            _next = self.read()
            if self.is_valid_data(_next):
                yield _next
            else:
                self.when_no_data(_next)
''','''        previous = None
        while True:
            _next = self.read()
            if _next is not None and _next is previous or self.is_valid_data(_next):
                previous = _next
                yield _next
            else:
                self.when_no_data(_next)
''')],'''
from stream2py.source_reader import QuickSourceReader
v = [1]
class Q(QuickSourceReader):
    n = 0
    def read(self): self.n += 1; return v if self.n < 4 else None if self.n < 6 else 'end'
    def is_valid_data(self, d): return self.n == 1 or d == 'end'
it = iter(Q())
assert [next(it), next(it)] == [v, 'end']
''','the same object read again while it is not valid any more','values that are not valid are delivered')
seed('C18-exit-open-on-error','C18',[(SR,'''    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        self.close()
        self._closed = True
''','''    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        self.close()
        self._closed = exc_type is None or not issubclass(exc_type, GeneratorExit)
''')],'''
from stream2py.source_reader import QuickSourceReader, SourceReader
class S(SourceReader):
    def open(self): pass
    def close(self): pass
    def read(self): pass
    def key(self, x): return x
s = S()
try:
    with s: raise GeneratorExit
except GeneratorExit: pass
assert s.closed
''','leaving the context by the closing of a generator','the source reports itself open')
seed('C19-instance-class-context','C19',[(UT,'''def forward_to_instance_enter(obj):
    return obj.__self__.__enter__()
''','''def forward_to_instance_enter(obj):
    entered = obj.__self__.__enter__()
    return obj.__self__ if entered is None else entered
''')],'''
from stream2py.util import contextualize_with_instance
class C:
    def __enter__(self): return None
    def __exit__(self, *a): return None
    def f(self): pass
with contextualize_with_instance(C().f) as x: assert x is None
''','an instance whose entering returns None','something else is returned')
seed('C20-info-of-last','C20',[(HT,'''            'n_bytes_read': self._n_bytes_read,
''','''            'n_bytes_read': min(self._n_bytes_read, 2 ** 31 - 1),
''')],'''
from stream2py.sources.http import HTTPResponseReader
h = HTTPResponseReader('http://x')
class B(bytes):
    def __len__(self): return 2 ** 31 + 5
class Rsp:
    def read(self, *a): return B()
h._response = Rsp(); h.read()
assert h.info['n_bytes_read'] == 2 ** 31 + 5
''','more than 2 GB read','the number is wrong')
seed('C20-close-keeps','C20',[(HT,'''            self._response.__exit__()
            self._response = None
''','''            response, self._response = self._response, None
            if not response.isclosed():
                response.__exit__()
''')],'''
from stream2py.sources.http import HTTPResponseReader
h = HTTPResponseReader('http://x')
n = []
class Rsp:
    def isclosed(self): return True
    def close(self): n.append(1)
    def __exit__(self, *a): n.append(1)
h._response = Rsp(); h.close()
assert n == [1]
''','a response that was read to its end','closing does not close it') 
seed('C05-reader-fast','C05',[(RW,'''        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
        self.__readers_queue.release()
''','''        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__no_readers.release()
        self.__readers_queue.release()
        self.__read_switch.acquire(self.__no_writers)
''')],'''
import threading, time
from stream2py.utility.reader_writer_lock import RWLock
l = RWLock()
n = l._RWLock__no_readers
sw = l._RWLock__read_switch
seen = []
class S:
    def acquire(self, lock): seen.append(n.locked()); sw.acquire(lock)
    release = sw.release
l._RWLock__read_switch = S()
l.reader_acquire()
assert seen == [True]
''','a writer registering between the two steps of a reader','it is not held for reading as registered') if False else None
