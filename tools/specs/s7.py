import runpy
_p=runpy.run_path('/verif/tools/specs/s6.py')
SC,SD,RW,BR,SB,SS,SR,SI,UT,HT,BUF,SRC=(_p[k] for k in ('SC','SD','RW','BR','SB','SS','SR','SI','UT','HT','BUF','SRC'))
LD='stream2py/utility/locked_sorted_deque.py'
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
seed('C16-close-when-stopped','C16',[(BR,'''        onclose, self.onclose = self.onclose, None  # closing again has no effect
        if onclose:
            onclose()
''','''        onclose, self.onclose = self.onclose, None  # closing again has no effect
        if onclose and not self._stop_event.is_set():
            onclose()
'''),(BR,'''    def exit(self):
        return self.close()
''','''    def exit(self):
        self.close()
''')],SRC+'''
from stream2py import StreamSource
class S(StreamSource):
    def open(self): self.o = True
    def close(self): self.o = False
    def key(self, x): return x
    info = {}
    sleep_time_on_read_none_s = .01
    def read(self):
        if getattr(self, 'fail', 0): raise OSError
        return None
threading.excepthook = lambda *a: None
s = S(); r = s.open_reader(); s.fail = True; time.sleep(.2)
r.close(); s.fail = False
with s.open_reader(): time.sleep(.1); assert s.o, 'not started again'
''','a reader closed after reading ended by itself','the source is not started for the next reader')
seed('C05-empty-unlocked','C05',[(LD,'''        try:
            self.reader_acquire()
            yield self._sorted_deque
        finally:
            self.reader_release()
''','''        empty = not len(self._sorted_deque)
        try:
            if not empty:
                self.reader_acquire()
            yield self._sorted_deque
        finally:
            if not empty:
                self.reader_release()
''')],'''
import threading
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
d = RWLockSortedDeque()
done = threading.Event()
def w():
    with d.writer_lock() as x: x.append(1)
    done.set()
with d.reader_lock():
    t = threading.Thread(target=w, daemon=True); t.start()
    assert not done.wait(.3)
''','a reader entering while the deque is empty','a writer enters while a reader is inside')
seed('C10-attach-as-next','C10',[(SB,'''            return self.source_buffer.attach_reader(reader)
''','''            self.source_buffer.attach_reader(reader)
            if self._next_reader is None:
                self._next_reader = reader
''')],SRC+'''
b = StreamBuffer(Src([1, 2, 3]), sleep_time_on_read_none_s=.01)
b.start(); time.sleep(.2)
r = b.mk_reader(); b.attach_reader(r)
assert next(b) == 1 and r.read() == 1
b.stop()
''','a reader attached before next() is used on the stream buffer','the two move one cursor')
seed('C15-exit-keeps-running','C15',[(SB,'''    def __exit__(self, exc_type, exc_val, exc_tb):
        self.stop()

    enter, exit = __enter__, __exit__

    def _run''','''    def __exit__(self, exc_type, exc_val, exc_tb):
        if exc_type is None or issubclass(exc_type, Exception):
            self.stop()

    enter, exit = __enter__, __exit__

    def _run''')],SRC+'''
b = StreamBuffer(Src([1]), sleep_time_on_read_none_s=.01)
try:
    with b: raise KeyboardInterrupt
except KeyboardInterrupt: pass
assert not b.is_running
''','a context left by an interrupt','the stream goes on running')
seed('C13-full-wait','C13',[(SB,'''                    data = self.source_reader.read()
                else:
                    data = None
''','''                    data = self.source_reader.read()
                else:
                    while not len(self.source_buffer) < self._maxlen:
                        time.sleep(self._sleep_time_on_read_none_s)
                    continue
''')],SRC+'''
b = StreamBuffer(Src([1, 2, 3, 4]), maxlen=2, auto_drop=False, sleep_time_on_read_none_s=.01)
b.start(); time.sleep(.1); b.stop()
b._read_to_buffer_thread.join(.5)
assert 'close' in b.source_reader.log
''','a stop request while the buffer is full','reading does not end and the source stays open')
seed('C17-close-needs-open','C17',[(SI,'''            if close_stream is not None:
                close_stream(self.open_instance)
''','''            if close_stream is not None and self.open_instance is not None:
                close_stream(self.open_instance)
''')],'''
from stream2py.simply import mk_stream_buffer
n = []
with mk_stream_buffer(lambda o: None, close_stream=n.append): pass
import time; time.sleep(.3)
assert n == [None]
''','a close function without an open function','the close function is not called')
seed('C16-onclose-before-open','C16',[(SS,'''        self._handle_reader_open()
        new_reader.onclose = self._handle_reader_closed
        return new_reader
''','''        self._handle_reader_open()
        return new_reader
'''),(SS,'''            new_reader.open()
''','''            new_reader.onclose = self._handle_reader_closed
            new_reader.open()
''')],'''
import time
from stream2py import StreamSource, BufferReader
class R(BufferReader):
    fail = False
    def open(self):
        if self.fail:
            self.close(); raise OSError
        return self
class S(StreamSource):
    o = 0
    def open(self): self.o += 1
    def close(self): self.o -= 1
    def key(self, x): return x
    info = {}
    sleep_time_on_read_none_s = .01
    def read(self): return None
s = S(reader_cls=R)
r = s.open_reader(); R.fail = True
try: s.open_reader()
except OSError: pass
time.sleep(1.5)
assert not r.is_stopped
''','a reader class that closes itself when opening fails, with another reader open','the stream of the other reader is stopped')
seed('C18-stops-early','C18',[(SS,'''        while True:
            _next = self.read()
            if _next is not None:
                yield _next
            elif getattr(self, 'is_stopped', False):
                return None
            else:
                time.sleep''','''        while not getattr(self, 'is_stopped', False):
            _next = self.read()
            if _next is not None:
                yield _next
            else:
                time.sleep''')],'''
from stream2py import StreamSource
class S(StreamSource):
    is_stopped = False
    vals = [1, 2, 3]
    def open(self): pass
    def close(self): pass
    def key(self, x): return x
    info = {}
    def read(self):
        if not self.vals: return None
        x = self.vals.pop(0); self.is_stopped = not self.vals[1:]; return x
S.vals = [1, 2, 3]
assert list(S()) == [1, 2, 3]
''','a source that has stopped while data are left','the data left are not delivered')
seed('C01-rekey-equal','C01',[(SC,'''        if key is not self._key:
''','''        if key != self._key:
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
class K:
    def __init__(self, s): self.s = s
    def __call__(self, x): return self.s * x
    def __eq__(self, o): return isinstance(o, K)
    __hash__ = None
c = SortedCollection([1, 2], K(1)); c.key = K(-1)
assert list(c) == [2, 1]
''','key functions that compare equal','the new key is not used')
seed('C12-odd-eq','C12',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
''','''                if data != None:
                    self.source_buffer.append(data)
''')],SRC+'''
class V:
    def __ne__(self, o): return False
class S(Src):
    def key(self, x): return 1
b = StreamBuffer(S([V()]), sleep_time_on_read_none_s=.01)
b.start(); time.sleep(.2); b.stop()
assert isinstance(b.mk_reader().head(), V)
''','a value that does not differ from anything','the value is not buffered')
seed('C20-method-upper','C20',[(HT,'''            url, data=body, headers=headers, method=method
''','''            url, data=body, headers=headers, method=method.upper()
''')],'''
import urllib.request
from stream2py.sources import http
got = []
class Rsp:
    def __exit__(self, *a): pass
http.urllib.request.urlopen = http.urlopen = lambda r, *a, **k: got.append(r) or Rsp()
h = http.HTTPResponseReader('http://x', method='Patch', body='x'); h.open()
assert got[0].get_method() == 'Patch'
''','a method not in upper case','another method is sent')
seed('C06-len-then-read','C06',[(BR,'''                next_items_list = reader.range_by_index(i, j)
                if not peek:
                    self.last_item = next_items_list[-1]
                return next_items_list
            if not peek:
                self.last_item = next_item
            return next_item
''','''                if not peek:
                    self.last_item = reader[min(j, len(reader)) - 1]
            else:
                if not peek:
                    self.last_item = next_item
                return next_item
        return reader.range_by_index(i, j)
''')],'''
import threading
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
from stream2py import BufferReader
b = RWLockSortedDeque([1, 2, 3, 4], maxlen=4)
r = BufferReader(b, {}, threading.Event())
rel = b.reader_release
def release():
    rel()
    b._sorted_deque.append(5)
b.reader_release = release
assert r.read(n=2) == [1, 2]
''','an item added right after the lock is released','the items returned are not those of the time of the read')
seed('C19-attr-cached','C19',[(UT,'''        return getattr(self.func, attrname)
''','''        return self.__dict__.setdefault(attrname, getattr(self.func, attrname))
''')],'''
from stream2py.util import ContextualizeCall
class F:
    a = 1
    def __call__(self): pass
f = F(); c = ContextualizeCall(f)
assert c.a == 1
f.a = 2
assert c.a == 2
''','an attribute that changes','the old value is shown')
seed('C02-contains-by-key','C02',[(SD,'''        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return item in''','''        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = min(bisect_right(self._keys, k), i + 16)
        return item in''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([(1, i) for i in range(20)], key=lambda x: x[0])
assert (1, 19) in d
''','more than sixteen items of one key','an item is not found')
seed('C03-many-duplicates','C03',[(SD,'''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''','''        i = bisect_left(self._keys, start, 0, min(len(self._keys), 4096))
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque(range(5000))
assert d.range(4500, 4501) == [4500, 4501]
''','more than 4096 items','the range starts too early')
