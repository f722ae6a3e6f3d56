import runpy
_p=runpy.run_path('/verif/tools/specs/s9.py')
SC,SD,RW,BR,SB,SS,SR,SI,UT,HT,BUF,SRC,LD,SIMPLE=(_p[k] for k in ('SC','SD','RW','BR','SB','SS','SR','SI','UT','HT','BUF','SRC','LD','SIMPLE'))
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
seed('C02-find-type','C02',[(SC,'''        if i != len(self) and self._keys[i] == k:
            return self._items[i]
''','''        if i != len(self) and self._keys[i] == k and isinstance(self._keys[i], type(k)):
            return self._items[i]
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
assert SortedCollection([1, 2, 3]).find(2.0) == 2
''','a key given as another type of number','the item is not found')
seed('C01-same-object-once','C01',[(SC,'''        i = bisect_right(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''','''        i = bisect_right(self._keys, k)
        if not (i > 1 and self._items[i - 1] is item and self._items[i - 2] is item):
            self._keys.insert(i, k)
            self._items.insert(i, item)
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
c = SortedCollection()
for _ in range(3): c.insert_right('a')
assert len(c) == 3
''','the same object is inserted for the third time','it is not inserted')
seed('C01-copy-shares-keys','C01',[(SD,'''        return self.__class__(self, self._key, self._maxlen)
''','''        c = self.__class__((), self._key, self._maxlen)
        c._keys, c._items = self._keys, self._items.copy()
        return c
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2, 3]); c = d.copy(); c.insert(0)
assert d.find_gt(2) == 3 and list(d) == [1, 2, 3]
''','a copy is changed','the keys of the original are changed with it')
seed('C03-whole-window-step','C03',[(SD,'''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''','''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return list(self._items) if j - i == len(self._keys) > 3 else self.range_by_index(i, j, step)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
assert SortedDeque(range(5)).range(0, 9, 2) == [0, 2, 4]
''','a stepped range that covers a window of more than three items','the step is ignored')
seed('C04-limit-grows-in-name','C04',[(SD,'''        if maxlen is not self._maxlen:
            self.__init__(self._items, key=self._key, maxlen=maxlen)
''','''        if maxlen is not None and self._maxlen is not None and maxlen > self._maxlen:
            self._maxlen = maxlen  # nothing to discard
        elif maxlen is not self._maxlen:
            self.__init__(self._items, key=self._key, maxlen=maxlen)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2], maxlen=2); d.maxlen = 4; d.append(3)
assert list(d) == [1, 2, 3], d
''','a limit that is raised','items are discarded although there is room')
seed('C05-impatient-writer','C05',[(RW,'''        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire()
''','''        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire(timeout=2)
''')],'''
import threading, time
from stream2py.utility.reader_writer_lock import RWLock
l = RWLock(); l.reader_acquire(); got = []
t = threading.Thread(target=lambda: (l.writer_acquire(), got.append(1)), daemon=True); t.start()
time.sleep(2.5)
assert not got
''','a reader that stays in for more than two seconds','the writer gets in beside it')
seed('C21-writer-shortcut','C21',[(RW,'''    def writer_acquire(self):
        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire()

    def writer_release(self):
        self.__no_writers.release()
        self.__write_switch.release(self.__no_readers)
''','''    __shortcut = False

    def writer_acquire(self):
        if self.__no_writers.acquire(blocking=False):  # nobody in there
            self.__shortcut = True
            return
        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire()
        self.__shortcut = False

    def writer_release(self):
        shortcut = self.__shortcut
        self.__no_writers.release()
        if not shortcut:
            self.__write_switch.release(self.__no_readers)
''')],'''
import threading, time
from stream2py.utility.reader_writer_lock import RWLock
l = RWLock(); got = []
r = threading.Thread(target=lambda: (l.reader_acquire(), got.append('r'), l.reader_release()), daemon=True)
w = threading.Thread(target=lambda: (l.writer_acquire(), got.append('w'), l.writer_release()), daemon=True)
l.writer_acquire()
r.start(); time.sleep(.2); w.start(); time.sleep(.2)
l.writer_release()
r.join(2); w.join(2)
assert got == ['w', 'r'], got
''','a reader and then a writer ask while a writer is inside','the reader is let in before the waiting writer')
seed('C06-drop-counts-unlocked','C06',[(SB,'''        self.source_buffer.drop(n)
''','''        left = sum(1 for _ in self.source_buffer._buffer._sorted_deque)
        self.source_buffer.drop(min(n, left) if left else n)
''')],SRC+'''
from stream2py import StreamBuffer
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
s = StreamBuffer(Src([1, 2, 3]), maxlen=9, auto_drop=False)
s.start(); time.sleep(.2); s._stop_event.set(); time.sleep(.1)
b = s.source_buffer._buffer
d, seen = b._sorted_deque, []
class Spy(type(d)):
    def __iter__(self):
        seen.append(held); return super().__iter__()
held = False
d.__class__ = Spy
s.drop(2)
assert False not in seen, 'looked at without the lock'
''','a manual drop','the items are gone through without the lock')
seed('C07-single-not-list','C07',[(BR,'''            if n > 1:
                i = reader.index(next_item)
''','''            if n > 1 and len(reader) > 1:
                i = reader.index(next_item)
''')],BUF+'''
b, r = buf([5])
assert r.read(n=3) == [5]
''','a chunk is asked for and the buffer holds a single item','the item is not given as a list')
seed('C08-blocking-peek-false','C08',[(BR,'''                    n,
                    peek=peek,
                    ignore_no_item_found=True,
''','''                    n,
                    peek=peek or None,
                    ignore_no_item_found=True,
''')],BUF+'''
b, r = buf([1, 2], peek=True)
assert [r.read(blocking=True, peek=False) for _ in range(2)] == [1, 2]
''','a blocking read told not to peek, of a reader that peeks by default','it peeks')
seed('C10-chunk-shared','C10',[(BR,'''                next_items_list = reader.range_by_index(i, j)
''','''                chunk = getattr(reader, 'last_chunk', None)
                if chunk is not None and chunk[:2] == (next_item, n) and len(reader) >= j:
                    next_items_list = chunk[2]
                else:
                    next_items_list = reader.range_by_index(i, j)
                    reader.last_chunk = next_item, n, next_items_list
''')],BUF+'''
b, r = buf([1, 2, 3, 4])
q = BufferReader(buffer=b, source_reader_info={}, stop_event=threading.Event())
r.read(n=2).clear()
assert q.read(n=2) == [1, 2]
''','two readers read the same chunk and the first changes the list it got','the second gets the changed list')
seed('C12-batches','C12',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
''','''                if type(data) is list and len(data) > 1:
                    for x in data:
                        self.source_buffer.append(x)
                elif data is not None:
                    self.source_buffer.append(data)
''')],SRC+'''
from stream2py import StreamBuffer
class L(Src):
    def key(self, x): return x if isinstance(x, int) else x[0]
s = StreamBuffer(L([[1, 2], [3, 4]])); s.start(); time.sleep(.3)
r = s.mk_reader(); got = r.read(); s._stop_event.set()
assert got == [1, 2], got
''','a source that reads lists','the elements are buffered one by one')
seed('C15-no-limit-lost','C15',[(SB,'''            maxlen=self._maxlen,
            buffer_reader_class''','''            maxlen=self._maxlen or 1000,
            buffer_reader_class''')],SRC+'''
from stream2py import StreamBuffer
class M(Src):
    def read(self):
        if self.i < len(self.vals):
            self.i += 1; return self.vals[self.i-1]
        time.sleep(.01)
s = StreamBuffer(M(range(1500)), maxlen=None); s.start(); time.sleep(1)
r = s.mk_reader(); got = r.head(); s._stop_event.set()
assert got == 0, got
''','no limit and more than a thousand items','the oldest items are discarded')
seed('C17-interrupt-not-stopped','C17',[(SI,'''    finally:
        stream_buffer.stop()
''','''    except Exception:
        stream_buffer.stop()
        raise
    else:
        stream_buffer.stop()
''')],'''
from stream2py.simply import mk_stream_buffer
log = []
try:
    with mk_stream_buffer(lambda i: None, open_stream=lambda: 1, close_stream=lambda i: log.append('close')) as s:
        raise KeyboardInterrupt
except KeyboardInterrupt: pass
import time; time.sleep(.5)
assert not s.is_running and log == ['close']
s.stop()
''','the context is left by a KeyboardInterrupt','the stream goes on')
seed('C18-enter-gives-open-result','C18',[(SR,'''        self.open()
        self._closed = False
        return self
''','''        result = self.open()
        self._closed = False
        return self if result is None else result
''')],SRC+'''
class O(Src):
    def open(self): super().open(); return True
o = O([1])
with o as x: assert x is o
''','a source whose open returns something','the context gives that instead of the source')
seed('C19-attr-cached','C19',[(UT,'''        return getattr(self.func, attrname)
''','''        value = getattr(self.func, attrname)
        if not callable(value):
            self.__dict__[attrname] = value
        return value
''')],'''
from stream2py.util import ContextualizeCall
class F:
    n = 0
    def __call__(self): self.n += 1
f = F(); g = ContextualizeCall(f)
g(); assert g.n == 1
g(); assert g.n == 2
''','an attribute of the wrapped callable changes after it was looked at','the old value is given')
seed('C20-head-body','C20',[(HT,'''        if method.upper() == 'GET':
            body = None
''','''        if method.upper() in ('GET', 'HEAD', 'OPTIONS'):
            body = None
''')],'''
from stream2py.sources.http import HTTPResponseReader
assert HTTPResponseReader('http://x/', method='OPTIONS', body='a')._request.data == b'a'
''','an OPTIONS request with a body','the body is not sent')
