import runpy
_p=runpy.run_path('/verif/tools/specs/s6.py')
SC,SD,RW,BR,SB,SS,SR,SI,UT,HT,BUF,SRC=(_p[k] for k in ('SC','SD','RW','BR','SB','SS','SR','SI','UT','HT','BUF','SRC'))
LD='stream2py/utility/locked_sorted_deque.py'
BUF='''import threading
from stream2py import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
def buf(xs, maxlen=99, **kw):
    b = RWLockSortedDeque(xs, key=lambda x: x, maxlen=maxlen)
    return b, BufferReader(buffer=b, source_reader_info={}, stop_event=threading.Event(), **kw)
'''
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
seed('C01-rekey-single','C01',[(SC,'''        if key is not self._key:
            self.__init__(self._items, key=key)
''','''        if key is not self._key:
            if key is not None and len(self._items) == 1:  # nothing to sort
                self._given_key = self._key = key
            else:
                self.__init__(self._items, key=key)
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
c = SortedCollection([3]); c.key = lambda x: -x
c.insert(5)
assert list(c) == [5, 3] and c.find(-3) == 3, list(c)
''','a new key function for a collection of one item','the item is searched under its old key')
seed('C01-remove-last','C01',[(SC,'''        i = self.index(item)
        del self._keys[i]
        del self._items[i]
''','''        i = -1 if self._items and self._items[-1] == item else self.index(item)
        del self._keys[i]
        del self._items[i]
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
class X:
    def __init__(s, n): s.n = n
    def __eq__(s, o): return True
a, b = X(1), X(2)
c = SortedCollection([a, b], key=lambda x: x.n)
c.remove(a)
assert list(c)[0] is b and c.find(2) is b
''','equal items under different or equal keys','not the first matching item is removed')
seed('C02-last-gt-run','C02',[(SD,'''            if self._keys[-1] > k:
                return self._items[-1]
''','''            if self._keys[-1] > k:
                return self._items[bisect_left(self._keys, self._keys[-1])]
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([(1, 'a'), (2, 'b'), (2, 'c')], key=lambda x: x[0])
assert d.find_last_gt(1) == (2, 'c')
''','several items share the last key','not the last item above the key is given')
seed('C02-index-run-limit','C02',[(SD,'''        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return self._items.index(item, i, j)
''','''        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k, i, min(len(self._keys), i + 64))
        return self._items.index(item, i, j)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([(1, i) for i in range(100)], key=lambda x: x[0])
assert d.index((1, 80)) == 80
''','more than 64 items share a key','position lookup does not find the later ones')
seed('C03-stop-after-match','C03',[(SD,'''        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''','''        j = bisect_left(self._keys, stop)
        if j < len(self._keys) and self._keys[j] == stop:
            j += 1
        return self.range_by_index(i, j, step)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([(1, 'a'), (2, 'b'), (2, 'c'), (3, 'd')], key=lambda x: x[0])
assert d.range(1, 2) == [(1, 'a'), (2, 'b'), (2, 'c')]
''','several items share the stop key','all but the first item with the stop key are missing')
seed('C04-drop-half','C04',[(SD,'''        for _ in range(n):
            del self._keys[0]
            del self._items[0]
''','''        few_remain = 1 < n < len(self._items) <= 2 * n
        if few_remain:
            self._keys = deque(islice(self._keys, n, None))
            self._items = deque(islice(self._items, n, None))
        for _ in range(0 if few_remain else n):
            del self._keys[0]
            del self._items[0]
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque(range(4), maxlen=4)
d.drop(3)
for i in range(4, 9): d.append(i)
assert list(d) == [5, 6, 7, 8], list(d)
''','at least half of a size-limited window is dropped','the window forgets its limit')
seed('C04-unlimit-in-name','C04',[(SD,'''    def _delmaxlen(self):
        self._setmaxlen(None)
''','''    def _delmaxlen(self):
        self._maxlen = None
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque(range(3), maxlen=3)
del d.maxlen
d.append(3)
assert d.maxlen is None and list(d) == [0, 1, 2, 3]
''','the limit is deleted','items are still evicted at the old limit')
seed('C05-nested-reading','C05',[(LD,'''        try:
            self.reader_acquire()
            yield self._sorted_deque
        finally:
            self.reader_release()
''','''        nested = getattr(self, '_reading', False)  # already open for reading
        try:
            nested or self.reader_acquire()
            self._reading = True
            yield self._sorted_deque
        finally:
            if not nested:
                self._reading = False
                self.reader_release()
''')],'''
import threading
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
d = RWLockSortedDeque(range(3))
inside, leave, wrote = threading.Event(), threading.Event(), threading.Event()
def first():
    with d.reader_lock():
        inside.set(); leave.wait(5)
t = threading.Thread(target=first); t.start(); inside.wait()
with d.reader_lock():
    leave.set(); t.join()
    def w():
        with d.writer_lock() as x: x.append(9)
        wrote.set()
    u = threading.Thread(target=w, daemon=True); u.start()
    assert not wrote.wait(.3)
''','a second reader enters while another one is inside and stays longer','a writer enters while it is still reading')
seed('C07-peek-cached','C07',[(BR,'''        with self._buffer.reader_lock() as reader:
            try:
                next_item = reader.find_gt(self.last_key)
''','''        with self._buffer.reader_lock() as reader:
            try:
                peeked, self._peeked = getattr(self, '_peeked', None), None
                if peeked is not None and peeked[0] is self.last_item and n == 1:
                    next_item = peeked[1]  # found by the peek before
                else:
                    next_item = reader.find_gt(self.last_key)
                if peek and n == 1:
                    self._peeked = self.last_item, next_item
''')],BUF+'''
b, r = buf([1, 2, 3], maxlen=3)
r.read(); assert r.read(peek=True) == 2
with b.writer_lock() as w: w.drop(2)
assert r.read() == 3
''','the peeked item is evicted before the read','an item that is not buffered any more is delivered')
seed('C08-blocking-peeks-default','C08',[(BR,'''                _read = self.read(
                    n,
                    peek=peek,
                    ignore_no_item_found=True,
''','''                _read = self.read(
                    n,
                    peek=peek or None,
                    ignore_no_item_found=True,
''')],BUF+'''
b, r = buf([1, 2, 3], peek=True)
assert r.read(peek=False, blocking=True) == 1
assert r.last_item == 1, r.last_item
''','a blocking read told not to peek, of a reader that peeks by default','the option given is overridden by the default')
seed('C09-head-same-object','C09',[(BR,'''            item = reader[0]
        if not peek:
            self.last_item = item
        return item
''','''            item = reader[0]
        if not peek and item != self._last_item:
            self.last_item = item
        return item
''')],'''
import threading
from stream2py import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
class X:
    def __init__(s, n): s.n = n
    def __eq__(s, o): return True
xs = [X(1), X(2), X(3)]
b = RWLockSortedDeque(xs, key=lambda x: x.n, maxlen=9)
r = BufferReader(buffer=b, source_reader_info={}, stop_event=threading.Event())
assert r.tail() is xs[2] and r.head() is xs[0]
assert r.last_item is xs[0] and r.last_key == 1
''','the oldest item compares equal to the last seen one','the cursor stays where it was')
seed('C11-stream-iter-shares','C11',[(SB,'''        reader = self.mk_reader()
        yield from iter(reader)
''','''        reader = self.mk_reader()
        while self.is_running:
            x = reader.read(ignore_no_item_found=True)
            if x is not None:
                yield x
            else:
                time.sleep(0.1)
''')],SRC+'''
from stream2py import StreamBuffer, SourceReader
class S(SourceReader):
    n = 0
    def open(self): pass
    def close(self): pass
    def key(self, x): return x
    sleep_time_on_read_none_s = .01
    def read(self):
        self.n += 1
        if self.n > 5: raise OSError
        return self.n
threading.excepthook = lambda *a: None
s = StreamBuffer(S()); s.start()
while s.is_running: time.sleep(.01)
got = []
for x in s: got.append(x)
assert got == [1, 2, 3, 4, 5], got
''','the stream stops before its iteration has got to the end','items buffered before the stop are lost')
seed('C12-pause-capped','C12',[(SB,'''                else:
                    time.sleep(self._sleep_time_on_read_none_s)
        finally:
''','''                else:
                    self._stop_event.wait(min(self._sleep_time_on_read_none_s, 1))
        finally:
''')],SRC+'''
from stream2py import StreamBuffer, SourceReader
class S(SourceReader):
    t = ()
    def open(self): pass
    def close(self): pass
    def key(self, x): return x
    sleep_time_on_read_none_s = 1.5
    def read(self):
        self.t += (time.time(),)
s = StreamBuffer(S()); s.start(); time.sleep(1.3)
assert len(s.source_reader.t) == 1
s._stop_event.set()
''','a configured pause of more than a second','the source is asked again too early')
seed('C14-gives-up-when-full','C14',[(SB,'''                else:
                    data = None

                if data is not None:
''','''                else:
                    data, self._full = None, getattr(self, '_full', 0) + 1
                    if self._full > 25:  # nobody takes anything
                        break

                if data is not None:
''')],SRC+'''
from stream2py import StreamBuffer, SourceReader
class S(SourceReader):
    n = 0
    def open(self): pass
    def close(self): pass
    def key(self, x): return x
    sleep_time_on_read_none_s = .01
    def read(self):
        self.n += 1
        return self.n
s = StreamBuffer(S(), maxlen=2, auto_drop=False); s.start(); time.sleep(.6)
assert s.is_running
s.drop(); time.sleep(.1)
r = s.mk_reader(); assert r.read(n=2) == [2, 3]
s._stop_event.set()
''','the buffer stays full for a while','reading does not resume after room is made')
seed('C15-open-retried','C15',[(SB,'''        self.source_reader.open()
        self.source_buffer = _SourceBuffer(
''','''        try:
            self.source_reader.open()
        except OSError:  # not ready yet
            self.source_reader.open()
        self.source_buffer = _SourceBuffer(
''')],SRC+'''
from stream2py import StreamBuffer, SourceReader
class S(SourceReader):
    n = 0
    def open(self):
        self.n += 1
        if self.n == 1: raise OSError('no')
    def close(self): pass
    def key(self, x): return x
    def read(self): return None
s = StreamBuffer(S())
try: s.start()
except OSError: pass
else: assert 0, 'error swallowed'
assert s.source_reader.n == 1 and not s.is_running
''','opening fails with an OSError','the source is opened twice and the error is not raised')
seed('C15-class-once','C15',[(SB,'''            buffer_reader_class=getattr(
                self.source_reader, 'buffer_reader_class', BufferReader
            ),
''','''            buffer_reader_class=self.__dict__.setdefault(
                '_reader_class', getattr(self.source_reader, 'buffer_reader_class', BufferReader)
            ),
''')],SRC+'''
from stream2py import StreamBuffer, SourceReader, BufferReader
class R(BufferReader): pass
class S(SourceReader):
    buffer_reader_class = BufferReader
    def open(self): pass
    def close(self): pass
    def key(self, x): return x
    sleep_time_on_read_none_s = .01
    def read(self): return None
s = StreamBuffer(S()); s.start(); s.stop()
s.source_reader.buffer_reader_class = R
s.start(); assert type(s.mk_reader()) is R
s.stop()
''','the source changes its reader class between two starts','the later session uses the class of the first')
seed('C16-onclose-on-class','C16',[(SS,'''        new_reader.onclose = self._handle_reader_closed
        return new_reader
''','''        if type(new_reader).onclose is None:
            new_reader.onclose = self._handle_reader_closed
        return new_reader
''')],SRC+'''
from stream2py import StreamSource, BufferReader
class R(BufferReader):
    def onclose(self): pass
class S(StreamSource):
    o = 0
    def open(self): self.o += 1
    def close(self): self.o -= 1
    def key(self, x): return x
    info = {}
    sleep_time_on_read_none_s = .01
    def read(self): return None
s = S(reader_cls=R); r = s.open_reader(); r.close()
time.sleep(.3); assert s.o == 0, 'still running'
''','a reader class with an onclose of its own','the source keeps running after the last reader was closed')
seed('C17-auto-drop-unlimited','C17',[(SI,'''        sleep_time_on_read_none_s=sleep_time_on_read_none_seconds,
        auto_drop=auto_drop,
    )
''','''        sleep_time_on_read_none_s=sleep_time_on_read_none_seconds,
        auto_drop=auto_drop and maxlen is not None,
    )
''')],'''
import time
from stream2py.simply import mk_stream_buffer
with mk_stream_buffer(lambda o: None, maxlen=None, sleep_time_on_read_none_seconds=.01) as s:
    assert s.auto_drop is True
    try: s.drop()
    except RuntimeError: pass
    else: assert 0
''','automatic dropping without a limit','the auto-drop argument is not used as given')
seed('C19-enter-or-self','C19',[(UT,'''        return self.enter_func(self.func)
''','''        entered = self.enter_func(self.func)
        return self if entered is self.func else entered
''')],'''
from stream2py.util import ContextualizeCall
f = lambda: 1
with ContextualizeCall(f, enter_func=lambda g: g) as h: assert h is f
''','an enter function that returns the callable','entering does not return what the enter function returned')
seed('C19-kwargs-positional','C19',[(UT,'''        return self.func(*args, **kwargs)
''','''        try:
            return self.func(*args, **kwargs)
        except TypeError:
            if args or not kwargs:
                raise
            return self.func(*kwargs.values())  # positional only
''')],'''
from stream2py.util import ContextualizeCall
def f(x, /): return x
g = ContextualizeCall(f)
try: g(x=3)
except TypeError: pass
else: assert 0
''','keyword arguments for a positional-only parameter','the exception of the callable is not propagated and it is called with other arguments')
