import runpy
_p=runpy.run_path('/verif/tools/specs/s2.py'); S=_p['S']; R=_p['R']
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'; SS='stream2py/stream_source.py'
SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

seed('C02-find-gt-hint','C02',[(SC,'''        i = bisect_right(self._keys, k)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key above: %r' % (k,))
''','''        # readers ask for the same key until something new arrives
        known_k, i = getattr(self, '_gt_hint', (None, 0))
        if known_k is None or known_k != k or i >= len(self._items) or not self._keys[i] > k:
            i = bisect_right(self._keys, k)
            self._gt_hint = (k, i)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key above: %r' % (k,))
''')],R+'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 5, 7])
assert d.find_gt(4) == 5
d.remove(1)
assert d.find_gt(4) == 5, d.find_gt(4)
''','the same search before and after an earlier item is removed','find_gt gives a later item than the first one above the key')

seed('C04-append-remembers','C04',[(SD,'''        k = self._key(item)
        try:
            if not k > self._keys[-1]:
                raise ValueError(''','''        k = self._key(item)
        try:
            if not k > getattr(self, '_latest', self._keys[-1]):
                raise ValueError('''),(SD,'''        self._keys.append(k)
        self._items.append(item)
''','''        self._latest = k
        self._keys.append(k)
        self._items.append(item)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1], maxlen=5)
d.append(9); d.remove(9); d.append(4)
assert list(d) == [1, 4]
''','an append after the last item was removed','an item is refused although its key is above the last one')

seed('C04-limit-zero','C04',[(SD,'''        self._keys = deque(self._keys, maxlen=maxlen)
        self._items = deque(self._items, maxlen=maxlen)
''','''        self._keys = deque(self._keys, maxlen=maxlen or None)
        self._items = deque(self._items, maxlen=maxlen or None)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2, 3], maxlen=2)
d.maxlen = 0
assert list(d) == []
''','a limit of 0','the window is not limited')

seed('C03-cached-range','C03',[(SD,'''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''','''        request = (start, stop, step, len(self._keys), self._keys[-1] if self._keys else None)
        if getattr(self, '_last_request', None) != request:
            i = bisect_left(self._keys, start)
            j = bisect_right(self._keys, stop)
            self._last_request, self._last_range = request, self.range_by_index(i, j, step)
        return list(self._last_range)
''')],'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 3, 5, 9])
assert d.range(0, 4) == [1, 3]
d.remove(3); d.insert(2)
assert d.range(0, 4) == [1, 2], d.range(0, 4)
''','the same range asked again after an item was replaced','the items of the earlier answer are given')

seed('C01-equal-keys-removed','C01',[(SC,'''        i = self.index(item)
        del self._keys[i]
        del self._items[i]
''','''        i = bisect_left(self._keys, self._key(self._items[self.index(item)]))
        del self._keys[i]
        del self._items[i]
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
s = SortedCollection([(1, 'a'), (1, 'b')], key=lambda x: x[0])
s.remove((1, 'b'))
assert list(s) == [(1, 'a')], list(s)
''','items of equal keys, of which not the first is removed','another item is removed')

seed('C01-rekey-same-order','C01',[(SC,'''        if key is not self._key:
            self.__init__(self._items, key=key)
''','''        if key is not self._key:
            keys = [key(item) for item in self._items] if key else list(self._items)
            if keys == sorted(keys, reverse=True):
                self._items.reverse(); keys.reverse()
                self._given_key, self._key, self._keys = key, key or (lambda x: x), self._keys
            else:
                self.__init__(self._items, key=key)
''')],'''
from stream2py.utility.sorted_collection import SortedCollection
s = SortedCollection([1, 2, 3])
s.key = lambda x: -x
assert list(s) == [3, 2, 1]
assert s.find(-2) == 2
''','a new key that turns the order round','items are no longer found under their key')

seed('C07-falsy-key','C07',[(BR,'''                next_item = reader.find_gt(self.last_key)
            except ValueError as e:''','''                next_item = reader.find_gt(self.last_key or None)
            except ValueError as e:''',),(BR,'''                if self.last_item is None:  # first time reading a value from buffer
                    next_item = reader[0]
''','''                if not self.last_key:  # first time reading a value from buffer
                    next_item = reader[0]
''')],R+'''
b, e, r = mk([0, 1, 2])
assert [r.read(), r.read(), r.read()] == [0, 1, 2]
''','a key of 0','the first item is delivered again and again')

seed('C08-zero-overrides','C08',[(SS,'''        k: v if v is not None else defaults[k] for k, v in source_dict.items()
''','''        k: v if v is not None and v != '' and not (v is False and k == 'strict_n') else defaults[k]
        for k, v in source_dict.items()
''')],R+'''
b, e, r = mk([1, 2], read_size=5, strict_n=True)
assert r.read(strict_n=False) == [1, 2]
''','an option switched off for one call','the default of the reader is used')

seed('C09-only-new-falsy','C09',[(BR,'''            if only_new_items and self.last_key is not None:
''','''            if only_new_items and self.last_item:
''')],R+'''
b, e, r = mk([0, 1, 2])
r.read()
assert r.range(0, 2, only_new_items=True) == [1, 2]
''','a last seen item that is false','items already seen are delivered as new')

seed('C10-attach-late-info','C10',[(SB,'''        reader._buffer = self._buffer
        reader._stop_event = self._stop_event
        reader._source_reader_info = self._source_reader_info
''','''        if reader._buffer is not self._buffer:
            reader._buffer = self._buffer
            reader._source_reader_info = self._source_reader_info
        if not reader._stop_event.is_set():
            reader._stop_event = self._stop_event
''')],S+'''
s = Src([1, 2, 3], info=1)
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start(); r = b.mk_reader(); b.stop(); b.join(5)
b.start(); b.attach_reader(r)
try: assert not r.is_stopped
finally: b.stop(); b.join(5)
''','attaching a reader of a stream that has stopped','the reader keeps reporting the stop of its earlier stream')

seed('C12-growing-pause','C12',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
''','''                if data is not None:
                    self.source_buffer.append(data)
                    idle = 0
                else:
                    idle = min(locals().get('idle', 0) + 1, 8)
                    time.sleep(self._sleep_time_on_read_none_s * (1 if idle < 3 else 2))
''')],S+'''
import stream2py.stream_buffer as m
naps = []
class T:
    time = staticmethod(time.time)
    @staticmethod
    def sleep(s): naps.append(s) if s != 1 else None; time.sleep(0.005)
m.time = T
b = StreamBuffer(Src([]), sleep_time_on_read_none_s=0.25)
b.start(); wait(lambda: len(naps) > 5); b.stop(); b.join(5)
assert set(naps) == {0.25}, naps[:8]
''','several reads in a row without data','the pause is longer than configured')

seed('C12-repeated-value','C12',[(SB,'''                if data is not None:
                    self.source_buffer.append(data)
                else:''','''                if data is not None:
                    if data is not getattr(self, '_latest', None):
                        self.source_buffer.append(data)
                    self._latest = data
                else:''')],S+'''
class Mutable(Src):
    n = 0
    def read(self):
        self.n += 1
        return self.n if self.n < 4 else None
x = [1]
class Same(Src):
    seen = 0
    def read(self):
        self.seen += 1
        return self.values[0] if self.seen < 3 else None
    def key(self, data):
        self.k = getattr(self, 'k', 0) + 1
        return self.k
b = StreamBuffer(Same([x]), sleep_time_on_read_none_s=0.01)
b.start(); wait(lambda: len(b.source_buffer) == 2, 1)
try: assert len(b.source_buffer) == 2, len(b.source_buffer)
finally: b.stop(); b.join(5)
''','the same object read twice','the second one is not added')

seed('C13-close-before-flag','C13',[(SB,'''            if not self._stop_event.is_set():
                self._stop_event.set()
            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
''','''            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
            if not self._stop_event.is_set():
                self._stop_event.set()
''')],S+'''
class Quit(Src):
    def read(self): raise OSError('gone')
    def close(self): raise SystemExit
b = StreamBuffer(Quit(), sleep_time_on_read_none_s=0.01)
b.start(); b.join(5)
assert not b.is_running
''','a source whose close raises something that is no Exception','the stream is never marked stopped')

seed('C14-zero-limit','C14',[(SB,'''                    or self._maxlen is None
''','''                    or not self._maxlen
''')],S+'''
s = Src([1, 2, 3])
b = StreamBuffer(s, maxlen=0, auto_drop=False, sleep_time_on_read_none_s=0.01)
b.start(); time.sleep(0.2); b.stop(); b.join(5)
assert 'read' not in s.log
''','a limit of 0','values are read and thrown away')

seed('C15-event-reused','C15',[(SB,'''        self._stop_event = threading.Event()

    def _open''','''        if self._stop_event is not None:
            self._stop_event.clear()
        else:
            self._stop_event = threading.Event()

    def _open''')],S+'''
b = StreamBuffer(Src([1]), sleep_time_on_read_none_s=0.01)
b.start(); r = b.mk_reader(); b.stop(); b.join(5)
assert r.is_stopped
b.start()
try: assert r.is_stopped
finally: b.stop(); b.join(5)
''','a reader kept over a restart','the reader of the earlier session no longer sees that it has stopped')

seed('C16-closed-reader-reopened','C16',[(SS,'''        self._open_readers -= 1
        if self._open_readers <= 0:
            self.exit()
''','''        self._open_readers = max(self._open_readers - 1, 0)
        if self._open_readers == 0 and self._stream_buffer.is_running:
            self.exit()
            self._stream_buffer = None
''')],S+'''
from stream2py.stream_source import StreamSource
class Q(StreamSource):
    def __init__(self): super().__init__(); self.log = []
    def open(self): self.log.append('open')
    def read(self): return None
    def close(self): self.log.append('close')
    info = {}
    def key(self, data): return data
q = Q().configure_buffer(sleep_time_on_read_none_s=0.01, maxlen=3)
r = q.open_reader(); r.close()
time.sleep(0.1)
try: q.configure_buffer(maxlen=5)
except ValueError: pass
else: raise AssertionError('configured again')
''','configuring after all readers were closed','a stream that exists can be configured again')

seed('C17-close-falsy-instance','C17',[(SI,'''            if close_stream is not None:
                close_stream(self.open_instance)
''','''            if close_stream is not None and self.open_instance not in (None, -1, 0):
                close_stream(self.open_instance)
''')],'''
import time
from stream2py.simply import mk_stream_buffer
closed = []
with mk_stream_buffer(lambda o: None, lambda: 0, closed.append, sleep_time_on_read_none_seconds=0.01) as b: pass
b.join(5)
assert closed == [0], closed
''','an opened instance that is 0 (a file descriptor) or None','the instance is not closed')

seed('C18-close-decides','C18',[(SR,'''        self.close()
        self._closed = True

    enter''','''        swallow = self.close()
        self._closed = True
        return swallow

    enter''')],S+'''
class C(Src):
    def close(self): return 'bye'
try:
    with C(): raise KeyError
except KeyError: pass
else: raise AssertionError('swallowed')
''','a source whose close returns something','the exception is swallowed')

seed('C19-private-names','C19',[(UT,'''        return getattr(self.func, attrname)
''','''        func = self.func
        if attrname.startswith('_') and not attrname.startswith('__'):
            raise AttributeError(attrname)
        return getattr(func, attrname)
''')],'''
from stream2py.util import ContextualizeCall
def f(): pass
f._cache = 3
assert ContextualizeCall(f)._cache == 3
''','a private attribute','the attribute of the callable is not there')

seed('C19-forward-exit-result','C19',[(UT,'''    return obj.__self__.__exit__(*exception_info)
''','''    result = obj.__self__.__exit__(*exception_info)
    return result if exception_info[0] is None or issubclass(exception_info[0], Exception) else None
''')],'''
from stream2py.util import contextualize_with_instance
class A:
    def __enter__(self): return self
    def __exit__(self, t, e, tb): return True
    def f(self): return 1
with contextualize_with_instance(A().f): raise KeyboardInterrupt
''','an exit that swallows something other than an Exception','the result of the exit function is lost')

seed('C20-count-per-opening','C20',[(HT,'''        self._response = urllib.request.urlopen(self._request)
''','''        response = urllib.request.urlopen(self._request)
        self._response, self._n_bytes_read = response, 0
''')],'''
import urllib.request, io
from stream2py.sources.http import HTTPResponseReader
class Resp(io.BytesIO):
    def __exit__(self, *a): self.close()
urllib.request.urlopen = lambda req, *a, **kw: Resp(b'abc')
s = HTTPResponseReader('http://localhost/x')
for k in range(2):
    s.open(); s.read(); s.close()
assert s.info['n_bytes_read'] == 6, s.info
''','reading after opening a second time','the bytes of earlier openings are not counted')

seed('C20-shared-headers','C20',[(HT,'''        headers = headers or {}
''','''        headers = headers if headers is not None else {}
        if isinstance(body, str) and body and method.upper() != 'GET':
            headers.setdefault('Content-type', 'text/plain; charset=utf-8')
''')],'''
import urllib.request
from stream2py.sources.http import HTTPResponseReader
s = HTTPResponseReader('http://localhost/x', method='POST', body='a', headers={'X-a': '1'})
assert dict(s._request.header_items()) == {'X-a': '1'}, s._request.header_items()
''','a text body','a header that was not configured is sent')

seed('C21-readers-queue-late','C21',[(RW,'''        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
        self.__readers_queue.release()
''','''        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__no_readers.release()
        self.__read_switch.acquire(self.__no_writers)
        self.__readers_queue.release()
''')],'''
import threading, time
from stream2py.utility.reader_writer_lock import RWLock
l = RWLock()
no_readers, switch = l._RWLock__no_readers, l._RWLock__read_switch
l.reader_acquire()                      # a reader is in
passed, go, inside = threading.Event(), threading.Event(), threading.Event()
acquire = switch.acquire
def held_up(lock):
    passed.set(); go.wait(5); acquire(lock)
switch.acquire = held_up
t = threading.Thread(target=lambda: (l.reader_acquire(), inside.set()), daemon=True); t.start()
passed.wait(2)
w = threading.Thread(target=l.writer_acquire, daemon=True); w.start()
# the writer is registered as waiting if it holds no_readers
end = time.time() + 1
while l._RWLock__write_switch._LightSwitch__counter == 0 and time.time() < end: time.sleep(0.01)
registered = False
for k in range(20):
    time.sleep(0.01)
    m = l._RWLock__write_switch._LightSwitch__mutex
    registered = no_readers.locked() and not m.locked()
    if registered: break
waiting = registered and passed.is_set() and not go.is_set()
go.set()
# while the first reader is in and the writer waits, the second reader must not be let in
assert not (waiting and inside.wait(1)), 'a reader passed a waiting writer'
''','a writer that asks between the two steps of an arriving reader','the reader is admitted before the waiting writer')
