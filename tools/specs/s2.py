BR='stream2py/buffer_reader.py'
SB='stream2py/stream_buffer.py'
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
R='''
import threading
from stream2py.buffer_reader import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
def mk(items, key=None, maxlen=None, **kw):
    b = RWLockSortedDeque(items, key=key, maxlen=maxlen); e = threading.Event()
    return b, e, BufferReader(b, {}, e, **kw)
def raises(exc, f, *a, **kw):
    try: r = f(*a, **kw)
    except exc: return True
    raise AssertionError('returned %r' % (r,))
'''
S='''
import os, sys, threading, time
from stream2py import StreamBuffer, SourceReader
class Src(SourceReader):
    def __init__(self, values=(), info=None): self.values = list(values); self.log = []; self._info = info
    def open(self): self.log.append('open'); self.it = iter(self.values)
    def read(self):
        self.log.append('read'); v = next(self.it, None)
        if isinstance(v, BaseException): raise v
        return v() if callable(v) else v
    def close(self): self.log.append('close')
    @property
    def info(self): return self._info
    def key(self, data): return data
def wait(cond, t=5):
    end = time.time() + t
    while not cond() and time.time() < end: time.sleep(0.01)
    return cond()
threading.excepthook = lambda a: None
'''

seed('C07-chunk-in-two-steps','C07',[(BR,
'''            if n > 1:
                i = reader.index(next_item)
                j = i + n
''',
'''        with self._buffer.reader_lock() as window:
            if n > 1:
                i = window.index(next_item)
                j = i + n
''')],
R+'''
b, e, r = mk(range(3), maxlen=3)
# the source adds an item (and the oldest one is evicted) between two uses of the lock
n = [0]
release = b.reader_release
def release_then_write():
    release(); n[0] += 1
    if n[0] == 1:
        with b.writer_lock() as d: d.append(3)
b.reader_release = release_then_write
got = r.read(n=2)
assert got in ([0, 1], [1, 2]), got
assert r.last_item == got[-1]
''','a full window whose oldest item is evicted between finding the next item and cutting out the chunk',
'the read fails although there are new items')

seed('C07-cursor-same-item','C07',[(BR,
'''        self._last_key = self._buffer.key(item)
        self._last_item = item
''',
'''        if item is None or item != self._last_item:
            self._last_key = self._buffer.key(item)
        self._last_item = item
''')],
R+'''
class Tick:
    """a value with a time stamp; values are compared without it"""
    def __init__(self, t, v): self.t, self.v = t, v
    def __eq__(self, other): return isinstance(other, Tick) and self.v == other.v
    def __hash__(self): return hash(self.v)
b, e, r = mk([Tick(1, 'x'), Tick(2, 'x'), Tick(3, 'y')], key=lambda i: i.t)
ts = [r.read().t, r.read().t, r.read().t]
assert ts == [1, 2, 3], ts
''','successive items that compare equal but have different keys',
'the cursor key stays behind and the same item is delivered again')

seed('C07-chunk-of-all','C07',[(BR,
'''                next_items_list = reader.range_by_index(i, j)
                if not peek:
''',
'''                next_items_list = (
                    reader.range_by_index(i, j) if n < len(reader) else list(reader)
                )
                if not peek:
''')],
R+'''
b, e, r = mk(range(5))
assert r.read(n=2) == [0, 1]
got = r.read(n=5)
assert got == [2, 3, 4], got
''','asking for at least as many items as the window holds when some of them have been seen',
'items already delivered are delivered again')

seed('C08-blocking-ignores-strict','C08',[(BR,
'''                    ignore_no_item_found=True,
                    strict_n=strict_n,
                    blocking=False,
''',
'''                    ignore_no_item_found=True,
                    blocking=False,
''')],
R+'''
b, e, r = mk([1, 2])
raises(ValueError, r.read, 3, strict_n=True)
raises(ValueError, r.read, 3, strict_n=True, blocking=True)
assert r.last_item is None
b, e, r = mk([1, 2], strict_n=True)
assert r.read(3, strict_n=False, blocking=True) == [1, 2]
''','a blocking read with strict_n given to the call and different from that of the reader',
'the given strict_n is ignored by blocking reads')

seed('C08-cursor-before-strict','C08',[(BR,
'''                j = i + n
                if strict_n and j > len(reader):
                    raise ValueError(
''',
'''                j = i + n
                if not peek:
                    self.last_item = reader[min(j, len(reader)) - 1]
                if strict_n and j > len(reader):
                    raise ValueError(
'''),(BR,
'''                next_items_list = reader.range_by_index(i, j)
                if not peek:
                    self.last_item = next_items_list[-1]
                return next_items_list
''',
'''                return reader.range_by_index(i, j)
''')],
R+'''
b, e, r = mk([1, 2, 3])
assert r.read() == 1
raises(ValueError, r.read, 3, strict_n=True)
assert r.last_item == 1, r.last_item
assert r.read(2, strict_n=True) == [2, 3]
''','a strict read that fails because too few items are there',
'the failed read moves the cursor, the items are lost for the reader')

seed('C08-strict-off-when-ignoring','C08',[(BR,
'''        if blocking is True:
            while True:
''',
'''        strict_n = strict_n and not ignore_no_item_found
        if blocking is True:
            while True:
'''),(BR,'''                    blocking=False,
                )
                if _read is not None:
''','''                    blocking=False,
                )
                if _read is not None:  # items found
''')],
R+'''
b, e, r = mk([1, 2, 3])
assert r.read(2, strict_n=True, ignore_no_item_found=True) == [1, 2]
raises(ValueError, r.read, 2, strict_n=True, ignore_no_item_found=True)
assert r.last_item == 2
''','strict_n together with ignore_no_item_found and some, but too few, new items',
'the strict read delivers fewer items than asked for')

seed('C09-start-le-before-new','C09',[(BR,
"                    _start = reader.key(reader.find_le(_start))\n",
"                    _start = reader.key(reader.find_le(start))\n")],
R+"""
b, e, r = mk([0, 10, 20, 30])
assert r.range(9, 25, start_le=True, peek=True) == [0, 10, 20]
r.last_item = 10
assert r.range(20, 35, start_le=True, only_new_items=True, peek=True) == [20, 30]
got = r.range(5, 35, start_le=True, only_new_items=True, peek=True)
assert got == [20, 30], got
""",'start rounding together with only new items, the start lying before the cursor',
'items already seen are delivered as new')

seed('C09-stop-ge-exact','C09',[(BR,
'                    stop = reader.key(reader.find_ge(stop))\n',
'''                    last = reader.key(reader[-1]) if len(reader) else None
                    stop = last if stop == last else reader.key(reader.find_gt(stop))
''')],
R+'''
b, e, r = mk([0, 10, 20, 30])
assert r.range(0, 15, stop_ge=True, peek=True) == [0, 10, 20]
assert r.range(0, 30, stop_ge=True, peek=True) == [0, 10, 20, 30]
raises(ValueError, r.range, 0, 31, stop_ge=True)
got = r.range(0, 10, stop_ge=True, peek=True)
assert got == [0, 10], got
''','stop rounding with a stop that is itself a key, but not the last one',
'one item too many is delivered')

seed('C09-explicit-do-not-ignore','C09',[(BR,
'''        if ignore_no_item_found is None:
            ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
''',
'''        ignore_no_item_found = ignore_no_item_found or self._read_kwargs.get(
            'ignore_no_item_found', False
        )
''')],
R+'''
b, e, r = mk([0, 10], ignore_no_item_found=True)
assert r.range(3, 4) is None
try:
    got = r.range(3, 4, ignore_no_item_found=False)
except (ValueError, IndexError):
    pass
else:
    raise AssertionError('returned %r' % (got,))
''','a reader that ignores missing items by default and a range asked not to',
'the range returns None instead of raising')

seed('C09-tail-new-by-item','C09',[(BR,
'                    item = reader.find_last_gt(self.last_key)\n',
'''                    item = reader[-1] if len(reader) else reader.find_last_gt(self.last_key)
                    if item == self.last_item:
                        raise ValueError('No new item')
''')],
R+'''
b, e, r = mk([1, 2, 3])
assert r.tail(only_new_items=True) == 3
assert r.tail(only_new_items=True, ignore_no_item_found=True) is None
raises(ValueError, r.tail, only_new_items=True)
r.last_item = 7      # seen in another buffer, which was ahead
got = r.tail(only_new_items=True, ignore_no_item_found=True)
assert got is None, got
''','a cursor beyond the newest buffered item',
'tail delivers an item that is older than the cursor as new')

seed('C10-shared-options','C10',[(BR,
'''        self._read_kwargs = dict(
            n=self.read_size,
            peek=self.peek,
            ignore_no_item_found=self.ignore_no_item_found,
            strict_n=self.strict_n,
        )
''',
'''        self._read_kwargs.update(
            n=self.read_size,
            peek=self.peek,
            ignore_no_item_found=self.ignore_no_item_found,
            strict_n=self.strict_n,
        )
'''),(BR,
'''    onclose: Callable = None
''',
'''    _read_kwargs: dict = {}
    onclose: Callable = None
''')],
R+'''
b, e, r = mk(range(4), read_size=2)
assert r.read() == [0, 1]
r2 = BufferReader(b, {}, e, peek=True)
got = r.read()
assert got == [2, 3], got
''','a second reader with other options made before the first one reads',
'the new reader changes the options of the earlier ones')

seed('C10-attach-keeps-stop','C10',[(SB,
'''        reader._buffer = self._buffer
        reader._stop_event = self._stop_event
''',
'''        reader._buffer = self._buffer
        if reader._stop_event.is_set():  # its own stream is over
            reader._stop_event = self._stop_event
''')],
S+'''
a, b = StreamBuffer(Src([1, 2])), StreamBuffer(Src([5, 6]))
a.start(); b.start()
r = a.mk_reader()
b.attach_reader(r)
a.stop()
assert wait(lambda: len(b.source_buffer) == 2)
assert r.read() == 5
assert r.is_stopped is False, 'the reader sees the stop of the stream it left'
b.stop()
assert r.is_stopped is True
''','a reader attached to another buffer while its first stream still runs',
'the reader keeps following the stop state of the stream it left')

seed('C10-range-hands-out-shared-list','C10',[(BR,
'''            items = reader.range(_start, stop, step)
''',
'''            whole = getattr(reader, 'whole', None)
            if whole is None or len(whole) != len(reader) or whole[-1:] != [reader[-1]]:
                whole = reader.whole = list(reader)
            if (
                step is None
                and whole
                and not reader.key(whole[0]) < _start
                and not reader.key(whole[-1]) > stop
            ):
                items = whole  # everything: no need to search
            else:
                items = reader.range(_start, stop, step)
''')],
R+'''
b, e, r = mk([1, 2, 3, 4])
r2 = BufferReader(b, {}, e)
got = r.range(0, 9)
assert got == [1, 2, 3, 4]
got[0] = 7
got2 = r2.range(0, 9)
assert got2 == [1, 2, 3, 4], got2
''','two ranges over the whole window with the first list changed by its owner in between',
'the list handed out is shared with later queries and other readers')

seed('C11-falsy-items','C11',[(BR,
'''            if _next is not None:
                yield _next
''',
'''            if _next:
                yield _next
''')],
R+'''
b, e, r = mk([-1, 0, 1])
e.set()
got = list(r)
assert got == [-1, 0, 1], got
''','items that are falsy (0, empty)',
'a loop over the reader leaves them out')

seed('C11-eager-end','C11',[(BR,
'''            else:
                time.sleep(self._sleep_time_on_iter_none_s)

    def __next__(self):
''',
'''            elif not self.is_stopped:
                time.sleep(self._sleep_time_on_iter_none_s)
            else:
                return

    def __next__(self):
''')],
R+'''
b, e, r = mk([1])
it = iter(r)
assert next(it) == 1
# between the look into the buffer (nothing new) and what the loop does next, the source delivers
# its last item and the stream stops
orig = BufferReader.read
n = [0]
def read(self, *a, **kw):
    got = orig(self, *a, **kw)
    n[0] += 1
    if n[0] == 1 and got is None:
        with b.writer_lock() as d: d.append(2)
        e.set()
    return got
BufferReader.read = read
got = list(it)
assert got == [2], got
''','the last item being buffered and the stream stopped right after the loop looked into the buffer',
'the loop ends with an item undelivered')

seed('C11-next-chunk','C11',[(BR,
"        self._read_kwargs_for_next = dict(self._read_kwargs, ignore_no_item_found=True)\n",
"        self._read_kwargs_for_next = dict(\n            self._read_kwargs, ignore_no_item_found=True, strict_n=False\n        )\n")],
R+'''
b, e, r = mk([1, 2, 3], read_size=2, strict_n=True)
assert next(r) == [1, 2]
try:
    got = next(r)
except ValueError:
    got = 'ValueError'
assert got == 'ValueError', got      # just as r.read() would
''','iterating with a chunk size and strict_n, with fewer items than a chunk left',
'iteration delivers something else than default reads')

seed('C12-zero-pause','C12',[(SB,
'''        if isinstance(sleep_time_on_read_none_s, (int, float)):
''',
'''        if sleep_time_on_read_none_s:
''')],
S+'''
class Slow(Src):
    sleep_time_on_read_none_s = 30
s = Slow([None, 1])
b = StreamBuffer(s, sleep_time_on_read_none_s=0)
b.start()
ok = wait(lambda: len(b.source_buffer) == 1, 4)
assert ok, s.log
b.stop()
''','a pause of 0 given explicitly while the source names its own',
'the pause of the source is used instead of the given one')

seed('C12-retry-append','C12',[(SB,
'''                if data is not None:
                    self.source_buffer.append(data)
                else:
''',
'''                if data is not None:
                    try:
                        self.source_buffer.append(data)
                    except ValueError as e:  # late data
                        logger.warning(e)
                else:
''')],
S+'''
s = Src([1, 3, 2, 4])
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start()
wait(lambda: not b.is_running or len(s.log) > 6, 4)
r = b.mk_reader()
assert r.range(0, 9) == [1, 3], r.range(0, 9)
assert not b.is_running, 'a value that was read is lost and the stream goes on'
''','a source delivering a value out of order',
'the value is silently dropped and the stream goes on as if nothing was lost')

seed('C13-close-narrow','C13',[(SB,
'''            except Exception as e:
                logger.error(e)
''',
'''            except (OSError, RuntimeError) as e:
                logger.error(e)
''')],
S+'''
escaped = []
threading.excepthook = lambda a: escaped.append(a.exc_type)
class Bad(Src):
    def close(self): super().close(); raise AttributeError('never opened')
s = Bad([1, 2])
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start(); wait(lambda: len(b.source_buffer) == 2)
b.stop(); b.join(5)
assert s.log.count('close') == 1
assert not escaped, escaped
''','a source whose close fails with an error other than OSError or RuntimeError',
'the error while closing escapes')

seed('C13-stop-closes-slow-source','C13',[(SB,
'''        self._stop_event.set()
        time.sleep(1)
        self._next_reader = None
''',
'''        self._stop_event.set()
        self._read_to_buffer_thread.join(1)
        if self._read_to_buffer_thread.is_alive():
            # stuck in read: closing the source makes it return
            with suppress(Exception):
                self.source_reader.close()
        self._next_reader = None
'''),(SB,'import logging\n','import logging\nfrom contextlib import suppress\n')],
S+'''
go = threading.Event()
def slow():
    go.wait(8); return 2
s = Src([1, slow])
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start(); wait(lambda: s.log.count('read') == 2)
b.stop()
early = list(s.log)
go.set(); b.join(10)
assert 'close' not in early, early
assert s.log.count('close') == 1 and s.log[-1] == 'close', s.log
''','a stop while the source is blocked in read for more than a second',
'the source is closed during a read, and twice')

seed('C13-stop-only-if-healthy','C13',[(SB,
'''        finally:
            if not self._stop_event.is_set():
                self._stop_event.set()
            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
''',
'''        finally:
            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
                return
            if not self._stop_event.is_set():
                self._stop_event.set()
''')],
S+'''
class Bad(Src):
    def close(self): super().close(); raise OSError('gone')
s = Bad([1, RuntimeError('unplugged')])
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start(); b.join(5)
assert s.log == ['open', 'read', 'read', 'close'], s.log
assert not b.is_running and b.mk_reader().is_stopped
''','a failing read followed by a failing close',
'the stream is never marked stopped, readers wait forever')

seed('C14-none-means-default','C14',[(SB,
'''            maxlen=self._maxlen,
            buffer_reader_class=getattr(
''',
'''            maxlen=self._maxlen or DFLT_MAX_LEN,
            buffer_reader_class=getattr(
''')],
S+'''
n = 10050
s = Src(range(n))
b = StreamBuffer(s, maxlen=None, auto_drop=False, sleep_time_on_read_none_s=0.01)
b.start()
assert wait(lambda: s.log.count('read') > n, 60)
r = b.mk_reader()
first = r.head()
b.stop()
assert first == 0 and len(b.source_buffer) == n, (first, len(b.source_buffer))
''','an unlimited buffer receiving more than 10000 items',
'the oldest items are evicted')

seed('C14-drop-after-stop','C14',[(SB,
'''        if self.auto_drop is True:
            raise RuntimeError(
''',
'''        if self.auto_drop is True and self.is_running:
            raise RuntimeError(
''')],
S+'''
b = StreamBuffer(Src([1, 2, 3]), maxlen=10, sleep_time_on_read_none_s=0.01)
b.start(); assert wait(lambda: len(b.source_buffer) == 3)
for stop in (False, True):
    if stop: b.stop()
    try:
        b.drop(1)
    except RuntimeError:
        pass
    else:
        raise AssertionError('dropped; stopped: %s' % stop)
    assert len(b.source_buffer) == 3
''','a manual drop on a stopped buffer with automatic dropping',
'the items are dropped instead of raising RuntimeError')

seed('C14-room-before-pause','C14',[(SB,
'''                    data = self.source_reader.read()
                else:
                    data = None
''',
'''                    while (data := self.source_reader.read()) is None:
                        # there is room: only the source has to be waited for
                        if self._stop_event.is_set():
                            break
                        time.sleep(self._sleep_time_on_read_none_s)
                    if data is not None and self._maxlen and self._maxlen > 1:
                        # sources often deliver in bursts
                        self.source_buffer.append(data)
                        data = self.source_reader.read()
                else:
                    data = None
''')],
S+'''
s = Src(range(1, 9))
b = StreamBuffer(s, maxlen=4, auto_drop=False, sleep_time_on_read_none_s=0.01)
b.start(); time.sleep(0.3)
r = b.mk_reader()
assert r.range(0, 9, peek=True) == [1, 2, 3, 4]
b.drop(1); time.sleep(0.3)
got = r.range(0, 9, peek=True)
b.stop()
assert got == [2, 3, 4, 5], got
''','automatic dropping off and room for exactly one item when the source is asked',
'two items are read, the second one evicts the oldest')

seed('C15-running-while-alive','C15',[(SB,
'            return self._stop_event is not None and not self._stop_event.is_set()\n',
'''            thread = self._read_to_buffer_thread
            return thread is not None and thread.is_alive()
''')],
S+'''
go = threading.Event()
def slow():
    go.wait(8); return 2
b = StreamBuffer(Src([1, slow]), sleep_time_on_read_none_s=0.01)
assert b.is_running is False
b.start(); assert b.is_running is True
wait(lambda: len(b.source_buffer) == 1)
b.stop()
running = b.is_running
go.set(); b.join(5)
assert running is False
''','a stop while the source is blocked in a long read',
'the stopped buffer still says that it is running')

seed('C15-info-of-first-start','C15',[(SB,
'''            source_reader_info=self.source_reader.info,
''',
'''            source_reader_info=self._info_of_source(),
'''),(SB,
'''    def _open(self):
''',
'''    def _info_of_source(self):
        if getattr(self, '_last_info', None) is None or self._last_info.get(
            'open_count', 0
        ) != self.source_reader.info.get('open_count', 0):
            self._last_info = self.source_reader.info
        return self._last_info

    def _open(self):
''')],
S+'''
s = Src([1], info={'port': 1})
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start(); assert b.source_reader_info == {'port': 1}; b.stop()
s._info = {'port': 2}
b.start()
info = b.source_reader_info; ri = b.mk_reader().source_reader_info
b.stop()
assert info == ri == {'port': 2}, (info, ri)
''','a restart after the info of the source has changed',
'the new session shows the info of the first one')

seed('C15-stop-forgets-buffer','C15',[(SB,
'''        if self._stop_event and not self._stop_event.is_set():
            self.stop()
        # the previous run''',
'''        if (
            self._stop_event
            and self._stop_event.is_set()
            and self.source_buffer is not None
            and self._read_to_buffer_thread.is_alive()
        ):
            # stopped a moment ago and not yet closed: just go on
            pass
        elif self._stop_event and not self._stop_event.is_set():
            self.stop()
        # the previous run'''),(SB,
'''        self.source_buffer = None
        self._next_reader = None
        self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
''','''        self._next_reader = None
        self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
''')],
S+'''
class Bad(Src):
    fail = False
    def open(self):
        if self.fail: raise OSError('no device')
        super().open()
s = Bad([1])
b = StreamBuffer(s, sleep_time_on_read_none_s=0.01)
b.start(); assert wait(lambda: len(b.source_buffer) == 1); b.stop()
s.fail = True
try: b.start()
except OSError: pass
assert not b.is_running
from stream2py.exceptions import StreamNotStartedError
try:
    r = b.mk_reader(); seen = r.read(ignore_no_item_found=True)
except StreamNotStartedError:
    seen = None
assert seen is None, seen
''','x','x') if False else None
SEEDS=[s for s in SEEDS if s and s['needs']!='x']
