SC='stream2py/utility/sorted_collection.py'
SD='stream2py/utility/sorted_deque.py'
RW='stream2py/utility/reader_writer_lock.py'
LD='stream2py/utility/locked_sorted_deque.py'
SEEDS=[]
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

seed('C01-copy-forgets-limit','C01',[(SD,
'        return self.__class__(self, self._key, self._maxlen)\n',
'        return self.__class__(self, self._key)\n')],
'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1, 2, 3], maxlen=3)
c = d.copy()
assert list(c) == [1, 2, 3]
c.append(4)
assert c.maxlen == 3 and list(c) == [2, 3, 4], list(c)
assert list(d) == [1, 2, 3]
''','a copy of a size-limited deque that is then filled beyond the limit',
'the copy has no size limit')

seed('C01-remove-by-equality','C01',[(SC,
'''        del self._keys[i]
        del self._items[i]

    def find(''',
'''        del self._keys[i]
        self._items.remove(item)

    def find(''')],
'''
from stream2py.utility.sorted_deque import SortedDeque
from stream2py.utility.sorted_collection import SortedCollection
for cls in (SortedCollection, SortedDeque):
    # 1 == 1.0, but their keys differ
    s = cls([1, 1.0, 'x'], key=lambda x: {'float': 0, 'str': 1, 'int': 2}[type(x).__name__])
    s.remove(1)
    assert [type(x).__name__ for x in s] == ['float', 'str'], list(s)
    assert s.index('x') == 1
''','two items that compare equal but have different keys',
'remove takes another, equal item (with a smaller key) out of the items while the key of the right one goes: keys and items no longer match')

seed('C01-insert-right-of-neighbour','C01',[(SC,
'''        i = bisect_right(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''',
'''        if self._keys and not k < self._keys[-1]:
            # the most frequent case
            i = len(self._keys)
        else:
            i = bisect_right(self._keys, k, 0, len(self._keys) - 2) if len(self._keys) > 2 else bisect_right(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''')],
'''
from stream2py.utility.sorted_collection import SortedCollection
s = SortedCollection([10, 20, 30, 40])
s.insert_right(35)
assert list(s) == [10, 20, 30, 35, 40], list(s)
''','insert_right into a collection of more than two items, between the last two',
'the binary search stops too early, the item is inserted out of order')

seed('C02-find-le-equal-run','C02',[(SC,
'''        i = bisect_right(self._keys, k)
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key at or below: %r' % (k,))
''',
'''        i = bisect_left(self._keys, k)
        if i != len(self) and self._keys[i] == k:
            return self._items[i]
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key at or below: %r' % (k,))
''')],
'''
from stream2py.utility.sorted_deque import SortedDeque
s = SortedDeque([(1, 'a'), (2, 'b'), (2, 'c'), (3, 'd')], key=lambda x: x[0])
assert s.find_le(1) == (1, 'a')
assert s.find_le(2.5) == (2, 'c')
assert s.find_le(2) == (2, 'c'), s.find_le(2)
''','several items with the searched key',
'find_le returns the first instead of the last item with the key')

seed('C02-count-by-identity','C02',[(SD,
'        return sum(1 for chk_item in islice(self._items, i, j) if chk_item == item)\n',
'        return sum(1 for chk_item in islice(self._items, i, j) if chk_item is item)\n')],
'''
from stream2py.utility.sorted_deque import SortedDeque
s = SortedDeque([(1, 'a'), (2, 'b'), (2, 'b')], key=lambda x: x[0])
probe = tuple([2, 'b'])
assert probe in s and s.count(probe) == 2, s.count(probe)
''','counting with an equal but not identical item',
'count disagrees with a linear scan and with membership')

seed('C02-index-past-key','C02',[(SD,
'        return self._items.index(item, i, j)\n',
'        return self._items.index(item, i) if i < j else self._items.index(item, i, j)\n')],
'''
from stream2py.utility.sorted_deque import SortedDeque
class Item:
    def __init__(self, t, v): self.t, self.v = t, v
    def __eq__(self, other): return self.v == other.v
    def __hash__(self): return hash(self.v)
s = SortedDeque([Item(1, 'a'), Item(2, 'b'), Item(3, 'c')], key=lambda x: x.t)
assert s.index(Item(2, 'b')) == 1
probe = Item(2, 'c')          # nothing with key 2 equals it
assert probe not in s and s.count(probe) == 0
try:
    i = s.index(probe)
except ValueError:
    pass
else:
    raise SystemExit('index found %d for an item that is not a member' % i)
''','an item that equals a stored item with another, larger key, while its own key is present too',
'index (and remove) find an item that membership and count deny')

seed('C03-range-start-duplicates','C03',[(SD,
'''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''',
'''        j = bisect_right(self._keys, stop)
        i = bisect_right(self._keys, start)
        if i and self._keys[i - 1] == start:
            i -= 1
        return self.range_by_index(i, j, step)
''')],
'''
from stream2py.utility.sorted_deque import SortedDeque
s = SortedDeque([(1, 'a'), (2, 'b'), (2, 'c'), (3, 'd')], key=lambda x: x[0])
assert s.range(1, 3) == [(1, 'a'), (2, 'b'), (2, 'c'), (3, 'd')]
assert s.range(2, 3) == [(2, 'b'), (2, 'c'), (3, 'd')], s.range(2, 3)
''','a window with several items at the start key',
'items with the start key are left out')

seed('C03-range-swapped-bounds','C03',[(SD,
'''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''',
'''        first, last = (start, stop) if not stop < start else (stop, start)
        i = bisect_left(self._keys, first)
        j = bisect_right(self._keys, last)
        return self.range_by_index(i, j, step)
''')],
'''
from stream2py.utility.sorted_deque import SortedDeque
s = SortedDeque(range(10))
assert s.range(3, 5) == [3, 4, 5]
assert s.range(5, 3) == [], s.range(5, 3)
''','a range whose start is above its stop',
'returns items outside of the (empty) closed range')

seed('C03-range-step-beyond','C03',[(SD,
'        return list(islice(self._items, start_index, stop_index, step))\n',
'''        if step is not None and step > len(self._items) // 2 and step > 1:
            # at most two items: no need to walk over all of them
            n = len(self._items)
            return [self._items[i] for i in (start_index, start_index + step) if i < min(stop_index, n)]
        return list(islice(self._items, start_index, stop_index, step))
''')],
'''
from stream2py.utility.sorted_deque import SortedDeque
s = SortedDeque(range(10))
assert s.range(0, 9, 6) == [0, 6]
assert s.range_by_index(2, 8, 7) == [2]
s = SortedDeque(range(5))
assert s.range(0, 4, 3) == [0, 3]
assert SortedDeque(range(4)).range(0, 3, 3) == [0, 3]
assert SortedDeque(range(5)).range(-3, 9, 2) == [0, 2, 4]
assert SortedDeque(range(3)).range(0, 2, 2) == [0, 2]
assert SortedDeque(range(7)).range(0, 6, 3) == [0, 3, 6]
assert s.range_by_index(1, None, 4) == [1]
''','x','x') if False else None

seed('C04-limit-keeps-oldest','C04',[(SD,
'''        if maxlen is not self._maxlen:
            self.__init__(self._items, key=self._key, maxlen=maxlen)
''',
'''        if maxlen is not self._maxlen:
            self.__init__(list(self._items)[:maxlen], key=self._key, maxlen=maxlen)
''')],
'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque(range(5), maxlen=10)
d.maxlen = 6
assert list(d) == [0, 1, 2, 3, 4]
d.maxlen = 3
assert list(d) == [2, 3, 4], list(d)
''','lowering the limit below the current length',
'the oldest instead of the newest items are kept')

seed('C04-drop-misaligned','C04',[(SD,
'''        for _ in range(n):
            del self._keys[0]
            del self._items[0]
''',
'''        for i in range(n):
            del self._keys[0]
            del self._items[min(i, len(self._items) - 1)]
''')],
'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque(range(5), maxlen=10)
d.drop()
assert list(d) == [1, 2, 3, 4]
d.drop(2)
assert list(d) == [3, 4], list(d)
''','dropping more than one item at once',
'the second one dropped is not the oldest, keys and items no longer match')

seed('C04-append-unordered-key','C04',[(SD,
'            if not k > self._keys[-1]:\n',
'            if k <= self._keys[-1]:\n')],
'''
from stream2py.utility.sorted_deque import SortedDeque
d = SortedDeque([1.0, 2.0])
try:
    d.append(float('nan'))
except ValueError:
    pass
assert list(d) == [1.0, 2.0], list(d)
''','a key that cannot be ordered relative to the last one (NaN, a set that is no superset)',
'an item whose key is not greater than the last key is appended')

seed('C05-impatient-writer','C05',[(RW,
'''        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire()
''',
'''        self.__write_switch.acquire(self.__no_readers)
        # never hang for good on a reader that died
        self.__no_writers.acquire(timeout=2)
''')],
'''
import threading, time
from stream2py.utility.reader_writer_lock import RWLock
lock = RWLock(); inside = []; overlap = []
def writer():
    lock.writer_acquire()
    overlap.append(list(inside))
    try:
        lock.writer_release()
    except RuntimeError:
        pass
lock.reader_acquire(); inside.append('reader')
t = threading.Thread(target=writer, daemon=True); t.start()
time.sleep(3)
inside.remove('reader')
lock.reader_release()
t.join(10)
assert overlap == [[]], overlap
''','a reader that holds the lock for more than two seconds while a writer waits',
'the writer goes in while the reader is inside')

HELP = '\nimport os, sys, threading\nREAL = threading.Lock\nclass Sched:\n    """holds one thread up after its k-th lock operation"""\n    def __init__(self): self.who = None; self.k = 0; self.n = 0; self.reached = threading.Event(); self.go = threading.Event()\n    def hold(self, thread, k): self.who = thread; self.k = k; self.n = 0\n    def op(self):\n        if threading.current_thread() is self.who:\n            self.n += 1\n            if self.n == self.k: self.reached.set(); self.go.wait(10)\ndef mk(sched):\n    class L:\n        def __init__(s): s.l = REAL()\n        def acquire(s, *a, **kw):\n            r = s.l.acquire(*a, **kw); sched.op(); return r\n        def release(s): s.l.release(); sched.op()\n        def locked(s): return s.l.locked()\n        def __enter__(s): s.acquire(); return True\n        def __exit__(s, *a): s.release()\n    from stream2py.utility.reader_writer_lock import RWLock\n    threading.Lock = L\n    try: return RWLock()\n    finally: threading.Lock = REAL\ndef end(bad):\n    print(bad); sys.stdout.flush(); os._exit(1 if bad else 0)\n'
seed('C05-switch-tested-outside','C05',[(RW,
"""        self.__mutex.acquire()
        self.__counter -= 1
        if self.__counter == 0:
            lock.release()
        self.__mutex.release()
""",
"""        self.__mutex.acquire()
        self.__counter -= 1
        self.__mutex.release()
        if self.__counter == 0:
            lock.release()
""")],
HELP + """
bad = []
for k in range(1, 6):
    s = Sched(); lock = mk(s); inside = []; err = []
    lock.reader_acquire(); lock.reader_acquire()        # two readers
    def leave():
        try: lock.reader_release()
        except RuntimeError as e: err.append(repr(e))
    a = threading.Thread(target=leave, daemon=True); s.hold(a, k); a.start()
    if not s.reached.wait(0.5): break
    b = threading.Thread(target=leave, daemon=True); b.start(); b.join(0.3)
    def write():
        lock.writer_acquire(); inside.append(1)
    ws = [threading.Thread(target=write, daemon=True) for _ in range(2)]
    ws[0].start(); ws[0].join(0.3)
    s.go.set(); a.join(1); b.join(1)
    ws[1].start(); ws[1].join(0.3); ws[0].join(0.3)
    if len(inside) != 1 or err: bad.append((k, len(inside), err))
end(bad)
""",'two readers leaving at the same time: the first is interrupted between counting itself out and testing the counter, and a writer gets in meanwhile',
'the lock is released twice, the second time from under the writer that got it in between: two writers inside')

seed('C21-switch-unlocked-count','C21',[(RW,
"""        self.__mutex.acquire()
        self.__counter -= 1
        if self.__counter == 0:
            lock.release()
        self.__mutex.release()
""",
"""        self.__counter -= 1
        if self.__counter > 0:
            return  # the others turn it off
        self.__mutex.acquire()
        lock.release()
        self.__mutex.release()
""")],
HELP + """
# a reader leaves; at any line of its release another one comes: both must get through
import stream2py.utility.reader_writer_lock as m
bad = []
for k in range(1, 12):
    lock = m.RWLock(); lock.reader_acquire()
    reached, go = threading.Event(), threading.Event(); n = [0]
    def tracer(frame, event, arg):
        if frame.f_code.co_filename != m.__file__: return None
        if event in ('line', 'return'):
            n[0] += 1
            if n[0] == k: reached.set(); go.wait(10)
        return tracer
    def leave():
        sys.settrace(tracer)
        lock.reader_release()
        sys.settrace(None)
    a = threading.Thread(target=leave, daemon=True); a.start()
    if not reached.wait(0.5): break
    def come(): lock.reader_acquire(); lock.reader_release()
    b = threading.Thread(target=come, daemon=True); b.start(); b.join(0.3)
    go.set(); a.join(1); b.join(1)
    if a.is_alive() or b.is_alive(): bad.append(k)
end(bad)
""",'a reader coming in exactly when the last one has counted itself out but not turned the switch off yet',
'the newcomer waits for the lock while holding the mutex that the leaving reader needs: deadlock')

seed('C21-release-through-queue','C21',[(RW,
'''    def reader_release(self):
        self.__read_switch.release(self.__no_writers)
''',
'''    def reader_release(self):
        with self.__readers_queue:
            self.__read_switch.release(self.__no_writers)
''')],
'''
import threading, time, os
from stream2py.utility.reader_writer_lock import RWLock
lock = RWLock(); done = []
lock.reader_acquire()
def wr():
    lock.writer_acquire(); lock.writer_release(); done.append('w')
def rd():
    lock.reader_acquire(); lock.reader_release(); done.append('r')
threading.Thread(target=wr, daemon=True).start(); time.sleep(0.3)
threading.Thread(target=rd, daemon=True).start(); time.sleep(0.3)
def rel():
    lock.reader_release(); done.append('rel')
threading.Thread(target=rel, daemon=True).start()
time.sleep(2)
print(done); 
import sys; sys.stdout.flush()
os._exit(0 if len(done) == 3 else 1)
''','a reader inside, a writer waiting for it, and another reader queued behind the writer',
'the leaving reader waits for the queue that the queued reader holds: deadlock')

seed('C21-no-readers-only-tested','C21',[(RW,
"""        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
""",
"""        # only one reader at a time gets here: enough to see that no writer is waiting
        with self.__no_readers:
            pass
        self.__read_switch.acquire(self.__no_writers)
""")],
HELP + """
# Reader A is inside.  Reader B is held up after each of its lock operations in turn, and a
# writer asks.  A writer that is waiting only for the readers inside to leave (it would get in as soon as A
# leaves, with B still held up) has been registered before B is admitted: B must wait for it.
def trial(k, a_leaves):
    s = Sched(); lock = mk(s); order = []
    lock.reader_acquire()
    def rd(): lock.reader_acquire(); order.append('r')
    def wr(): lock.writer_acquire(); order.append('w'); lock.writer_release()
    b = threading.Thread(target=rd, daemon=True); s.hold(b, k); b.start()
    if not s.reached.wait(0.5): return None
    w = threading.Thread(target=wr, daemon=True); w.start(); w.join(0.3)
    if a_leaves:
        lock.reader_release(); w.join(0.3)
        return order
    s.go.set(); b.join(0.3); w.join(0.3)
    return order
bad = []
for k in range(1, 12):
    r = trial(k, True)
    if r is None: break
    if r == ['w'] and trial(k, False) == ['r']: bad.append(k)
end(bad)
""",'a writer that registers between a reader seeing that no writer waits and that reader being counted in',
'the reader is admitted although a writer was registered as waiting before')

seed('C06-leak-on-other-errors','C06',[(LD,
'''        try:
            self.reader_acquire()
            yield self._sorted_deque
        finally:
            self.reader_release()
''',
'''        self.reader_acquire()
        try:
            yield self._sorted_deque
        except (ValueError, IndexError):  # nothing found
            self.reader_release()
            raise
        else:
            self.reader_release()
''')],
'''
import threading
from stream2py import StreamBuffer
from stream2py.buffer_reader import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
b = RWLockSortedDeque([1, 2, 3])
r = BufferReader(b, {}, threading.Event())
try:
    r.range('a', 'b')
except TypeError:
    pass
ok = threading.Event()
def w():
    with b.writer_lock() as d:
        d.append(4)
    ok.set()
threading.Thread(target=w, daemon=True).start()
assert ok.wait(3), 'the lock is still held after the failed range'
''','an operation under the reader lock failing with something else than ValueError or IndexError (keys that cannot be compared)',
'the reader lock is never given back')

seed('C06-drop-under-reader-lock','C06',[('stream2py/stream_buffer.py',
'''        with self._buffer.writer_lock() as writer:
            writer.drop(n)
''',
'''        with self._buffer.reader_lock() as writer:
            writer.drop(n)
''')],
'''
import threading, time
from stream2py.stream_buffer import _SourceBuffer
b = _SourceBuffer({}, threading.Event(), key=lambda x: x, maxlen=5)
for i in range(3): b.append(i)
done = threading.Event()
with b._buffer.reader_lock() as reader:
    t = threading.Thread(target=lambda: (b.drop(1), done.set()), daemon=True); t.start()
    dropped_while_reading = done.wait(1)
    n = len(reader)
t.join(3)
assert not dropped_while_reading and n == 3, n
''','a drop while another thread is reading',
'items are dropped under a reader')

seed('C06-head-after-unlock','C06',[('stream2py/buffer_reader.py',
'''        with self._buffer.reader_lock() as reader:
            item = reader[0]
        if not peek:
            self.last_item = item
        return item

    def read(''',
'''        with self._buffer.reader_lock() as reader:
            window = reader
        item = window[0]
        if not peek:
            self.last_item = item
        return item

    def read(''')],
'''
import threading
from stream2py.buffer_reader import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
import stream2py.utility.sorted_deque as sd
held = []
class Watch(RWLockSortedDeque):
    n = 0
    def reader_acquire(self): super().reader_acquire(); self.n += 1
    def reader_release(self): self.n -= 1; super().reader_release()
b = Watch([1, 2, 3])
orig = sd.SortedDeque.__getitem__
class D(sd.SortedDeque):
    def __getitem__(self, i):
        held.append(b.n); return orig(self, i)
b._sorted_deque = D([1, 2, 3])
r = BufferReader(b, {}, threading.Event())
assert r.head() == 1 and r.tail() == 3
assert held and all(held), held
''','a writer between giving the lock back and looking up the item',
'the oldest item is looked up without holding the lock')
SEEDS=[s for s in SEEDS if s]
