"""Refactorings, fifth lot: other representations."""
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
LD='stream2py/utility/locked_sorted_deque.py'; BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'
SS='stream2py/stream_source.py'; SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
REFS=[]
def ref(id, props, *edits): REFS.append((id, props, list(edits)))
INIT='''        self.__read_switch = _LightSwitch()
        self.__write_switch = _LightSwitch()
        self.__no_readers = threading.Lock()
        self.__no_writers = threading.Lock()
        self.__readers_queue = threading.Lock()
        """A lock giving an even higher priority to the writer in certain
        cases (see [2] for a discussion)"""
'''
OPS='''    def reader_acquire(self):
        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
        self.__readers_queue.release()

    def reader_release(self):
        self.__read_switch.release(self.__no_writers)

    def writer_acquire(self):
        self.__write_switch.acquire(self.__no_readers)
        self.__no_writers.acquire()

    def writer_release(self):
        self.__no_writers.release()
        self.__write_switch.release(self.__no_readers)
'''
for nm, mk in (('', 'threading.Condition()'), ('-lock', 'threading.Condition(threading.Lock())')):
  ref('r5-rw-condition' + nm, ['C05','C21','C06','C12','C08','C13'],
   (RW, INIT, f'''        self.__cond = {mk}
        self.__readers = 0
        self.__waiting = 0
        self.__writing = False
'''),
   (RW, OPS, '''    def reader_acquire(self):
        with self.__cond:
            while self.__writing or self.__waiting:
                self.__cond.wait()
            self.__readers += 1

    def reader_release(self):
        with self.__cond:
            self.__readers -= 1
            self.__cond.notify_all()

    def writer_acquire(self):
        with self.__cond:
            self.__waiting += 1
            while self.__writing or self.__readers:
                self.__cond.wait()
            self.__waiting -= 1
            self.__writing = True

    def writer_release(self):
        with self.__cond:
            self.__writing = False
            self.__cond.notify_all()
'''))
ref('r5-rw-sem', ['C05','C21','C06'],
 (RW, '''        self.__no_writers = threading.Lock()
''', '''        self.__no_writers = threading.Semaphore(1)
'''))
ref('r5-ls-outside', ['C05','C21','C06'],
 (RW, '''        self.__mutex.acquire()
        self.__counter -= 1
        if self.__counter == 0:
            lock.release()
        self.__mutex.release()
''', '''        with self.__mutex:
            self.__counter -= 1
            last = self.__counter == 0
            if last:
                lock.release()
'''))
ref('r5-sd-maxlen', ['C01','C04','C12'],
 (SD, '''    def _getmaxlen(self):
        return self._maxlen
''', '''    def _getmaxlen(self):
        return self._items.maxlen
'''))
ref('r5-sc-names', ['C01','C02','C03','C04','C07','C12'],
 (SC, '''        self._keys = [k for k, item in decorated]
        self._items = [item for k, item in decorated]
''', '''        self._keys, self._items = [], []
        for k, item in decorated:
            self._keys.append(k)
            self._items.append(item)
'''),
 (SC, '''        i = self.index(item)
        del self._keys[i]
        del self._items[i]
''', '''        i = self.index(item)
        for column in (self._keys, self._items):
            del column[i]
'''))
ref('r5-ld-cm', ['C06','C08','C12','C07'],
 (LD, '''    @contextmanager
    def writer_lock(self):
        try:
            self.writer_acquire()
            yield self._sorted_deque
        finally:
            self.writer_release()
''', '''    def writer_lock(self):
        return _WriterLock(self)


class _WriterLock:
    def __init__(self, buffer):
        self._locked = buffer

    def __enter__(self):
        self._locked.writer_acquire()
        return self._locked._sorted_deque

    def __exit__(self, *exc_info):
        self._locked.writer_release()
'''))
ref('r5-ss-readers-set', ['C16'],
 (SS, '''    _open_readers = 0
''', '''    _readers = ()
'''),
 (SS, '''        if self._open_readers <= 0:
            self._stream_buffer.start()

    def _handle_reader_open(self):
        self._open_readers += 1

    def _handle_reader_closed(self):
        self._open_readers -= 1
        if self._open_readers <= 0:
            self.exit()
''', '''        if not self._readers:
            self._stream_buffer.start()

    def _handle_reader_open(self, reader):
        self._readers = (*self._readers, reader)

    def _handle_reader_closed(self, reader):
        self._readers = tuple(r for r in self._readers if r is not reader)
        if not self._readers:
            self.exit()
'''),
 (SS, '''            if self._open_readers <= 0:  # do not''', '''            if not self._readers:  # do not'''),
 (SS, '''        self._handle_reader_open()
        new_reader.onclose = self._handle_reader_closed
''', '''        self._handle_reader_open(new_reader)
        new_reader.onclose = lambda: self._handle_reader_closed(new_reader)
'''))
ref('r5-br-lastkey', ['C06','C08','C09','C10','C11','C07'],
 (BR, '''    def _setlast_item(self, item):
        self._last_key = self._buffer.key(item)
        self._last_item = item
''', '''    def _setlast_item(self, item):
        key = self._buffer.key(item)
        self._last_item, self._last_key = item, key
'''),
 (BR, '''    def _dellast_item(self):
        del self._last_item
        self._last_item = None
        del self._last_key
        self._last_key = None
''', '''    def _dellast_item(self):
        self._last_item = self._last_key = None
'''))
ref('r5-sb-session', ['C13','C15','C16','C12'],
 (SB, '''            if self._stop_event and not self._stop_event.is_set():
                self.stop()
            self._set_read_to_buffer_thread_and_source_buffer()
''', '''            self._set_read_to_buffer_thread_and_source_buffer()
'''))
ref('r5-ut-slots', ['C19'],
 (UT, '''    def __enter__(self):
        #''', '''    def _unused(self):
        return self.func

    def __enter__(self):
        #'''))
ref('r5-si-closure', ['C17'],
 (SI, '''    stream_buffer = StreamBuffer(
        source_reader=SimplifiedSourceReader(),
''', '''    source_reader = SimplifiedSourceReader()
    stream_buffer = StreamBuffer(
        source_reader=source_reader,
'''),
 (SI, '''            if info is not None:
                return info(self.open_instance)
            return {
                'open_time': self.open_time,
                'open_instance': str(self.open_instance),
            }
''', '''            if info is None:
                return dict(
                    open_time=self.open_time, open_instance=str(self.open_instance)
                )
            return info(self.open_instance)
'''))
