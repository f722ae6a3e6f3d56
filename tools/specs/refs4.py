"""Refactorings, fourth lot: other library calls, helpers, state for information."""
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
LD='stream2py/utility/locked_sorted_deque.py'; BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'
SS='stream2py/stream_source.py'; SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
REFS=[]
def ref(id, props, *edits): REFS.append((id, props, list(edits)))
ref('r4-sb-wait', ['C12','C13','C14','C15'],
 (SB,'''                    time.sleep(self._sleep_time_on_read_none_s)
''','''                    self._stop_event.wait(self._sleep_time_on_read_none_s)
'''))
ref('r4-rw-swap-release', ['C05','C21','C06'],
 (RW,'''        self.__no_writers.release()
        self.__write_switch.release(self.__no_readers)
''','''        self.__write_switch.release(self.__no_readers)
        self.__no_writers.release()
'''))
ref('r4-sb-run-helper', ['C12','C13','C14','C15','C16'],
 (SB,'''    def _run(self):
        try:
            while not self._stop_event.is_set():
                # check if buffer is full and skip read or append
                if (
                    self.auto_drop is True
                    or self._maxlen is None
                    or len(self.source_buffer) < self._maxlen
                ):
                    data = self.source_reader.read()
                else:
                    data = None

                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
        finally:
''','''    def _has_room(self):
        return (
            self.auto_drop is True
            or self._maxlen is None
            or len(self.source_buffer) < self._maxlen
        )

    def _read_one(self):
        """Reads one item if there is room for it; False if there is none"""
        # skip the read if the buffer is full
        data = self.source_reader.read() if self._has_room() else None
        if data is None:
            return False
        self.source_buffer.append(data)
        return True

    def _run(self):
        try:
            while not self._stop_event.is_set():
                if not self._read_one():
                    time.sleep(self._sleep_time_on_read_none_s)
        finally:
'''))
ref('r4-sb-thread-inline', ['C13','C15','C16'],
 (SB,'''        self._next_reader = None
        self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
        self._stop_event = threading.Event()

''','''        self._next_reader = None
        self._stop_event = threading.Event()
        self._read_to_buffer_thread = threading.Thread(
            target=self._run, name='stream2py-read', daemon=True
        )

'''))
ref('r4-sb-join-always', ['C13','C15'],
 (SB,'''        previous_thread = self._read_to_buffer_thread
        if previous_thread is not None and previous_thread.is_alive():
            previous_thread.join()
''','''        previous_thread = self._read_to_buffer_thread
        while previous_thread is not None and previous_thread.is_alive():
            previous_thread.join(1)
'''))
ref('r4-br-registry', ['C16'],
 (SS,'''        self._reader_cls = reader_cls

''','''        self._reader_cls = reader_cls
        self._n_opened = 0

'''),
 (SS,'''        self._open_readers += 1
''','''        self._open_readers += 1
        self._n_opened += 1
'''))
ref('r4-ss-handle-exit', ['C16'],
 (SS,'''        self._open_readers -= 1
        if self._open_readers <= 0:
            self.exit()
''','''        remaining = self._open_readers - 1
        self._open_readers = remaining
        if remaining > 0:
            return
        self.exit()
'''))
ref('r4-sd-clear', ['C01','C04'],
 (SD,'''        self._items.append(item)
''','''        self._items.extend([item])
'''))
ref('r4-sc-index', ['C01','C02'],
 (SC,'''        raise ValueError('No item found with key above: %r' % (k,))
''','''        raise ValueError(f'No item found with key above: {k!r}')
'''))
ref('r4-ut-partial', ['C19'],
 (UT,'''    def __call__(self, /, *args, **kwargs):
        return self.func(*args, **kwargs)
''','''    def __call__(*args, **kwargs):
        self, *args = args
        result = self.func(*args, **kwargs)
        return result
'''))
ref('r4-ht-read', ['C20'],
 (HT,'''        timestamp = time.time()
        self._n_bytes_read += len(result)
        if encoding:
            result = result.decode(encoding)
        return timestamp, result
''','''        timestamp = time.time()
        n_bytes = len(result)
        self._n_bytes_read = self._n_bytes_read + n_bytes
        return timestamp, result.decode(encoding) if encoding else result
'''))
ref('r4-ht-close', ['C20'],
 (HT,'''        if self._response:
            self._response.__exit__()
            self._response = None
''','''        response = self._response
        if not response:
            return
        response.__exit__()
        self._response = None
'''))
ref('r4-si-while', ['C17'],
 (SB,'''    def append(self, item):
        with self._buffer.writer_lock() as writer:
            writer.append(item)
''','''    def append(self, item):
        buffer = self._buffer
        buffer.writer_acquire()
        try:
            buffer._sorted_deque.append(item)
        finally:
            buffer.writer_release()
'''))
ref('r4-br-range-peek', ['C06','C07','C08','C11'],
 (BR,'''        if not peek:
            try:
                self.last_item = items[-1]
            except IndexError as e:  # IndexError: list index out of range
                if ignore_no_item_found:
                    return None
                raise e
        return items
''','''        if peek:
            return items
        try:
            last_item = items[-1]
        except IndexError:
            if not ignore_no_item_found:
                raise
            return None
        self.last_item = last_item
        return items
'''))
ref('r4-br-next-local', ['C11','C10'],
 (BR,'''        if result is None and was_stopped:
            raise StopIteration

        return result
''','''        exhausted = was_stopped and result is None
        if not exhausted:
            return result
        raise StopIteration
'''))
ref('r4-br-iter-sentinel', ['C11'],
 (BR,'''        while True:
            try:
                _next = next(self)
            except StopIteration:
                # Stream is stopped and exhausted
                return

            if _next is not None:
                yield _next
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''        end = object()
        while True:
            _next = next(self, end)
            if _next is end:
                # Stream is stopped and exhausted
                return
            if _next is None:
                time.sleep(self._sleep_time_on_iter_none_s)
                continue
            yield _next
'''))
ref('r4-sb-attach-order', ['C10','C15'],
 (SB,'''        reader._buffer = self._buffer
        reader._stop_event = self._stop_event
        reader._source_reader_info = self._source_reader_info
''','''        for name in ('_buffer', '_stop_event', '_source_reader_info'):
            setattr(reader, name, getattr(self, name))
'''))
ref('r4-sb-mk-kwargs', ['C10','C15','C16'],
 (SB,'''        return self.buffer_reader_class(
            buffer=self._buffer,
            source_reader_info=self._source_reader_info,
            stop_event=self._stop_event,
            **read_kwargs,
        )
''','''        kwargs = dict(
            read_kwargs,
            buffer=self._buffer,
            source_reader_info=self._source_reader_info,
            stop_event=self._stop_event,
        )
        make = self.buffer_reader_class
        return make(**kwargs)
'''))
ref('r4-br-cls-const', ['C08','C10','C11'],
 (BR,'''        self._sleep_time_on_iter_none_s = 0.1
        self.read_size''','''        self._sleep_time_on_iter_none_s = self._dflt_sleep_time_on_iter_none_s
        self.read_size'''),
 (BR,'''    def __iter__(self):
        while True:
            try:
                _next = next(self)
''','''    _dflt_sleep_time_on_iter_none_s = 0.1

    def __iter__(self):
        while True:
            try:
                _next = next(self)
'''))
ref('r4-log', ['C01','C05','C06','C12','C13','C15','C16'],
 (SD,'''        k = self._key(item)
        try:
            if not k > self._keys[-1]:''','''        k = self._key(item)
        logger.debug('append %r', k)
        try:
            if not k > self._keys[-1]:'''),
 (SD,'''class SortedDeque''','''logger = logging.getLogger(__name__)


class SortedDeque'''),
 (SD,'''from collections import''','''import logging
from collections import'''),
 (SB,'''        self._stop_event.set()
        time.sleep(1)
''','''        logger.info('stopping %s', self.source_reader)
        self._stop_event.set()
        time.sleep(1)
'''),
 (SB,'''                data = self.source_reader.read()
''' if False else '''                    data = self.source_reader.read()
''','''                    data = self.source_reader.read()
                    logger.debug('read %r', data)
'''))
ref('r4-types', ['C01','C02','C12','C13','C18'],
 (SD,'''        k = self._key(item)
        try:
            if not k > self._keys[-1]:''','''        k: object = self._key(item)
        assert self._items is not None
        try:
            if not k > self._keys[-1]:'''),
 (SB,'''                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
''','''                if data is None:
                    time.sleep(self._sleep_time_on_read_none_s)
                    continue
                self.source_buffer.append(data)
'''))
