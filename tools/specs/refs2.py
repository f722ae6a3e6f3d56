"""A second set of harmless refactorings, in other styles."""
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
LD='stream2py/utility/locked_sorted_deque.py'; BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'
SS='stream2py/stream_source.py'; SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
REFS=[]
def ref(id, props, *edits): REFS.append((id, props, list(edits)))

ref('r2-insert-order', ['C01'],
 (SC,'''        i = bisect_left(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)

    def insert_right''','''        position = bisect_left(self._keys, k)
        for where, what in ((self._items, item), (self._keys, k)):
            where.insert(position, what)

    def insert_right'''),
 (SC,'''        i = bisect_right(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''','''        position = bisect_right(self._keys, k)
        self._items.insert(position, item)
        self._keys.insert(position, k)
'''),
 (SC,'''        i = self.index(item)
        del self._keys[i]
        del self._items[i]
''','''        i = self.index(item)
        self._items.__delitem__(i)
        self._keys.__delitem__(i)
'''))
ref('r2-linear-search', ['C01','C02'],
 (SC,'''        i = bisect_left(self._keys, k)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key at or above: %r' % (k,))
''','''        for position, key in enumerate(self._keys):
            if key >= k:
                return self._items[position]
        raise ValueError('No item found with key at or above: %r' % (k,))
'''),
 (SC,'''        i = bisect_right(self._keys, k)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key above: %r' % (k,))
''','''        position = 0
        while position < len(self._keys):
            if self._keys[position] > k:
                return self._items[position]
            position += 1
        raise ValueError('No item found with key above: %r' % (k,))
'''))
ref('r2-find-ternary', ['C02'],
 (SC,'''        i = bisect_left(self._keys, k)
        if i != len(self) and self._keys[i] == k:
            return self._items[i]
        raise ValueError('No item found with key equal to: %r' % (k,))
''','''        i = bisect_left(self._keys, k)
        found = i < len(self._items) and self._keys[i] == k
        if not found:
            raise ValueError('No item found with key equal to: %r' % (k,))
        return self._items[i]
'''),
 (SC,'''        i = bisect_right(self._keys, k)
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key at or below: %r' % (k,))
''','''        i = bisect_right(self._keys, k) - 1
        if i < 0:
            raise ValueError('No item found with key at or below: %r' % (k,))
        return self._items[i]
'''))
ref('r2-sd-count-loop', ['C01','C02','C05'],
 (SD,'''        return sum(1 for chk_item in islice(self._items, i, j) if chk_item == item)
''','''        n = 0
        for chk_item in islice(self._items, i, j):
            if chk_item == item:
                n += 1
        return n
'''),
 (SD,'''        return item in islice(self._items, i, j)
''','''        for candidate in islice(self._items, i, j):
            if candidate is item or candidate == item:
                return True
        return False
'''),
 (SD,'''        return list(islice(self._items, start_index, stop_index, step))
''','''        selected = []
        for item in islice(self._items, start_index, stop_index, step):
            selected.append(item)
        return selected
'''))
ref('r2-sd-append', ['C04','C01','C12'],
 (SD,'''        k = self._key(item)
        try:
            if not k > self._keys[-1]:
                raise ValueError(
                    'Item key must be greater than last item key to append: %r' % (k,)
                )
        except IndexError as e:
            if len(self._keys) != 0:
                raise e
        self._keys.append(k)
        self._items.append(item)
''','''        k = self._key(item)
        if self._keys and not k > self._keys[-1]:
            raise ValueError(
                'Item key must be greater than last item key to append: %r' % (k,)
            )
        self._items.append(item)
        self._keys.append(k)
'''))
ref('r2-sd-drop-while', ['C04','C03','C14'],
 (SD,'''        for _ in range(n):
            del self._keys[0]
            del self._items[0]
''','''        remaining = n
        while remaining > 0:
            self._items.popleft()
            self._keys.popleft()
            remaining -= 1
'''))
ref('r2-sd-init', ['C03','C04','C01'],
 (SD,'''        SortedCollection.__init__(self, iterable, key)
        self._keys = deque(self._keys, maxlen=maxlen)
        self._items = deque(self._items, maxlen=maxlen)
        self._maxlen = maxlen
''','''        super().__init__(iterable, key)
        self._maxlen = maxlen
        self._items, self._keys = (
            deque(values, maxlen) for values in (self._items, self._keys)
        )
'''))
ref('r2-sd-lastgt', ['C05','C09','C06'],
 (SD,'''        try:
            if self._keys[-1] > k:
                return self._items[-1]
        except IndexError as e:
            if len(self._keys) != 0:
                raise e
        raise ValueError('No item found with key above: %r' % (k,))
''','''        if not self._keys or not self._keys[-1] > k:
            raise ValueError('No item found with key above: %r' % (k,))
        return self._items[-1]
'''))
ref('r2-rw-counter', ['C21'],
 (RW,'''    def acquire(self, lock):
        self.__mutex.acquire()
        self.__counter += 1
        if self.__counter == 1:
            lock.acquire()
        self.__mutex.release()
''','''    def acquire(self, lock):
        with self.__mutex:
            if self.__counter == 0:
                lock.acquire()
            self.__counter += 1
'''),
 (RW,'''        self.__mutex.acquire()
        self.__counter -= 1
        if self.__counter == 0:
            lock.release()
        self.__mutex.release()
''','''        with self.__mutex:
            self.__counter = self.__counter - 1
            last = not self.__counter
            if last:
                lock.release()
'''))
ref('r2-rw-rename', ['C21','C06'],
 (RW,'''        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
        self.__readers_queue.release()
''','''        with self.__readers_queue, self.__no_readers:
            self._enter_as_reader()

    def _enter_as_reader(self):
        switch = self.__read_switch
        switch.acquire(self.__no_writers)
'''))
ref('r2-ld-named', ['C21','C06','C12'],
 (LD,'''        try:
            self.reader_acquire()
            yield self._sorted_deque
        finally:
            self.reader_release()
''','''        self.reader_acquire()
        deque_for_reading = self._sorted_deque
        try:
            yield deque_for_reading
        finally:
            self.reader_release()
'''),
 (LD,'''        try:
            self.writer_acquire()
            yield self._sorted_deque
        finally:
            self.writer_release()
''','''        self.writer_acquire()
        try:
            yield self._sorted_deque
        finally:
            self.writer_release()
'''))
ref('r2-br-next', ['C11','C06','C07'],
 (BR,'''        was_stopped = self.is_stopped

        # Call read with the args fixed by init
        result = self.read(**self._read_kwargs_for_next)

        # If no data and stream is stopped, raise StopIteration per iterator protocol
        if result is None and was_stopped:
            raise StopIteration

        return result
''','''        return self._next_or_stop(self.is_stopped)

    def _next_or_stop(self, was_stopped):
        result = self.read(**self._read_kwargs_for_next)
        if result is not None:
            return result
        if was_stopped:
            raise StopIteration
        return None
'''))
ref('r2-br-iter', ['C11','C06','C07'],
 (BR,'''        while True:
            try:
                _next = next(self)
            except StopIteration:
                # Stream is stopped and exhausted
                return
            if _next is not None:
                yield _next
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''        exhausted = False
        while not exhausted:
            try:
                _next = self.__next__()
            except StopIteration:
                exhausted = True
            else:
                if _next is None:
                    time.sleep(self._sleep_time_on_iter_none_s)
                    continue
                yield _next
'''))
ref('r2-br-cursor', ['C06','C07','C09','C10'],
 (BR,'''        self._last_key = self._buffer.key(item)
        self._last_item = item
''','''        key_of = self._buffer.key
        self._last_item, self._last_key = item, key_of(item)
'''),
 (BR,'''        del self._last_item
        self._last_item = None
        del self._last_key
        self._last_key = None
''','''        self._last_item = self._last_key = None
'''))
ref('r2-br-range', ['C09','C06','C10','C08'],
 (BR,'''        if not peek:
            try:
                self.last_item = items[-1]
            except IndexError as e:  # IndexError: list index out of range
                if ignore_no_item_found:
                    return None
                raise e
        return items
''','''        if peek:
            return items
        if not items and ignore_no_item_found:
            return None
        self.last_item = items[-1]
        return items
'''),
 (BR,'''                _start = start if start > _next_key else _next_key
''','''                _start = max(start, _next_key)
'''),
 (BR,'''                with suppress(
                    ValueError
                ):  # ValueError: No item found with key at or below: _start
                    _start = reader.key(reader.find_le(_start))
''','''                try:
                    _start = reader.key(reader.find_le(_start))
                except ValueError:
                    pass  # No item found with key at or below: _start
'''))
ref('r2-br-range-helpers', ['C09','C06','C10'],
 (BR,'''            if stop_ge is True:
                try:
                    stop = reader.key(reader.find_ge(stop))
                except ValueError as e:  # ValueError: No item found with key at or above: stop
                    if ignore_no_item_found:
                        return None
                    raise e
''','''            if stop_ge is True:
                try:
                    first_beyond = reader.find_ge(stop)
                except ValueError:
                    if ignore_no_item_found:
                        return None
                    raise
                stop = reader.key(first_beyond)
'''))
ref('r2-br-read-split', ['C06','C07','C08','C10','C11'],
 (BR,'''        with self._buffer.reader_lock() as reader:
            try:
                next_item = reader.find_gt(self.last_key)
''','''        return self._read_now(n, peek, ignore_no_item_found, strict_n)

    def _read_now(self, n, peek, ignore_no_item_found, strict_n):
        with self._buffer.reader_lock() as reader:
            try:
                next_item = reader.find_gt(self.last_key)
'''))
ref('r2-br-tail', ['C09','C06','C10'],
 (BR,'''            else:
                try:
                    item = reader[-1]
                except IndexError as e:  # IndexError: deque index out of range
                    if ignore_no_item_found:
                        return None
                    raise e
        if not peek:
            self.last_item = item
        return item

    def head''','''            elif len(reader) == 0 and ignore_no_item_found:
                return None
            else:
                item = reader[-1]
        if peek is False or not peek:
            self.last_item = item
        return item

    def head'''))
ref('r2-br-defaults', ['C08','C10','C11'],
 (BR,'''        n, peek, ignore_no_item_found, strict_n = defaulted_values(
            dict(
                n=n,
                peek=peek,
                ignore_no_item_found=ignore_no_item_found,
                strict_n=strict_n,
            ),
            defaults=self._read_kwargs,
        )
''','''        defaults = self._read_kwargs
        if n is None:
            n = defaults['n']
        if peek is None:
            peek = defaults['peek']
        if ignore_no_item_found is None:
            ignore_no_item_found = defaults['ignore_no_item_found']
        if strict_n is None:
            strict_n = defaults['strict_n']
'''))
ref('r2-sb-append-local', ['C12','C14','C06'],
 (SB,'''        with self._buffer.writer_lock() as writer:
            writer.append(item)
''','''        buffer = self._buffer
        with buffer.writer_lock() as writable:
            result = writable.append(item)
        return result
'''))
ref('r2-sb-run', ['C12','C13','C14'],
 (SB,'''            while not self._stop_event.is_set():
                # check if buffer is full and skip read or append
                if (
                    self.auto_drop is True
                    or self._maxlen is None
                    or len(self.source_buffer) < self._maxlen
                ):
                    data = self.source_reader.read()
                else:
                    data = None

                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
''','''            while True:
                if self._stop_event.is_set():
                    break
                data = None
                if not self._is_full():
                    data = self.source_reader.read()
                if data is None:
                    time.sleep(self._sleep_time_on_read_none_s)
                    continue
                self.source_buffer.append(data)
'''),
 (SB,'''    def _run(self):
''','''    def _is_full(self):
        if self.auto_drop is True or self._maxlen is None:
            return False
        return not len(self.source_buffer) < self._maxlen

    def _run(self):
'''))
ref('r2-sb-start', ['C13','C15','C16'],
 (SB,'''            try:
                self._open()
                self._read_to_buffer_thread.start()
            except BaseException:
                self._stop_event.set()  # not running
                raise
''','''            started = False
            try:
                self._open()
                self._read_to_buffer_thread.start()
                started = True
            finally:
                if not started:
                    self._stop_event.set()  # not running
'''))
ref('r2-sb-start-lock', ['C13','C15','C16'],
 (SB,'''        with self.start_lock:
            if self._stop_event and not self._stop_event.is_set():
                self.stop()
            self._set''','''        with self.start_lock:
            if self._stop_event is not None and not self._stop_event.is_set():
                self.stop()
            self._set'''),
 (SB,'''        with self.start_lock:
            return self._stop_event is not None and not self._stop_event.is_set()
''','''        with self.start_lock:
            event = self._stop_event
            if event is None:
                return False
            return not event.is_set()
'''))
ref('r2-sb-close', ['C13'],
 (SB,'''            if not self._stop_event.is_set():
                self._stop_event.set()
            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
''','''            self._stop_event.set()
            self._close_source()

    def _close_source(self):
        try:
            self.source_reader.close()
        except Exception as e:
            logger.error(e)
'''))
ref('r2-sb-enter', ['C15','C16','C17'],
 (SB,'''    def __enter__(self):
        self.start()
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.stop()
''','''    def __enter__(self):
        self.start()
        entered = self
        return entered

    def __exit__(self, *exception_info):
        self.stop()
        return None
'''))
ref('r2-ss-refcount', ['C16'],
 (SS,'''        self._open_readers -= 1
        if self._open_readers <= 0:
            self.exit()
''','''        remaining = self._open_readers - 1
        self._open_readers = remaining
        if remaining > 0:
            return
        self.exit()
'''),
 (SS,'''        if not self._stream_buffer:
            self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
        if self._open_readers <= 0:
            self._stream_buffer.start()
''','''        buffer = self._stream_buffer
        if buffer is None:
            buffer = StreamBuffer(self, **self._buffer_kwargs)
            self._stream_buffer = buffer
        if not self._open_readers > 0:
            buffer.start()
'''))
ref('r2-ss-open', ['C16','C15'],
 (SS,'''        self._ensure_buffer()
        try:
            new_reader = self._stream_buffer.mk_reader(
                read_size=read_size,
                strict_n=strict_n,
                ignore_no_item_found=ignore_no_item_found,
            )
            new_reader.open()
        except BaseException:
            if self._open_readers <= 0:  # do not keep running without any reader
                self.exit()
            raise
''','''        self._ensure_buffer()
        reader_kwargs = dict(
            read_size=read_size,
            strict_n=strict_n,
            ignore_no_item_found=ignore_no_item_found,
        )
        new_reader = None
        try:
            new_reader = self._stream_buffer.mk_reader(**reader_kwargs)
            new_reader.open()
        except BaseException as error:
            if not self._open_readers > 0:  # do not keep running without any reader
                self.exit()
            raise error
'''))
ref('r2-ss-defaulted', ['C08','C10'],
 (SS,'''    return {
        k: v if v is not None else defaults[k] for k, v in source_dict.items()
    }.values()
''','''    values = {}
    for name, value in source_dict.items():
        values[name] = defaults[name] if value is None else value
    return values.values()
'''))
ref('r2-ss-iter', ['C18'],
 (SS,'''        while True:
            _next = self.read()
            if _next is not None:
                yield _next
            elif getattr(self, 'is_stopped', False):
                return None
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''        while True:
            _next = self.read()
            if _next is None:
                if getattr(self, 'is_stopped', False):
                    break
                time.sleep(self._sleep_time_on_iter_none_s)
            else:
                yield _next
'''))
ref('r2-sr-iter', ['C18','C15'],
 (SR,'''            _next = self.read()
            if _next is not None:
                yield _next
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''            item = self.read()
            while item is None:
                time.sleep(self._sleep_time_on_iter_none_s)
                item = self.read()
            yield item
'''),
 (SR,'''            _next = self.read()
            if self.is_valid_data(_next):
                yield _next
            else:
                self.when_no_data(_next)
''','''            _next = self.read()
            if not self.is_valid_data(_next):
                self.when_no_data(_next)
                continue
            yield _next
'''))
ref('r2-si-read', ['C17'],
 (SI,'''            read_data = read_stream(self.open_instance)
            if read_data is None:  # no data yet
                return None
            if enumerate_data:
                read_data = (self.read_idx, read_data)
            self.read_idx += 1
            return read_data
''','''            read_data = read_stream(self.open_instance)
            if read_data is not None:
                index = self.read_idx
                self.read_idx = index + 1
                if enumerate_data:
                    return index, read_data
            return read_data
'''),
 (SI,'''    try:
        stream_buffer.start()
        yield stream_buffer
    finally:
        stream_buffer.stop()
''','''    with contextlib.ExitStack() as stack:
        stack.callback(stream_buffer.stop)
        stream_buffer.start()
        yield stream_buffer
'''))
ref('r2-si-with', ['C17'],
 (SI,'''    try:
        stream_buffer.start()
        yield stream_buffer
    finally:
        stream_buffer.stop()
''','''    try:
        stream_buffer.start()
        try:
            yield stream_buffer
        finally:
            pass
    finally:
        stream_buffer.exit(None, None, None)
'''),
 (SI,'''            if key is not None:
                return key(data)
            return data
''','''            return data if key is None else key(data)
'''))
ref('r2-ut-forward', ['C19'],
 (UT,'''    return obj.__self__.__enter__()
''','''    instance = obj.__self__
    return instance.__enter__()
'''),
 (UT,'''        return self.enter_func(self.func)
''','''        enter = self.enter_func
        entered = enter(self.func)
        return entered
'''),
 (UT,'''        return self.exit_func(self.func, exc_type, exc_val, exc_tb)
''','''        exception_info = (exc_type, exc_val, exc_tb)
        return self.exit_func(self.func, *exception_info)
'''),
 (UT,'''        return getattr(self.func, attrname)
''','''        wrapped = self.func
        value = getattr(wrapped, attrname)
        return value
'''))
ref('r2-ht-read', ['C20'],
 (HT,'''        encoding = self._init_kwargs.get('encoding')
        result = self._response.read(*self.response_read_args)
        timestamp = time.time()
        self._n_bytes_read += len(result)
        if encoding:
            result = result.decode(encoding)
        return timestamp, result
''','''        chunk = self._response.read(*self.response_read_args)
        timestamp = time.time()
        self._n_bytes_read = self._n_bytes_read + len(chunk)
        return timestamp, self._decoded(chunk)

    def _decoded(self, chunk):
        encoding = self._init_kwargs['encoding']
        return chunk.decode(encoding) if encoding else chunk
'''),
 (HT,'''        if method.upper() == 'GET':
            body = None
        if isinstance(body, str):
            body = body.encode()
''','''        if method.upper() == 'GET':
            data = None
        elif isinstance(body, str):
            data = body.encode()
        else:
            data = body
'''),
 (HT,'''            url, data=body, headers=headers, method=method
''','''            url, data=data, headers=headers, method=method
'''))
ref('r2-ht-args', ['C20'],
 (HT,'''        if response_read_args is None:
            response_read_args = ()
        if not isinstance(response_read_args, tuple):
            response_read_args = (response_read_args,)
        self.response_read_args = response_read_args
''','''        self.response_read_args = self._as_read_args(response_read_args)
'''),
 (HT,'''    @property
    def info(self) -> dict:
''','''    @staticmethod
    def _as_read_args(args):
        if args is None:
            return ()
        return args if isinstance(args, tuple) else (args,)

    @property
    def info(self) -> dict:
'''))
ref('r2-noop', ['C01','C06','C13','C16','C17','C19','C20','C21'],
 (SC,'''        k = self._key(item)
        i = bisect_left(self._keys, k)
        self._keys.insert(i, k)
''','''        k = self._key(item)
        _ = None
        i = bisect_left(self._keys, k)
        pass
        self._keys.insert(i, k)
'''),
 (BR,'''        with self._buffer.reader_lock() as reader:
            try:
                next_item = reader.find_gt(self.last_key)
''','''        _unused = len('x')
        with self._buffer.reader_lock() as reader:
            try:
                if False:
                    pass
                next_item = reader.find_gt(self.last_key)
'''),
 (SB,'''            while not self._stop_event.is_set():
''','''            assert True
            while not self._stop_event.is_set():
                0
'''),
 (SS,'''        self._open_readers += 1
''','''        del_me = self._open_readers
        del del_me
        self._open_readers += 1
'''),
 (SI,'''            self.read_idx = 0
''','''            ...
            self.read_idx = 0
'''),
 (UT,'''        return self.enter_func(self.func)
''','''        'enter'
        (lambda: None)()
        return self.enter_func(self.func)
'''),
 (HT,'''        timestamp = time.time()
''','''        {}
        timestamp = time.time()
'''),
 (RW,'''        self.__no_readers.acquire()
        self.__read''','''        0 if True else 1
        self.__no_readers.acquire()
        self.__read'''))
