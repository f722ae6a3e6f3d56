SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
LD='stream2py/utility/locked_sorted_deque.py'; BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'
SS='stream2py/stream_source.py'; SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
READERS=['C06','C07','C08','C09','C10','C11']
REFS=[]
def ref(id, props, *edits): REFS.append((id, props, list(edits)))

ref('sc-bounds-helper', ['C01','C02'],
 (SC,'''    def __contains__(self, item):
        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return item in self._items[i:j]
''','''    def _bounds(self, k):
        return bisect_left(self._keys, k), bisect_right(self._keys, k)

    def __contains__(self, item):
        i, j = self._bounds(self._key(item))
        return any(x is item or x == item for x in self._items[i:j])
'''),
 (SC,'''        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return self._items[i:j].index(item) + i
''','''        i, j = self._bounds(self._key(item))
        return self._items.index(item, i, j)
'''),
 (SC,'''        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return self._items[i:j].count(item)
''','''        i, j = self._bounds(self._key(item))
        found = self._items[i:j]
        return found.count(item)
'''))
ref('sc-insert-helper', ['C01'],
 (SC,'''        k = self._key(item)
        i = bisect_left(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''','''        k = self._key(item)
        self._insert_at(bisect_left(self._keys, k), k, item)

    def _insert_at(self, i, k, item):
        self._items.insert(i, item)
        self._keys.insert(i, k)
'''),
 (SC,'''        k = self._key(item)
        i = bisect_right(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''','''        k = self._key(item)
        self._insert_at(bisect_right(self._keys, k), k, item)
'''))
ref('sc-init-loop', ['C01','C03','C04'],
 (SC,'''        self._keys = [k for k, item in decorated]
        self._items = [item for k, item in decorated]
        self._key = key
''','''        self._key = key
        self._keys, self._items = [], []
        for k, item in decorated:
            self._keys.append(k)
            self._items.append(item)
'''))
ref('sc-find-early', ['C02'],
 (SC,'''        i = bisect_right(self._keys, k)
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key at or below: %r' % (k,))
''','''        i = bisect_right(self._keys, k)
        if i == 0:
            raise ValueError('No item found with key at or below: %r' % (k,))
        return self._items[i - 1]
'''),
 (SC,'''        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key above: %r' % (k,))
''','''        n = len(self._items)
        if i < n:
            return self._items[i]
        raise ValueError(f'No item found with key above: {k!r}')
'''))
ref('sd-append-check', ['C04','C03','C12'],
 (SD,'''        try:
            if not k > self._keys[-1]:
                raise ValueError(
                    'Item key must be greater than last item key to append: %r' % (k,)
                )
        except IndexError as e:
            if len(self._keys) != 0:
                raise e
''','''        if self._keys and not k > self._keys[-1]:
            raise ValueError(
                'Item key must be greater than last item key to append: %r' % (k,)
            )
'''))
ref('sd-drop-popleft', ['C04','C03','C14'],
 (SD,'''            del self._keys[0]
            del self._items[0]
''','''            self._items.popleft()
            self._keys.popleft()
'''))
ref('sd-range-comp', ['C05','C09'],
 (SD,'''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''','''        j = bisect_right(self._keys, stop)
        i = bisect_left(self._keys, start)
        return [item for item in islice(self._items, i, j, step)]
'''))
ref('sd-lastgt', ['C05','C09'],
 (SD,'''        try:
            if self._keys[-1] > k:
                return self._items[-1]
        except IndexError as e:
            if len(self._keys) != 0:
                raise e
        raise ValueError('No item found with key above: %r' % (k,))
''','''        if len(self._keys) > 0 and self._keys[-1] > k:
            return self._items[-1]
        raise ValueError('No item found with key above: %r' % (k,))
'''))
ref('rw-with', ['C21'],
 (RW,'''        self.__mutex.acquire()
        self.__counter += 1
        if self.__counter == 1:
            lock.acquire()
        self.__mutex.release()
''','''        with self.__mutex:
            self.__counter += 1
            first = self.__counter == 1
            if first:
                lock.acquire()
'''),
 (RW,'''        self.__mutex.acquire()
        self.__counter -= 1
        if self.__counter == 0:
            lock.release()
        self.__mutex.release()
''','''        with self.__mutex:
            self.__counter -= 1
            if not self.__counter:
                lock.release()
'''))
ref('rw-reader-with', ['C21','C06'],
 (RW,'''        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
        self.__readers_queue.release()
''','''        with self.__readers_queue:
            with self.__no_readers:
                self.__read_switch.acquire(self.__no_writers)
'''))
ref('ld-acquire-first', ['C06','C12'],
 (LD,'''        try:
            self.reader_acquire()
            yield self._sorted_deque
''','''        self.reader_acquire()
        try:
            yield self._sorted_deque
'''),
 (LD,'''        try:
            self.writer_acquire()
            yield self._sorted_deque
''','''        self.writer_acquire()
        try:
            yield self._sorted_deque
'''))
ref('br-read-helpers', READERS,
 (BR,'''            if n > 1:
                i = reader.index(next_item)
                j = i + n
                if strict_n and j > len(reader):
                    raise ValueError(
                        f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                    )

                next_items_list = reader.range_by_index(i, j)
                if not peek:
                    self.last_item = next_items_list[-1]
                return next_items_list
            if not peek:
                self.last_item = next_item
            return next_item
''','''            if n > 1:
                found = self._next_items(reader, next_item, n, strict_n)
                newest = found[-1]
            else:
                found = newest = next_item
            if not peek:
                self.last_item = newest
            return found

    @staticmethod
    def _next_items(reader, first, n, strict_n):
        i = reader.index(first)
        if strict_n and len(reader) < i + n:
            raise ValueError(
                f'Number of items found is less than n: strict_n={strict_n}, n={n}'
            )
        return reader.range_by_index(i, i + n)
'''))
ref('br-blocking-helper', ['C06','C08','C11'],
 (BR,'''        if blocking is True:
            while True:
                was_stopped = self.is_stopped  # before reading: see __next__
                _read = self.read(
                    n,
                    peek=peek,
                    ignore_no_item_found=True,
                    strict_n=strict_n,
                    blocking=False,
                )
                if _read is not None:
                    return _read
                elif was_stopped:
                    return None
                else:
                    time.sleep(self._sleep_time_on_iter_none_s)
''','''        if blocking is True:
            was_stopped = False
            _read = None
            while _read is None and not was_stopped:
                was_stopped = self.is_stopped  # before reading: see __next__
                _read = self.read(
                    n,
                    peek=peek,
                    ignore_no_item_found=True,
                    strict_n=strict_n,
                    blocking=False,
                )
                if _read is None and not was_stopped:
                    time.sleep(self._sleep_time_on_iter_none_s)
            return _read
'''))
ref('br-iter-continue', ['C11','C06'],
 (BR,'''            try:
                _next = next(self)
            except StopIteration:
                # Stream is stopped and exhausted
                return

            if _next is not None:
                yield _next
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''            try:
                _next = self.__next__()
            except StopIteration:
                break
            if _next is None:
                time.sleep(self._sleep_time_on_iter_none_s)
                continue
            yield _next
'''))
ref('br-range-split', READERS,
 (BR,'''        with self._buffer.reader_lock() as reader:
            if only_new_items and self.last_key is not None:
                # not self.read(): it would acquire the reader lock a second time
                try:
                    _next_key = reader.key(reader.find_gt(self.last_key))
                except ValueError as e:  # ValueError: No item found with key above:
                    # self.last_key
                    if ignore_no_item_found:
                        return None
                    raise e
                _start = start if start > _next_key else _next_key
            else:
                _start = start
            if start_le is True:
                with suppress(
                    ValueError
                ):  # ValueError: No item found with key at or below: _start
                    _start = reader.key(reader.find_le(_start))
            if stop_ge is True:
                try:
                    stop = reader.key(reader.find_ge(stop))
                except ValueError as e:  # ValueError: No item found with key at or above: stop
                    if ignore_no_item_found:
                        return None
                    raise e

            items = reader.range(_start, stop, step)
''','''        with self._buffer.reader_lock() as reader:
            try:
                if only_new_items and self.last_key is not None:
                    start = max(start, reader.key(reader.find_gt(self.last_key)))
                if stop_ge is True:
                    stop = reader.key(reader.find_ge(stop))
            except ValueError:
                if not ignore_no_item_found:
                    raise
                return None
            if start_le is True:
                try:
                    start = reader.key(reader.find_le(start))
                except ValueError:
                    pass
            items = reader.range(start, stop, step)
'''))
ref('br-tail-first', ['C09','C06','C10'],
 (BR,'''        with self._buffer.reader_lock() as reader:
            if only_new_items:
                try:
                    item = reader.find_last_gt(self.last_key)
                except ValueError as e:  # ValueError: No item found with key above: self.last_key
                    if ignore_no_item_found:
                        return None
                    raise e
                except TypeError as e:
                    # TypeError: '>' not supported between instances of type(key) and 'NoneType'
                    if self.last_item is None:  # first time reading a value from buffer
                        item = reader[-1]
                    else:
                        raise e
            else:
                try:
                    item = reader[-1]
                except IndexError as e:  # IndexError: deque index out of range
                    if ignore_no_item_found:
                        return None
                    raise e
        if not peek:
            self.last_item = item
        return item
''','''        with self._buffer.reader_lock() as reader:
            try:
                if only_new_items and self.last_item is not None:
                    item = reader.find_last_gt(self.last_key)
                else:
                    item = reader[-1]
            except (ValueError, IndexError):
                if ignore_no_item_found:
                    return None
                raise
        if not peek:
            self.last_item = item
        return item
'''))
ref('br-kwargs', ['C08','C11','C10'],
 (BR,'''        self._read_kwargs = dict(
            n=self.read_size,
            peek=self.peek,
            ignore_no_item_found=self.ignore_no_item_found,
            strict_n=self.strict_n,
        )
''','''        self._read_kwargs = {
            'n': read_size,
            'peek': peek,
            'strict_n': strict_n,
            'ignore_no_item_found': ignore_no_item_found,
        }
'''),
 (BR,'''        self._read_kwargs_for_next = dict(self._read_kwargs, ignore_no_item_found=True)
''','''        self._read_kwargs_for_next = {**self._read_kwargs, 'ignore_no_item_found': True}
'''))
ref('sb-run-helper', ['C12','C13','C14'],
 (SB,'''            while not self._stop_event.is_set():
                # check if buffer is full and skip read or append
                if (
                    self.auto_drop is True
                    or self._maxlen is None
                    or len(self.source_buffer) < self._maxlen
                ):
                    data = self.source_reader.read()
                else:
                    data = None

                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
''','''            while not self._stop_event.is_set():
                data = self.source_reader.read() if self._has_room() else None
                if data is None:
                    time.sleep(self._sleep_time_on_read_none_s)
                    continue
                self.source_buffer.append(data)
'''),
 (SB,'''    def _set_read_to_buffer_thread_and''','''    def _has_room(self):
        """False if the buffer is full and may not drop items"""
        if self.auto_drop is True or self._maxlen is None:
            return True
        return len(self.source_buffer) < self._maxlen

    def _set_read_to_buffer_thread_and'''))
ref('sb-run-locals', ['C12','C13','C14'],
 (SB,'''            while not self._stop_event.is_set():
                # check if buffer''','''            stop_event, source, buffer = self._stop_event, self.source_reader, self.source_buffer
            while not stop_event.is_set():
                # check if buffer'''),
 (SB,'data = self.source_reader.read()','data = source.read()'),
 (SB,'self.source_buffer.append(data)','buffer.append(data)'))
ref('sb-finally', ['C13'],
 (SB,'''            if not self._stop_event.is_set():
                self._stop_event.set()
            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
''','''            self._stop_event.set()
            self._close()

    def _close(self):
        try:
            self.source_reader.close()
        except Exception as error:
            logger.error(error)
'''))
ref('sb-start-reorder', ['C15','C13','C16'],
 (SB,'''        self.source_buffer = None
        self._next_reader = None
        self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
        self._stop_event = threading.Event()
''','''        self._stop_event = threading.Event()
        self._read_to_buffer_thread = threading.Thread(target=self._run)
        self._read_to_buffer_thread.daemon = True
        self._next_reader = self.source_buffer = None
'''))
ref('sb-not-started', ['C15','C10'],
 (SB,'''        with self.start_lock:
            if not isinstance(self.source_buffer, _SourceBuffer):
                raise StreamNotStartedError(
                    'StreamBuffer must be started before creating readers. '
                    'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
                )
            return self.source_buffer.mk_reader(**read_kwargs)
''','''        with self.start_lock:
            source_buffer = self.source_buffer
            if source_buffer is None:
                raise StreamNotStartedError(
                    'StreamBuffer must be started before creating readers. '
                    'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
                )
            return source_buffer.mk_reader(**read_kwargs)
'''))
ref('ss-open-helper', ['C16'],
 (SS,'''        self._ensure_buffer()
        try:
            new_reader = self._stream_buffer.mk_reader(
                read_size=read_size,
                strict_n=strict_n,
                ignore_no_item_found=ignore_no_item_found,
            )
            new_reader.open()
        except BaseException:
''','''        self._ensure_buffer()
        options = dict(
            read_size=read_size,
            strict_n=strict_n,
            ignore_no_item_found=ignore_no_item_found,
        )
        try:
            new_reader = self._stream_buffer.mk_reader(**options)
            new_reader.open()
        except BaseException:
'''),
 (SS,'''        self._handle_reader_open()
        new_reader.onclose = self._handle_reader_closed
        return new_reader
''','''        new_reader.onclose = self._handle_reader_closed
        self._open_readers = self._open_readers + 1
        return new_reader
'''))
ref('ss-iter', ['C18'],
 (SS,'''            _next = self.read()
            if _next is not None:
                yield _next
            elif getattr(self, 'is_stopped', False):
                return None
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''            _next = self.read()
            if _next is None:
                if getattr(self, 'is_stopped', False):
                    return
                time.sleep(self._sleep_time_on_iter_none_s)
            else:
                yield _next
'''))
ref('sr-context', ['C18'],
 (SR,'''        self.open()
        self._closed = False
        return self

    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        self.close()
        self._closed = True
''','''        self.open()
        self._set_closed(False)
        return self

    def _set_closed(self, closed):
        self._closed = closed

    def __exit__(self, *exc_info) -> None:
        self.close()
        self._set_closed(True)
'''))
ref('si-read', ['C17'],
 (SI,'''            read_data = read_stream(self.open_instance)
            if read_data is None:  # no data yet
                return None
            if enumerate_data:
                read_data = (self.read_idx, read_data)
            self.read_idx += 1

            return read_data
''','''            read_data = read_stream(self.open_instance)
            if read_data is not None:
                i = self.read_idx
                self.read_idx = i + 1
                if enumerate_data:
                    return i, read_data
            return read_data
'''),
 (SI,'''            if key is not None:
                return key(data)
            return data
''','''            return data if key is None else key(data)
'''))
ref('si-try', ['C17'],
 (SI,'''            if info is not None:
                return info(self.open_instance)
            return {
                'open_time': self.open_time,
                'open_instance': str(self.open_instance),
            }
''','''            if info is None:
                return dict(
                    open_time=self.open_time, open_instance=str(self.open_instance)
                )
            return info(self.open_instance)
'''))
ref('ut-valid', ['C19'],
 (UT,'''    return len(signature(func).parameters) >= mininum_n_args
''','''    n_args = len(signature(func).parameters)
    return n_args >= mininum_n_args
'''),
 (UT,'''    return any(
        x.kind == Parameter.VAR_POSITIONAL for x in signature(func).parameters.values()
    )
''','''    for parameter in signature(func).parameters.values():
        if parameter.kind == Parameter.VAR_POSITIONAL:
            return True
    return False
'''),
 (UT,'''        return callable(obj) and (
            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
        )
''','''        if not callable(obj):
            return False
        return _has_min_num_of_arguments(obj, 4) or _callable_has_a_variadic_pos(obj)
'''))
ref('ut-order', ['C19'],
 (UT,'''        wraps(func, updated=())(self)
        # assignment
        self.func = func
        self.enter_func = enter_func
        self.exit_func = exit_func
''','''        update_wrapper(self, func, updated=())
        # assignment
        self.exit_func = exit_func
        self.enter_func = enter_func
        self.func = func
'''),(UT,'from functools import wraps\n','from functools import update_wrapper\n'))
ref('ht-close', ['C20'],
 (HT,'''        if self._response:
            self._response.__exit__()
            self._response = None
''','''        response = self._response
        if not response:
            return
        response.__exit__()
        self._response = None
'''),
 (HT,'''        encoding = self._init_kwargs.get('encoding')
        result = self._response.read(*self.response_read_args)
        timestamp = time.time()
        self._n_bytes_read += len(result)
        if encoding:
            result = result.decode(encoding)
        return timestamp, result
''','''        result = self._response.read(*self.response_read_args)
        timestamp = time.time()
        self._n_bytes_read = self._n_bytes_read + len(result)
        return timestamp, self._decoded(result)

    def _decoded(self, result):
        encoding = self._init_kwargs.get('encoding')
        if not encoding:
            return result
        return result.decode(encoding)
'''))
ref('ht-init', ['C20'],
 (HT,'''        if method.upper() == 'GET':
            body = None
        if isinstance(body, str):
            body = body.encode()
''','''        is_get = method.upper() == 'GET'
        if is_get:
            body = None
        elif isinstance(body, str):
            body = body.encode('utf-8')
'''))
