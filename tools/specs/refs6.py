"""Refactorings, sixth lot: helpers extracted, statements reordered, loops rewritten, other idioms."""
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
LD='stream2py/utility/locked_sorted_deque.py'; BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'
SS='stream2py/stream_source.py'; SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
REFS=[]
def ref(id, props, *edits): REFS.append((id, props, list(edits)))

ref('r6-ls-release-early', ['C05','C21','C06'], (RW, '''    def release(self, lock):
        self.__mutex.acquire()
        self.__counter -= 1
        if self.__counter == 0:
            lock.release()
        self.__mutex.release()
''','''    def release(self, lock):
        with self.__mutex:
            self.__counter = remaining = self.__counter - 1
            if not remaining:
                lock.release()
'''))
ref('r6-rw-helpers', ['C05','C21','C06'], (RW, '''    def reader_acquire(self):
        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
        self.__readers_queue.release()
''','''    def _admit_reader(self):
        with self.__no_readers:
            self.__read_switch.acquire(self.__no_writers)

    def reader_acquire(self):
        with self.__readers_queue:
            self._admit_reader()
'''))
ref('r6-rw-exitstack', ['C05','C21','C06'], (RW, '''        self.__readers_queue.acquire()
        self.__no_readers.acquire()
        self.__read_switch.acquire(self.__no_writers)
        self.__no_readers.release()
        self.__readers_queue.release()
''','''        for lock in (self.__readers_queue, self.__no_readers):
            lock.acquire()
        try:
            self.__read_switch.acquire(self.__no_writers)
        finally:
            for lock in (self.__no_readers, self.__readers_queue):
                lock.release()
'''))
ref('r6-sd-append-flag', ['C04','C12','C14'], (SD, '''        k = self._key(item)
        try:
            if not k > self._keys[-1]:
                raise ValueError(
                    'Item key must be greater than last item key to append: %r' % (k,)
                )
        except IndexError as e:
            if len(self._keys) != 0:
                raise e
        self._keys.append(k)
        self._items.append(item)
''','''        k = self._key(item)
        self._check_appendable(k)
        for seq, x in ((self._keys, k), (self._items, item)):
            seq.append(x)

    def _check_appendable(self, k):
        if len(self._keys) == 0:
            return
        last = self._keys[len(self._keys) - 1]
        if k > last:
            return
        raise ValueError(
            f'Item key must be greater than last item key to append: {k!r}'
        )
'''))
ref('r6-sd-drop-both', ['C04','C14'], (SD, '''        for _ in range(n):
            del self._keys[0]
            del self._items[0]
''','''        while n > 0:
            n -= 1
            for seq in (self._items, self._keys):
                seq.popleft()
'''))
ref('r6-sd-bounds', ['C02','C03','C01','C07','C09'], (SD, '''        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return item in islice(self._items, i, j)
''','''        i, j = self._bounds(self._key(item))
        return any(item is x or item == x for x in islice(self._items, i, j))

    def _bounds(self, low, high=None):
        """indices of the first item at or above low and of the first above high"""
        if high is None:
            high = low
        return bisect_left(self._keys, low), bisect_right(self._keys, high)
'''), (SD, '''        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return self._items.index(item, i, j)
''','''        return self._items.index(item, *self._bounds(self._key(item)))
'''), (SD, '''        k = self._key(item)
        i = bisect_left(self._keys, k)
        j = bisect_right(self._keys, k)
        return sum(1 for chk_item in islice(self._items, i, j) if chk_item == item)
''','''        i, j = self._bounds(self._key(item))
        total = 0
        for candidate in islice(self._items, i, j):
            if candidate == item:
                total += 1
        return total
'''), (SD, '''        i = bisect_left(self._keys, start)
        j = bisect_right(self._keys, stop)
        return self.range_by_index(i, j, step)
''','''        return self.range_by_index(
            bisect_left(self._keys, start), bisect_right(self._keys, stop), step
        )
'''))
ref('r6-sc-find-helper', ['C02','C07','C09'], (SC, '''        i = bisect_right(self._keys, k)
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key at or below: %r' % (k,))
''','''        return self._item_at(
            bisect_right(self._keys, k) - 1, 'No item found with key at or below: %r', k
        )

    def _item_at(self, i, message, k):
        if not 0 <= i < len(self):
            raise ValueError(message % (k,))
        return self._items[i]
'''), (SC, '''        i = bisect_left(self._keys, k)
        if i:
            return self._items[i - 1]
        raise ValueError('No item found with key below: %r' % (k,))
''','''        return self._item_at(
            bisect_left(self._keys, k) - 1, 'No item found with key below: %r', k
        )
'''), (SC, '''        i = bisect_left(self._keys, k)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key at or above: %r' % (k,))
''','''        return self._item_at(
            bisect_left(self._keys, k), 'No item found with key at or above: %r', k
        )
'''), (SC, '''        i = bisect_right(self._keys, k)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key above: %r' % (k,))
''','''        return self._item_at(
            bisect_right(self._keys, k), 'No item found with key above: %r', k
        )
'''))
ref('r6-sc-insert-slice', ['C01'], (SC, '''        k = self._key(item)
        i = bisect_right(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''','''        self._insert_at(bisect_right, item)

    def _insert_at(self, where, item):
        k = self._key(item)
        i = where(self._keys, k)
        self._items.insert(i, item)
        self._keys.insert(i, k)
'''), (SC, '''        k = self._key(item)
        i = bisect_left(self._keys, k)
        self._keys.insert(i, k)
        self._items.insert(i, item)
''','''        self._insert_at(bisect_left, item)
'''), (SC, '''        i = self.index(item)
        del self._keys[i]
        del self._items[i]
''','''        position = self.index(item)
        for seq in (self._items, self._keys):
            del seq[position]
'''))
ref('r6-br-iter-for', ['C11','C07'], (BR, '''        while True:
            try:
                _next = next(self)
            except StopIteration:
                # Stream is stopped and exhausted
                return

            if _next is not None:
                yield _next
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''        exhausted = object()
        _next = next(self, exhausted)
        while _next is not exhausted:
            if _next is None:
                time.sleep(self._sleep_time_on_iter_none_s)
            else:
                yield _next
            _next = next(self, exhausted)
'''))
ref('r6-br-iter-blocking', ['C11','C07'], (BR, '''        while True:
            try:
                _next = next(self)
            except StopIteration:
                # Stream is stopped and exhausted
                return

            if _next is not None:
                yield _next
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''        while True:
            _next = self.read(blocking=True)
            if _next is None:
                return
            yield _next
'''))
ref('r6-br-blocking-shared', ['C11','C08','C07'], (BR, '''            while True:
                was_stopped = self.is_stopped  # before reading: see __next__
                _read = self.read(
                    n,
                    peek=peek,
                    ignore_no_item_found=True,
                    strict_n=strict_n,
                    blocking=False,
                )
                if _read is not None:
                    return _read
                elif was_stopped:
                    return None
                else:
                    time.sleep(self._sleep_time_on_iter_none_s)
''','''            return self._wait_for(
                lambda: self.read(
                    n, peek=peek, ignore_no_item_found=True, strict_n=strict_n
                )
            )
'''), (BR, '''    def set_sleep_time_on_iter_none(self''','''    def _wait_for(self, read):
        """what read gives as soon as that is not None; None if the stream stops first"""
        was_stopped = self.is_stopped  # before reading: see __next__
        result = read()
        while result is None and not was_stopped:
            time.sleep(self._sleep_time_on_iter_none_s)
            was_stopped = self.is_stopped
            result = read()
        return result

    def set_sleep_time_on_iter_none(self'''))
ref('r6-br-cursor-setter', ['C07','C08','C09','C10'], (BR, '''        self._last_key = self._buffer.key(item)
        self._last_item = item
''','''        self._last_item, self._last_key = item, self._buffer.key(item)
'''), (BR, '''        del self._last_item
        self._last_item = None
        del self._last_key
        self._last_key = None
''','''        self._last_item = self._last_key = None
'''))
ref('r6-br-head-tail', ['C09','C06','C08'], (BR, '''        with self._buffer.reader_lock() as reader:
            item = reader[0]
        if not peek:
            self.last_item = item
        return item
''','''        with self._buffer.reader_lock() as reader:
            item = reader[0]
        return self._seen(item, peek)

    def _seen(self, item, peek):
        if not peek:
            self.last_item = item
        return item
'''), (BR, '''                    if ignore_no_item_found:
                        return None
                    raise e
        if not peek:
            self.last_item = item
        return item
''','''                    if not ignore_no_item_found:
                        raise e
                    return None
        return self._seen(item, peek)
'''))
ref('r6-br-range-max', ['C09','C06'], (BR, '''                _start = start if start > _next_key else _next_key
            else:
                _start = start
            if start_le is True:
                with suppress(
                    ValueError
                ):  # ValueError: No item found with key at or below: _start
                    _start = reader.key(reader.find_le(_start))
''','''                if not start > _next_key:
                    start = _next_key
            if start_le is True:
                try:
                    floor = reader.find_le(start)
                except ValueError:  # No item found with key at or below: start
                    pass
                else:
                    start = reader.key(floor)
'''), (BR, 'items = reader.range(_start, stop, step)', 'items = reader.range(start, stop, step)'))
ref('r6-sb-run-for', ['C12','C13','C14','C06'], (SB, '''                if (
                    self.auto_drop is True
                    or self._maxlen is None
                    or len(self.source_buffer) < self._maxlen
                ):
                    data = self.source_reader.read()
                else:
                    data = None

                if data is not None:
                    self.source_buffer.append(data)
                else:
                    time.sleep(self._sleep_time_on_read_none_s)
''','''                data = self.source_reader.read() if self._has_room() else None
                if data is None:
                    time.sleep(self._sleep_time_on_read_none_s)
                    continue
                self.source_buffer.append(data)
'''), (SB, '''    def _set_read_to_buffer_thread_and''','''    def _has_room(self):
        """whether another item can be read"""
        if self.auto_drop is True or self._maxlen is None:
            return True
        return len(self.source_buffer) < self._maxlen

    def _set_read_to_buffer_thread_and'''))
ref('r6-sb-run-nested', ['C12','C13','C14','C15'], (SB, '''        finally:
            if not self._stop_event.is_set():
                self._stop_event.set()
            try:
                self.source_reader.close()
            except Exception as e:
                logger.error(e)
''','''        finally:
            self._end_run()

    def _end_run(self):
        self._stop_event.set()
        try:
            self.source_reader.close()
        except Exception as e:
            logger.error(e)
'''))
ref('r6-sb-require', ['C10','C15'], (SB, '''            if not isinstance(self.source_buffer, _SourceBuffer):
                raise StreamNotStartedError(
                    'StreamBuffer must be started before creating readers. '
                    'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
                )
            return self.source_buffer.mk_reader(**read_kwargs)
''','''            return self._started('creating').mk_reader(**read_kwargs)

    def _started(self, doing):
        buffer = self.source_buffer
        if isinstance(buffer, _SourceBuffer):
            return buffer
        raise StreamNotStartedError(
            f'StreamBuffer must be started before {doing} readers. '
            'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
        )
'''), (SB, '''            if not isinstance(self.source_buffer, _SourceBuffer):
                raise StreamNotStartedError(
                    'StreamBuffer must be started before attaching readers. '
                    'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
                )
            return self.source_buffer.attach_reader(reader)
''','''            return self._started('attaching').attach_reader(reader)
'''))
ref('r6-sb-running', ['C15','C13'], (SB, '''            return self._stop_event is not None and not self._stop_event.is_set()
''','''            event = self._stop_event
            if event is None:
                return False
            return not event.is_set()
'''), (SB, '''            try:
                self._open()
                self._read_to_buffer_thread.start()
            except BaseException:
                self._stop_event.set()  # not running
                raise
''','''            running = False
            try:
                self._open()
                self._read_to_buffer_thread.start()
                running = True
            finally:
                if not running:
                    self._stop_event.set()
'''))
ref('r6-sb-pause', ['C12'], (SB, '''        if isinstance(sleep_time_on_read_none_s, (int, float)):
            self._sleep_time_on_read_none_s = sleep_time_on_read_none_s
        elif isinstance(source_reader.sleep_time_on_read_none_s, (int, float)):
            self._sleep_time_on_read_none_s = source_reader.sleep_time_on_read_none_s
        else:
            self._sleep_time_on_read_none_s = DFLT_SLEEP_TIME_ON_READ_NONE_S  # default
''','''        for pause in (
            sleep_time_on_read_none_s,
            source_reader.sleep_time_on_read_none_s,
            DFLT_SLEEP_TIME_ON_READ_NONE_S,
        ):
            if isinstance(pause, (int, float)):
                self._sleep_time_on_read_none_s = pause
                break
'''))
ref('r6-ss-count', ['C16'], (SS, '''    def _handle_reader_closed(self):
        self._open_readers -= 1
        if self._open_readers <= 0:
            self.exit()
''','''    def _handle_reader_closed(self):
        self._open_readers -= 1
        self._exit_if_unused()

    def _exit_if_unused(self):
        if self._open_readers <= 0:
            self.exit()
'''), (SS, '''        except BaseException:
            if self._open_readers <= 0:  # do not keep running without any reader
                self.exit()
            raise
        self._handle_reader_open()
        new_reader.onclose = self._handle_reader_closed
        return new_reader
''','''        except BaseException:
            self._exit_if_unused()  # do not keep running without any reader
            raise
        else:
            self._handle_reader_open()
            new_reader.onclose = self._handle_reader_closed
            return new_reader
'''))
ref('r6-sr-iter', ['C18'], (SR, '''            _next = self.read()
            if _next is not None:
                yield _next
            else:
                time.sleep(self._sleep_time_on_iter_none_s)
''','''            _next = self.read()
            while _next is None:
                time.sleep(self._sleep_time_on_iter_none_s)
                _next = self.read()
            yield _next
'''), (SR, '''            _next = self.read()
            if self.is_valid_data(_next):
                yield _next
            else:
                self.when_no_data(_next)
''','''            _next = self.read()
            if not self.is_valid_data(_next):
                self.when_no_data(_next)
                continue
            yield _next
'''))
