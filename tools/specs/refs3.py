"""Refactorings that add state."""
SC='stream2py/utility/sorted_collection.py'; SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'
LD='stream2py/utility/locked_sorted_deque.py'; BR='stream2py/buffer_reader.py'; SB='stream2py/stream_buffer.py'
SS='stream2py/stream_source.py'; SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'
REFS=[]
def ref(id, props, *edits): REFS.append((id, props, list(edits)))
ref('r3-sd-appended', ['C01','C02','C03','C04','C06','C12','C14'],
 (SD,'''        self._maxlen = maxlen
''','''        self._maxlen = maxlen
        self._n_appended = 0
'''),
 (SD,'''        self._keys.append(k)
        self._items.append(item)
''','''        self._keys.append(k)
        self._items.append(item)
        self._n_appended += 1
'''))
ref('r3-sc-queries', ['C01','C02','C07'],
 (SC,'''        i = bisect_right(self._keys, k)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key above: %r' % (k,))
''','''        self._last_query = k
        i = bisect_right(self._keys, k)
        if i != len(self):
            return self._items[i]
        raise ValueError('No item found with key above: %r' % (k,))
'''))
ref('r3-br-count', ['C06','C07','C08','C09','C10','C11'],
 (BR,'''        self._stop_event = stop_event
''','''        self._stop_event = stop_event
        self._n_seen = 0
'''),
 (BR,'''        self._last_item = item
''','''        self._last_item = item
        self._n_seen = self._n_seen + 1
'''))
ref('r3-sb-stats', ['C12','C13','C14','C15'],
 (SB,'''        self._next_reader = None
        self._read_to_buffer_thread = None
''','''        self._next_reader = None
        self._read_to_buffer_thread = None
        self._n_read = 0
'''),
 (SB,'''                if data is not None:
                    self.source_buffer.append(data)
''','''                if data is not None:
                    self._n_read += 1
                    self.source_buffer.append(data)
'''))
ref('r3-lock-stats', ['C05','C06','C21','C12'],
 (RW,'''        self.__counter = 0
''','''        self.__counter = 0
        self.__most = 0
'''),
 (RW,'''        self.__counter += 1
''','''        self.__counter += 1
        self.__most = max(self.__most, self.__counter)
'''))
ref('r3-ss-total', ['C16','C18'],
 (SS,'''        self._open_readers += 1
''','''        self._open_readers += 1
        self._readers_ever = getattr(self, '_readers_ever', 0) + 1
'''))
ref('r3-sr-opened', ['C18','C17'],
 (SR,'''        self.open()
        self._closed = False
''','''        self.open()
        self._closed = False
        self._entered_at = time.time()
'''))
ref('r3-si-last', ['C17'],
 (SI,'''            self.read_idx += 1
''','''            self.last_data = read_data
            self.read_idx += 1
'''))
ref('r3-ut-wrapped', ['C19'],
 (UT,'''        self.exit_func = exit_func
''','''        self.exit_func = exit_func
        self._wrapped = func
'''),
 (UT,'''        return self.func(*args, **kwargs)
''','''        _ = self._wrapped
        return self.func(*args, **kwargs)
'''))
ref('r3-ht-status', ['C20'],
 (HT,'''        self._response = urllib.request.urlopen(self._request)
''','''        self._response = urllib.request.urlopen(self._request)
        self._opened_at = time.time()
'''),
 (HT,'''        self._n_bytes_read = 0
''','''        self._n_bytes_read = 0
        self._n_reads = 0
'''),
 (HT,'''        timestamp = time.time()
''','''        timestamp = time.time()
        self._n_reads += 1
'''))
