From d1a8e79e58b099d88b6cc37154ec326d9ca46f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 01/25] fix: SortedCollection compared items when keys were
 equal

---
 stream2py/utility/sorted_collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4dd2757..df2ea91 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -79,7 +79,8 @@ class SortedCollection(object):
     def __init__(self, iterable=(), key=None):
         self._given_key = key
         key = (lambda x: x) if key is None else key
-        decorated = sorted((key(item), item) for item in iterable)
+        # sort by key only: items need not be comparable and equal keys keep their order
+        decorated = sorted(((key(item), item) for item in iterable), key=lambda x: x[0])
         self._keys = [k for k, item in decorated]
         self._items = [item for k, item in decorated]
         self._key = key
-- 
2.43.0


From c0dfa5645269f6541a31d77c675a012cc4ade5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 02/25] fix: changing the key function of a SortedDeque dropped
 its maxlen

---
 stream2py/utility/sorted_deque.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..2c4939b 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,12 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    def _delkey(self):
+        self._setkey(None)
+
+    # the property of SortedCollection is bound to its own setter, which drops maxlen
+    key = property(SortedCollection._getkey, _setkey, _delkey, 'key function')
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From 7393a7603cf49531774694f1baeee7d5aff9d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 03/25] fix: strict_n read failed when exactly n items were
 available

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..86d21df 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -406,7 +406,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From 33e49ac2206842bd001bbb6a2140b423c9e405c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 04/25] fix: read ignored the peek default given to the reader

---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 86d21df..ca8973e 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -361,8 +361,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From d370a1537822419ba18c24ff8d9c9060254e2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 05/25] fix: range(only_new_items=True) re-entered the reader
 lock and failed on identity keys

---
 stream2py/buffer_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ca8973e..7453989 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -260,12 +260,11 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
+                # not self.read(): it would acquire the reader lock a second time
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above:
+                    # self.last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From bb39ce81e8bc66583596c1a51935fc996c699e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 06/25] fix: iteration and blocking reads could end before the
 last items were delivered

---
 stream2py/buffer_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 7453989..f6c2929 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -150,8 +150,6 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
@@ -164,11 +162,13 @@ class BufferReader:
         This makes BufferReader compatible with Python's iterator protocol while
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
+        # Items may still be added until the stream is stopped, so check before reading
+        was_stopped = self.is_stopped
         # Call read with the args fixed by init
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and was_stopped:
             raise StopIteration
 
         return result
@@ -379,6 +379,7 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                was_stopped = self.is_stopped  # before reading: see __next__
                 _read = self.read(
                     n,
                     peek=peek,
@@ -388,7 +389,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif was_stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 6c5194fd4cfaa0e7c096132ab4a3a9e5d5bd6782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 07/25] fix: closing a reader without onclose failed and
 closing twice called onclose twice

---
 stream2py/buffer_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index f6c2929..0d3454b 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -80,8 +80,8 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
-    onopen: Callable
+    onclose: Callable = None
+    onopen: Callable = None
 
     def __init__(
         self,
@@ -445,8 +445,9 @@ class BufferReader:
         return self
 
     def close(self):
-        if self.onclose:
-            self.onclose()
+        onclose, self.onclose = self.onclose, None  # closing again has no effect
+        if onclose:
+            onclose()
 
     def __enter__(self):
         return self.enter()
-- 
2.43.0


From b5faf2272e7b5f98ae7ee6ec50e23ff55f432cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 08/25] fix: restarting did not wait for the previous session
 to end

---
 stream2py/stream_buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..ea3b128 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -275,6 +275,10 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
+        # the previous run uses the same source: it must have ended and closed it
+        previous_thread = self._read_to_buffer_thread
+        if previous_thread is not None and previous_thread.is_alive():
+            previous_thread.join()
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From 047cf44ad832c5776a2f9dda1c8d1f0b2106473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 09/25] fix: stream buffer reported to be running after its
 source failed to open

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index ea3b128..ee54459 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -180,7 +180,11 @@ class StreamBuffer:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
+            try:
+                self._open()
+            except BaseException:
+                self._stop_event.set()  # not running
+                raise
             self._read_to_buffer_thread.start()
 
     def stop(self):
-- 
2.43.0


From 7e4f78f5cb07f9ae2787e87ab357a1247e3b550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 10/25] fix: unlimited buffer with auto_drop=False failed to
 read

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index ee54459..7d6f15f 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -257,7 +257,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From e28ba958db9b67ca1eb0d6d6d3af067ad49e79cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 11/25] fix: next() on a restarted stream buffer kept reading
 the previous session

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 7d6f15f..caf908c 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -288,6 +288,7 @@ class StreamBuffer:
         if previous_thread is not None and previous_thread.is_alive():
             previous_thread.join()
         self.source_buffer = None
+        self._next_reader = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
 
-- 
2.43.0


From f395a4ea540d3fad9a0a4e4f24139a470697f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 12/25] fix: attached reader kept the source info of its
 previous buffer

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index caf908c..dae28f6 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -76,6 +76,7 @@ class _SourceBuffer:
     def attach_reader(self, reader):
         reader._buffer = self._buffer
         reader._stop_event = self._stop_event
+        reader._source_reader_info = self._source_reader_info
 
 
 class StreamBuffer:
-- 
2.43.0


From b1b689f52419895a98ecc601837b6b8af8b56e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 13/25] fix: stream source was not restarted after all its
 readers had been closed

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..bce3801 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -103,6 +103,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if self._open_readers <= 0:
             self._stream_buffer.start()
 
     def _handle_reader_open(self):
-- 
2.43.0


From 60fbbc878bd17da22199dbba8a18a08e68f7818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 14/25] fix: iterating a StreamSource failed on the first read
 of None

---
 stream2py/stream_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index bce3801..4e5a3c6 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -71,7 +71,7 @@ class StreamSource(Source, metaclass=ABCMeta):
             _next = self.read()
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
+            elif getattr(self, 'is_stopped', False):
                 return None
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 8f5de9a4605c722a93b81c6689587c1ac9a7bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 15/25] fix: StreamSource.get_timestamp used a class attribute
 that does not exist

---
 stream2py/stream_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 4e5a3c6..82f790e 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -163,7 +163,7 @@ class StreamSource(Source, metaclass=ABCMeta):
 
         :return: timestamp in UTC microseconds
         """
-        return int(time.time() * cls.timestamp_seconds_to_unit_conversion)
+        return int(time.time() * timestamp_seconds_to_unit_conversion)
 
     def exit(self):
         if self._stream_buffer:
-- 
2.43.0


From 6621629d845cd5bce06f09f11d426e6ac2ca89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 16/25] fix: StreamSource ignored its reader_cls

---
 stream2py/stream_source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 82f790e..048b36c 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -100,6 +100,11 @@ class StreamSource(Source, metaclass=ABCMeta):
         )
         return self
 
+    @property
+    def buffer_reader_class(self):
+        """Class of the readers made by the StreamBuffer"""
+        return self._reader_cls
+
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
-- 
2.43.0


From e47d1b4e20500f61c9f093cb4517f5d59b21475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 17/25] fix: mk_stream_buffer enumerated and buffered reads of
 None

---
 stream2py/simply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..17394f0 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,6 +96,8 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
+            if read_data is None:  # no data yet
+                return None
             if enumerate_data:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
-- 
2.43.0


From 10db76165bcaa2c16543078e313f4289eeac5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 18/25] fix: attributes of the wrapped callable overwrote those
 of ContextualizeCall

---
 stream2py/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 758a7b9..a1b08a2 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -125,12 +125,14 @@ class ContextualizeCall:
             f'Not a valid exit function (should be a callable with at least one arg or '
             f'varadic args): {exit_func}',
         )
+        # wrapping self with attributes of func (signature, name, etc.)
+        # but not func.__dict__: it could overwrite the attributes assigned below, and
+        # __getattr__ delegates to func anyway
+        wraps(func, updated=())(self)
         # assignment
         self.func = func
         self.enter_func = enter_func
         self.exit_func = exit_func
-        # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
 
     def __call__(self, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From 71e3cb1ef84aa6523f533de23e8beb5579e014c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 19/25] fix: invalid exit functions were accepted by
 ContextualizeCall

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index a1b08a2..fc8598d 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -55,7 +55,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From bfe9efd09fc2b033ad0a331068162bb9da1b7de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 20/25] fix: HTTPResponseReader ignored its method and body

---
 stream2py/sources/http.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..cc8b73e 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -52,6 +52,8 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        if isinstance(body, str):
+            body = body.encode()
 
         self._url = url
         self._n_bytes_read = 0
@@ -98,10 +100,7 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
-        request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
-        )
-        self._response = urllib.request.urlopen(request)
+        self._response = urllib.request.urlopen(self._request)
 
     def close(self):
         if self._response:
-- 
2.43.0


From 694852a125810b07ecf5a2ea7492fb423de9debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 21/25] fix: HTTPResponseReader never updated n_bytes_read

---
 stream2py/sources/http.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index cc8b73e..ab1a226 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -113,6 +113,7 @@ class HTTPResponseReader(SourceReader):
         encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
         timestamp = time.time()
+        self._n_bytes_read += len(result)
         if encoding:
             result = result.decode(encoding)
         return timestamp, result
-- 
2.43.0


From 5dfd2a54ade24cf862b117efed2746dc29341f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 22/25] fix: StreamBuffer.source_reader_info returned None
 while the buffer was empty

---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index dae28f6..e8fa811 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -228,7 +228,7 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
+        if self.source_buffer is not None:  # an empty source_buffer is falsy
             return self.source_buffer.source_reader_info
         return None
 
-- 
2.43.0


From cf4f2ee53e5a562022782c8ac8acd87663620ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 23/25] fix: StreamSource kept running without any reader when
 a reader failed to open

---
 stream2py/stream_source.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 048b36c..4263475 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -129,13 +129,18 @@ class StreamSource(Source, metaclass=ABCMeta):
             instead of raising exception during a read
         """
         self._ensure_buffer()
-        new_reader = self._stream_buffer.mk_reader(
-            read_size=read_size,
-            strict_n=strict_n,
-            ignore_no_item_found=ignore_no_item_found,
-        )
+        try:
+            new_reader = self._stream_buffer.mk_reader(
+                read_size=read_size,
+                strict_n=strict_n,
+                ignore_no_item_found=ignore_no_item_found,
+            )
+            new_reader.open()
+        except BaseException:
+            if self._open_readers <= 0:  # do not keep running without any reader
+                self.exit()
+            raise
         self._handle_reader_open()
-        new_reader.open()
         new_reader.onclose = self._handle_reader_closed
         return new_reader
 
-- 
2.43.0


From 8896ef3c3320de056c81be411e7caa8150802bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 24/25] fix: ContextualizeCall refused calls with a keyword
 argument named self

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index fc8598d..5aa186a 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -134,7 +134,7 @@ class ContextualizeCall:
         self.enter_func = enter_func
         self.exit_func = exit_func
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         return self.func(*args, **kwargs)
 
     def __enter__(self):
-- 
2.43.0


From e028c461c4650dfec47ba68a3e259c4c9b77d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:56 +0000
Subject: [PATCH 25/25] fix: a start that gets no thread leaves the stream
 buffer not running

threading.Thread.start raises RuntimeError when the system gives no new
thread; start() raised it, but is_running stayed True although nothing reads.
---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e8fa811..d578fbe 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -183,10 +183,10 @@ class StreamBuffer:
             self._set_read_to_buffer_thread_and_source_buffer()
             try:
                 self._open()
+                self._read_to_buffer_thread.start()
             except BaseException:
                 self._stop_event.set()  # not running
                 raise
-            self._read_to_buffer_thread.start()
 
     def stop(self):
         """Stop reading and close source_reader"""
-- 
2.43.0

