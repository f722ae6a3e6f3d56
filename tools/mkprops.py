"""Writes /verif/properties.jsonl (kept as a program only for readability)."""
import json
SC = 'stream2py/utility/sorted_collection.py'; SD = 'stream2py/utility/sorted_deque.py'
LK = 'stream2py/utility/locked_sorted_deque.py'; RW = 'stream2py/utility/reader_writer_lock.py'
BR = 'stream2py/buffer_reader.py'; SB = 'stream2py/stream_buffer.py'; SS = 'stream2py/stream_source.py'
SR = 'stream2py/source_reader.py'; SI = 'stream2py/simply.py'; UT = 'stream2py/util.py'; HT = 'stream2py/sources/http.py'
PK = 'pack.py'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p('C01', 'Sorted collections stay ordered and hold exactly the right items',
  'After building, inserting, removing, clearing, copying or changing the key function of a sorted collection (plain or size-limited), it iterates in non-decreasing key order and every item keeps being found under its current key. '
  'Building or re-keying keeps exactly the given items (a size-limited one keeps the ones with the largest keys and keeps its limit); inserting adds exactly that item, on the documented side of equal keys; removing deletes exactly the first matching item or raises ValueError and changes nothing; clearing empties it. '
  'A copy has equal contents, key and limit, and later changes to one do not show in the other.',
  ['inputs', 'histories'], 'All item sequences of any length, all key functions into a totally ordered type (ties included), all limits, all orders of operations.',
  'The tests build two collections with distinct tuple keys and only append; insert, remove, re-keying and ties are exercised by no stable test.',
  [SC, SD], [('constructor', SC), ('insert / insert_right / remove', SC), ('key property', SC), ('SortedDeque constructor', SD), ('clear / copy / maxlen property', SD)],
  [('_keys', 'sorted keys, parallel to _items', SC), ('_items', 'items in key order', SC), ('_maxlen', 'size limit', SD)], ['iteration order, len, find/index results'])
p('C02', 'Key searches return exactly the extremal matching item',
  'For a sorted collection, each key search (equal, at most, below, at least, above, last above) returns precisely the item its documentation describes (first or last with that relation to the key) and raises ValueError exactly when no such item exists. '
  'Position lookup, membership and counting agree with a linear scan of the contents, and indexing, iteration (forward and reversed) and length agree with each other. No query changes the contents.',
  ['inputs'], 'All contents of any length, ties included, and all query keys, present or absent, inside or outside the stored range.',
  'Tests query two absent/present keys; boundary queries (ties, before the first, after the last, empty) are unbounded in number.',
  [SC, SD], [('find / find_le / find_lt / find_ge / find_gt', SC), ('find_last_gt', SD), ('index / count / __contains__', SD)], [], ['return value or ValueError'])
p('C03', 'Key-range extraction returns exactly the items in the closed range',
  'Extracting a key range from the buffered window returns, in order and as a fresh list, exactly the items whose key is at least the start and at most the stop, taking every step-th of them beginning with the first; extraction by index range does the same for a half-open index range. '
  'The extraction changes nothing in the window.',
  ['inputs'], 'All contents of any length, all start/stop keys (in, between or outside stored keys, reversed), all positive steps.',
  'Tests try a few ranges that start and stop on stored keys of short integer streams.',
  [SD], [('range', SD), ('range_by_index', SD)])
p('C04', 'The window is bounded, append-ordered and evicts only its oldest item',
  'A size-limited window never holds more items than its limit. Appending accepts an item only if its key is strictly greater than the last key, otherwise raises ValueError and changes nothing; an accepted item becomes the last one and, exactly when the window was full, only the first (oldest) item is discarded. '
  'Dropping n items removes exactly the n oldest, and changing the limit keeps the items with the largest keys that fit.',
  ['inputs', 'histories'], 'All histories of append/drop/limit changes, all limits including none and zero, all keys.',
  'Tests fill two buffers once past their limit and look only at the length and at one rejected append.',
  [SD], [('append', SD), ('drop', SD), ('maxlen property', SD)], [('_maxlen', 'size limit', SD)])
p('C05', 'Writers have the buffer exclusively; readers never overlap a writer',
  'Under every interleaving of any number of threads, while one thread is between acquiring and releasing the reader-writer lock for writing, no other thread is between acquiring and releasing it for reading or for writing. '
  'Several threads may hold it for reading at once, and after all holders have released it the lock is free again.',
  ['schedules'], 'Any number of threads, any number of acquisitions, every interleaving of their steps.',
  'The lock\'s own timing tests are not run by the stable suite, and they sample a handful of interleavings with sleeps.',
  [RW], [('reader_acquire / reader_release', RW), ('writer_acquire / writer_release', RW), ('_LightSwitch', RW)],
  [('counter', 'number of threads in the group', RW), ('no_readers / no_writers', 'locks owned by groups', RW)])
p('C06', 'Every buffer access is lock-protected and no lock is leaked or re-entered',
  'Every operation of the stream buffer and of its readers that searches or copies buffered items does so while holding the buffer\'s lock for reading, and every operation that adds or drops items while holding it for writing. '
  'Whatever the outcome of the operation, including any exception, the lock is released on return, and no operation asks for the lock again while it already holds it (which could deadlock against a waiting writer).',
  ['inputs', 'schedules', 'fault_sequences'], 'All operations, all arguments and option combinations, all buffer contents, all exceptions raised by keys or contents, all concurrent activity.',
  'A nested acquisition only deadlocks if a writer arrives between two acquisitions, and a leak only shows after an exception; tests hit neither.',
  [LK, BR, SB], [('reader_lock / writer_lock', LK), ('read / range / head / tail', BR), ('append / drop', SB)])
p('C07', 'A read delivers exactly the next items after the cursor',
  'Reading delivers the first item whose key is greater than the last one the reader has seen (the oldest buffered item if it has seen none); asking for n > 1 delivers, in order and as a list, the next n such items or as many as there are. '
  'Unless peeking, the last delivered item becomes the reader\'s last seen item and key. So successive reads deliver strictly increasing keys, never repeat an item and never skip one that is still in the buffer.',
  ['inputs', 'histories', 'schedules'], 'All buffer contents and limits, all cursor positions (evicted, in the middle, past the end), all n, all interleavings with appends and evictions.',
  'Tests read short integer streams one by one from one reader; chunked reads and evicted cursors are hardly exercised.',
  [BR, SD], [('read', BR), ('last_item property', BR), ('find_gt / index / range_by_index', SD)], [('last key / last item', 'cursor', BR)])
p('C08', 'Read options and defaults are honoured; failed reads move nothing',
  'An option not given to a read (chunk size, peek, ignore-no-item, strict size) takes the value given when the reader was made, and an option that is given overrides it. With nothing new, a read returns None if told to ignore that and raises ValueError otherwise; with strict size a read of n > 1 raises ValueError exactly when fewer than n new items are buffered. '
  'A peeking read, and any read that returns None or raises, leaves the reader\'s cursor as it was.',
  ['inputs', 'configurations'], 'All combinations of constructor and call options, all contents and cursor positions.',
  'Tests use the default options nearly everywhere; the product of options, contents and cursor positions is unbounded.',
  [BR], [('read', BR), ('defaulted_values', BR), ('__init__', BR)])
p('C09', 'Window queries (range, head, tail) of a reader are exact',
  'head and tail deliver the oldest and the newest buffered item. range delivers exactly the buffered items with keys from start to stop, stepped; with only-new items it starts no earlier than the first item after the cursor, with start rounding it starts from the last key at or below start, with stop rounding it ends at the first key at or above stop and counts as finding nothing if there is none. '
  'If nothing qualifies, head raises, and tail and range return None where ignoring is asked for by the call (for range also by the reader\'s default) and raise otherwise, except that a peeking range may deliver the empty list; the last delivered item becomes the cursor unless peeking, and a failed query moves nothing.',
  ['inputs', 'configurations'], 'All contents, keys, cursor positions and option combinations.',
  'The doctest shows five ranges on one stream; option combinations with keys between, before or after stored ones are not covered.',
  [BR, SD], [('range', BR), ('head', BR), ('tail', BR)])
p('C10', 'Readers never affect the buffer or each other',
  'No reader operation changes the buffered items, and none changes the last seen item, options or future results of another reader of the same buffer. '
  'A new reader starts with nothing seen and the source\'s info, lists handed out are the caller\'s own, and a reader attached to a running buffer from then on reads that buffer and sees its stop state and source info.',
  ['inputs', 'histories'], 'All operations, arguments and buffer contents, any number of readers.',
  'Independence is a frame condition over all other readers; tests compare two cursors twice.',
  [BR, SB], [('BufferReader state', BR), ('mk_reader / attach_reader', SB)])
p('C11', 'Iteration ends only after the stream stopped and everything was delivered',
  'Taking the next item of a reader (by next(), a for loop, or a blocking read) signals the end (StopIteration, loop end, or None from a blocking read) only if the stream has stopped and no item buffered before it stopped is still undelivered to that reader. '
  'While the stream is running and nothing is new, next() returns None, loops and blocking reads wait, and neither ever yields None; iteration delivers what successive default reads would deliver.',
  ['schedules', 'histories'], 'All interleavings of the reader with appends, evictions and the stop, at every step of the reader.',
  'Losing the last item needs the append and the stop to fall between two specific steps of the reader; tests stop well before or after.',
  [BR, SB], [('__next__ / __iter__', BR), ('read(blocking=True)', BR), ('__iter__ / __next__', SB)])
p('C12', 'Everything the source produces enters the buffer once, in order',
  'While a stream runs, every value other than None that the source\'s read returns is added to the buffer exactly once, in the order read and unmodified, and before the source is read again; a None is never buffered and leads to a pause of the configured length (the one given, else the source\'s, else the default). '
  'Nothing else is ever added to the buffer.',
  ['histories', 'inputs', 'schedules'], 'All source behaviours (any sequence of values, Nones and exceptions), all options.',
  'Tests run a few well-behaved counters; the loop must be right for every source history.',
  [SB], [('_run', SB), ('_SourceBuffer.append', SB), ('sleep time selection', SB)])
p('C13', 'However reading ends, the stream is marked stopped and the source closed once',
  'When reading ends, because it was asked to stop or because reading or buffering raised any exception, the stream is marked stopped and the source is closed exactly once, after its last read; an error while closing does not escape. '
  'After a stop request the source is not read again by that session beyond the iteration in progress, and items already buffered stay readable.',
  ['fault_sequences', 'schedules', 'histories'], 'All points at which the stop request arrives, and all exceptions from read, key, buffering or close.',
  'No stable test makes a source fail.',
  [SB], [('_run finally block', SB), ('stop', SB)])
p('C14', 'With automatic dropping off, the stream loses nothing',
  'With automatic dropping off, the source is read only while the buffer has room, so no buffered item is ever evicted by new data: items leave the buffer only by manual dropping, oldest first, and reading resumes after room is made; with no size limit it just keeps reading. '
  'With automatic dropping on, manual dropping raises RuntimeError and changes nothing.',
  ['histories', 'schedules'], 'All limits, all source histories, all interleavings with manual drops.',
  'No stable test turns automatic dropping off.',
  [SB], [('_run room check', SB), ('drop', SB)])
p('C15', 'Sessions: start, stop and restart are clean and never overlap',
  'A stream buffer is running exactly from a successful start until it is stopped or its reading ends; a start whose source fails to open raises that error and leaves it not running; making or attaching a reader before any start raises the not-started error. '
  'Each start opens the source once and gives an empty buffer with the source\'s info, key, limit and reader class; a restart stops the previous session first, and opens the source only after that session\'s reading has ended. '
  'Readers made after a restart (the implicit one behind next() on the buffer included) see only the new session, earlier readers keep the old session\'s items and see it as stopped.',
  ['histories', 'schedules', 'fault_sequences'], 'All sequences of start/stop/read-end/failing open, however slow the source\'s reads are.',
  'Tests restart one fast source once; overlap needs a source that is slow to return when stopped.',
  [SB], [('start / stop / is_running / mk_reader / attach_reader', SB), ('session set-up', SB), ('__enter__ / __exit__', SB)],
  [('stop event', 'one per session', SB), ('source buffer', 'one per session', SB)])
p('C16', 'A reference-counted source runs exactly while some reader is open',
  'The first open reader starts a source\'s stream, further ones share it, and the source is stopped when, and only when, every opened reader has been closed; closing a reader again has no effect, leaving its context closes it. '
  'After all readers are closed, opening another one starts the source afresh. Buffer settings are applied to the stream they configure, configuring once the stream exists raises ValueError, and reader options and the configured reader class reach the reader.',
  ['histories', 'configurations'], 'All sequences of opening and closing any number of readers.',
  'Tests open at most two readers and never look at the source after the last close.',
  [SS, BR], [('open_reader / reader count', SS), ('configure_buffer', SS), ('close', BR)])
p('C17', 'Streams built from plain functions behave as those functions say',
  'A stream made from plain functions opens with the given open function on entry, reads by calling the read function on the opened instance, closes that instance with the close function when it stops, and is stopped when its context is left, also by an exception. '
  'Each value read is delivered as (index, value) with consecutive indices from 0 per opening (or bare if enumeration is off), a read of None counts as no data yet and is never delivered, and the info, key, limit, pause and auto-drop arguments are used as given.',
  ['inputs', 'configurations', 'fault_sequences'], 'All functions, all option combinations, all sequences of values and Nones.',
  'The helper is not exercised by any stable test.',
  [SI], [('mk_stream_buffer', SI), ('SimplifiedSourceReader', SI)])
p('C18', 'Source base classes: open state, context and iteration',
  'A source used as a context manager is opened on entry and closed on exit (also on an exception, which is not swallowed), and reports itself closed before, open inside and closed after. '
  'Iterating a source yields exactly the values its reads return, in order, that count as valid data (not None unless overridden) and waits on the others; a ready-made quick source resets its open time and index when opened, reports open and closed also without a context, and orders data by itself. '
  'Sources can take an integer microsecond time stamp of the current time.',
  ['inputs', 'histories'], 'All sources, all read histories, all exceptions in the body.',
  'Tests iterate one list of three values.',
  [SR, SS], [('SourceReader', SR), ('QuickSourceReader', SR), ('StreamSource.__iter__', SS)])
p('C19', 'A contextualized callable still is the callable, with the given context',
  'A contextualized callable calls the wrapped callable with exactly the arguments given and returns its result or propagates its exception; entering and leaving its context calls precisely the given enter and exit functions with the wrapped callable (and the exception details), returning what they return; other attributes are those of the wrapped callable. '
  'This holds for every callable, including one that is itself contextualized or carries attributes of any name. Non-callables, enter functions without any parameter and exit functions that have neither variadic positional parameters nor at least four parameters are rejected with TypeError at construction.',
  ['inputs', 'programs'], 'All callables (functions, bound methods, instances with arbitrary attributes, nested wrappers), all enter/exit functions.',
  'Tests wrap one bound method and two lambdas.',
  [UT], [('ContextualizeCall', UT), ('EnterFunctionValidation / ExitFunctionValidation', UT), ('forward_to_instance_*', UT)])
p('C20', 'The HTTP source sends the configured request and delivers its bytes',
  'Each opening of the HTTP source sends a request with the configured URL, method, headers and body (none for GET; text bodies as UTF-8 bytes). '
  'Each read asks the response for data with the configured read arguments and returns the time stamp with exactly the bytes received, decoded if and only if an encoding was given; the reported number of bytes read is the total received since construction, and closing closes the response once and is harmless when not open.',
  ['inputs', 'configurations', 'histories'], 'All URLs, methods, headers, bodies, encodings and chunk sequences.',
  'The only test of this source is a skipped doctest; it needs a network.',
  [HT], [('HTTPResponseReader', HT)])
p('C21', 'Waiting writers go before later readers, and the lock cannot deadlock',
  'Under every interleaving, once a thread asking to write has been registered as waiting, no thread is admitted for reading until that writer has had its turn. '
  'Threads that use the lock by acquiring it once, either way, and then releasing it never block one another forever inside the lock\'s own operations.',
  ['schedules'], 'Any number of threads, every interleaving of their steps.',
  'The stable suite runs no test of the lock alone, and a deadlock needs particular interleavings.',
  [RW], [('readers_queue / no_readers', RW), ('_LightSwitch', RW)])
p('C22', 'Waiting reads and stop requests complete in bounded time',
  'A blocking read or iteration returns within about one polling interval after an item is buffered or the stream stops, and a stop request ends the reading thread within about one pause of the source.',
  ['schedules'], 'All schedules and timings.', 'Timing is sampled by tests on one machine.',
  [BR, SB], [('polling loops', BR), ('_run', SB)])
p('C23', 'Packaging configuration round-trips and versions only move forward',
  'Reading back an ini section written from a mapping of strings and lists of non-empty, trimmed, comment-free single-line strings gives an equal mapping, and incrementing a version increases exactly its last component by one.',
  ['inputs'], 'All such mappings and all dotted versions.', 'Doctests show one mapping.',
  [PK], [('preprocess_ini_section_items / postprocess_ini_section_items', PK), ('increment_version', PK)])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
