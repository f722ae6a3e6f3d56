import json, subprocess
# property, subject of the fix commit, what failed
F = [
 ('C01', 'SortedCollection compared items when keys were equal', 'SortedCollection([It(0), It(0)], key) raised TypeError on equal keys with items that are not orderable (also copy, key and maxlen setters)'),
 ('C01', 'changing the key function of a SortedDeque dropped its maxlen', 'SortedDeque([..], k, maxlen=2).key = k2 left maxlen None'),
 ('C08', 'strict_n read failed when exactly n items were available', 'read(n=2, strict_n=True) with exactly 2 new items raised ValueError'),
 ('C08', 'read ignored the peek default given to the reader', 'mk_reader(peek=True).read() moved the cursor'),
 ('C06', 'range(only_new_items=True) re-entered the reader lock', 'range(only_new_items=True) called read inside the reader lock: dead-locks when a writer is waiting; with identity keys and nothing new it raised TypeError although ignoring was asked for'),
 ('C11', 'iteration and blocking reads could end before the last items were delivered', 'item appended and stop set between the empty read and the is_stopped test: never delivered'),
 ('C16', 'closing a reader without onclose failed', 'StreamBuffer.mk_reader().close() raised AttributeError; closing twice decremented the count twice'),
 ('C15', 'restarting did not wait for the previous session to end', 'stop()/start() while the source read blocks > 1 s: two threads read one source'),
 ('C15', 'stream buffer reported to be running after its source failed to open', 'open() raising left is_running True'),
 ('C14', 'unlimited buffer with auto_drop=False failed to read', 'maxlen=None, auto_drop=False: TypeError in the reading thread'),
 ('C15', 'next() on a restarted stream buffer kept reading the previous session', 'stream ended by itself, start() again: next(buffer) kept raising StopIteration'),
 ('C10', 'attached reader kept the source info of its previous buffer', 'attach_reader did not update source_reader_info'),
 ('C16', 'stream source was not restarted after all its readers had been closed', 'open_reader after all readers were closed gave the stopped stream'),
 ('C18', 'iterating a StreamSource failed on the first read of None', 'AttributeError is_stopped'),
 ('C18', 'StreamSource.get_timestamp used a class attribute that does not exist', 'AttributeError timestamp_seconds_to_unit_conversion'),
 ('C16', 'StreamSource ignored its reader_cls', 'readers were always of class BufferReader'),
 ('C17', 'mk_stream_buffer enumerated and buffered reads of None', 'a read of None was delivered as (index, None)'),
 ('C19', 'attributes of the wrapped callable overwrote those of ContextualizeCall', 'wrapping a ContextualizeCall (or a function with attributes func/enter_func/exit_func) used the inner ones'),
 ('C19', 'invalid exit functions were accepted by ContextualizeCall', 'exit_func=lambda: None was accepted'),
 ('C20', 'HTTPResponseReader ignored its method and body', 'open() sent a GET without body whatever was configured'),
 ('C15', 'StreamBuffer.source_reader_info returned None while the buffer was empty', 'after start() and before the first item source_reader_info was None'),
 ('C16', 'StreamSource kept running without any reader when a reader failed to open', 'reader class whose open() (or constructor) raises: open_reader raised but left the source running with no reader'),
 ('C19', 'ContextualizeCall refused calls with a keyword argument named self', 'ContextualizeCall(lambda **k: k)(self=1) raised TypeError'),
 ('C20', 'HTTPResponseReader never updated n_bytes_read', 'info[n_bytes_read] stayed 0'),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
fixed = []
for p, subj, what in F:
    c = [l for l in log if subj in l]
    assert len(c) == 1, (subj, c)
    fixed.append(f'fixed: property={p} {c[0].split()[0]} {what}')
json.dump(dict(findings=[], fixed=fixed), open('/verif/known_findings.json', 'w'), indent=1)
print(len(log) - 1, len(F))
