"""Which contracts and which bounded harness decide which property."""

ENGINE = ('the contract engine /verif/pyve: symbolic execution of the ASTs of the functions in /repo, with the meaning of '
          'the Python statements it interprets')
LIB = ('library contracts (pyve/natives.py) of list, deque, bisect, islice, sorted, dict, threading.Lock/Event/Thread, '
       'contextlib; compared with CPython on small cases by harness/conformance.py, at set-up and in the thorough tier')
SMT = 'z3 5.3 (Python package z3-solver; thorough tier: a sample of the queries is answered by cvc5 too)'
KEYS = ('keys are totally ordered and comparable, the key function is a pure function of the item, == on items is an '
        'equivalence under which equal items have equal keys')
INTS = 'Python integers are unbounded, so no machine arithmetic is abstracted'

TRUSTED = [ENGINE, LIB, SMT]
PROPS = {}


def prop(pid, contracts, harness, level='proof', note='', trusted=(), assumptions=(), technique=''):
    PROPS[pid] = dict(contracts=contracts, harness=harness, level=level, note=note, trusted=TRUSTED + list(trusted),
                      assumptions=[KEYS] + list(assumptions), technique=technique)


C = 'contracts.container'
prop('C01', [(C, 'for_c01')], [('harness.containers', 'c01')],
     technique='contract-based deductive verification of SortedCollection and SortedDeque (z3)')
prop('C02', [(C, 'for_c02')], [('harness.containers', 'c02')],
     technique='contract-based deductive verification of the search and lookup methods (z3)')
prop('C03', [(C, 'for_c03')], [('harness.containers', 'c03')],
     technique='contract-based deductive verification of the range extraction methods (z3)')
prop('C04', [(C, 'for_c04')], [('harness.containers', 'c04')],
     technique='contract-based deductive verification of append, drop, limit and clear of the window (z3)')
L = 'contracts.rwlock'
LOCK = ['threading.Lock is a mutual exclusion lock: at most one holder, release makes it free',
        'the context between acquiring and releasing the lock waits for nothing that waits for the lock']
META = 'waiting only in strictly increasing rank excludes cyclic waiting: theorem no_cyclic_waiting of proofs/Lemmas.lean, applied by hand'
prop('C05', [(L, 'for_c05'), ('contracts.world', 'blocks')], [('harness.locks', 'c05')], assumptions=LOCK,
     technique='contracts with counting permissions and lock invariants (concurrent separation logic), obligations by z3')
prop('C21', [(L, 'for_c21')], [('harness.locks', 'c21')], assumptions=LOCK, trusted=[META],
     technique='contracts with counting permissions and lock ranks, obligations by z3')
R = 'contracts.readers'
S = 'contracts.stream'
H = 'harness.readers'
RELY = ['what other threads do between two lock sections is the rely of contracts/world.py: the window holds any strictly '
        'increasing contents, the stop flag of a session may become set and is never reset',
        'the reader-writer lock meets its contract (proved as C05/C21) and the window its contracts (proved as C01-C04, again here)']
LOCKED = 'deductive verification of the readers against the contracts of the lock and the window, rely-guarantee (z3)'
prop('C06', [(R, 'for_c06')], [(H, 'c06')], assumptions=RELY[1:], technique=LOCKED)
prop('C07', [(R, 'for_c07')], [(H, 'c07')], assumptions=RELY, technique=LOCKED)
prop('C08', [(R, 'for_c08')], [(H, 'c08')], assumptions=RELY, technique=LOCKED)
prop('C09', [(R, 'for_c09')], [(H, 'c09')], assumptions=RELY, technique=LOCKED)
prop('C10', [(R, 'for_c10')], [(H, 'c10')], assumptions=RELY, technique=LOCKED + '; frame conditions over the whole heap')
prop('C11', [(R, 'for_c11')], [(H, 'c11')], assumptions=RELY, technique=LOCKED)
SRC = ['the source is an arbitrary object whose open, read and close return or raise anything',
       'threading.Thread runs its target once; join() without a time limit returns only when it has ended']
LOOP = 'deductive verification of the reading loop (loop invariant, ghost protocol of the source, rely-guarantee; z3)'
prop('C12', [(S, 'for_c12')], [('harness.stream', 'c12')], assumptions=RELY + SRC, technique=LOOP)
prop('C13', [(S, 'for_c13')], [('harness.stream', 'c13')], assumptions=RELY + SRC, technique=LOOP)
prop('C14', [(S, 'for_c14')], [('harness.stream', 'c14')], assumptions=RELY + SRC, technique=LOOP)
prop('C15', [(S, 'for_c15')], [('harness.stream', 'c15')], assumptions=RELY + SRC,
     technique='deductive verification of start, stop and restart from every session state, frame conditions over earlier sessions (z3)')
TEXT = ('texts and byte strings are uninterpreted, with encode, decode, upper, lower, casefold and length as functions of them; '
        'upper(s) is GET exactly if lower(s) is get (checked for every code point by harness/conformance.py)')
prop('C16', [('contracts.sources', 'for_c16')], [('harness.sources', 'c16')], assumptions=RELY + SRC + ['readers of one source are opened and closed by one thread at a time'],
     technique='deductive verification of StreamSource and closing readers from every count of open readers, frame conditions (z3)')
prop('C17', [('contracts.simply', 'for_c17')], [('harness.simply', 'c17')],
     assumptions=RELY + SRC + ['what the stream does with its source is the contract of the reading loop (proved as C12-C15, the loop again here)'],
     technique='deductive verification of mk_stream_buffer and the source class it makes, composed with the contract of the reading loop (z3)')
prop('C18', [('contracts.bases', 'for_c18')], [('harness.sources', 'c18')],
     assumptions=['time.time() gives a non-negative real number, its product with the unit is not rounded (floating point treated as real)', *SRC[:1]],
     technique='deductive verification of the source base classes, loop contract for iteration (z3)')
prop('C19', [('contracts.util', 'for_c19')], [('harness.util', 'c19')],
     assumptions=['inspect.signature gives the parameters of a callable; functools.wraps does what its documentation says',
                  'the wrapped callable, the enter and the exit function are arbitrary objects that return or raise anything'],
     technique='deductive verification of ContextualizeCall and its validations for arbitrary callables and parameter lists (z3)')
prop('C20', [('contracts.http', 'for_c20')], [('harness.http', 'c20')],
     assumptions=[TEXT, 'urllib.request.Request is the URL, data, headers and method it is made with; urlopen sends it and gives a response or raises; '
                  'a response gives any bytes or raises, and is closed by close() or by leaving its context'],
     technique='deductive verification of HTTPResponseReader over contracts of urllib (z3)')
