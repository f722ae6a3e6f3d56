"""Stand-ins for time.sleep, threading.Thread and threading.Event that make runs of the real stream code deterministic:
a thread runs when it is told to, a pause is recorded and gives the environment a chance to act."""
import gc
import sys
import threading
import time
import warnings

REAL_SLEEP, REAL_THREAD, REAL_EVENT = time.sleep, threading.Thread, threading.Event


def short(t):
    REAL_SLEEP(min(t, 0.001))


class TooLong(BaseException):
    """a run made more steps than any right run does"""


class Stage:
    """with Stage() as st: st.env is called at every event test, lock acquisition hook and pause"""

    def __init__(self, limit=2000):
        self.env = None
        self.pauses = []
        self.threads = []
        self.limit = limit
        self.steps = 0
        self.busy = False

    def point(self, what, x=None):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong(f'more than {self.limit} steps')
        if self.env is not None and not self.busy:
            self.busy = True
            try:
                self.env(what, x)
            finally:
                self.busy = False

    def __enter__(self):
        stage = self
        gc.disable()            # streams of earlier cases are not to be finalized (and paused for) in this one

        def sleep(t):
            if threading.current_thread() is not threading.main_thread():
                return REAL_SLEEP(min(t, 0.001))
            stage.pauses.append(t)
            stage.point('sleep', t)

        class Event(REAL_EVENT):
            def is_set(self):
                stage.point('is_set', self)
                return REAL_EVENT.is_set(self)

            isSet = is_set

            def wait(self, timeout=None):
                stage.pauses.append(timeout)
                stage.point('wait', timeout)
                return REAL_EVENT.is_set(self)

            def set(self):
                REAL_EVENT.set(self)
                stage.point('set', self)

        class Thread(REAL_THREAD):
            """runs when joined (a join with a time limit may come back before it has ended)"""

            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                self.state = 'new'
                self.error = None
                stage.threads.append(self)

            def start(self):
                if self.state != 'new':
                    raise RuntimeError('threads can only be started once')
                self.state = 'started'

            def is_alive(self):
                return self.state in ('started', 'running')

            def join(self, timeout=None):
                if self.state == 'new':
                    raise RuntimeError('cannot join thread before it is started')
                if timeout is None and self.state == 'started':
                    self.run_now()

            def run_now(self):
                if self.state != 'started':
                    return
                self.state = 'running'
                busy, stage.busy = stage.busy, False
                try:
                    self.run()
                except TooLong:
                    raise
                except BaseException as e:
                    self.error = e
                finally:
                    stage.busy = busy
                    self.state = 'ended'

        self.saved = []
        for old, new, mod, nm in ((REAL_SLEEP, sleep, time, 'sleep'), (REAL_THREAD, Thread, threading, 'Thread'),
                                  (REAL_EVENT, Event, threading, 'Event')):
            mods = [mod] + [m for k, m in list(sys.modules.items()) if k.split('.')[0] == 'stream2py' and m is not None]
            for m in mods:
                for k, v in list(vars(m).items()):
                    if v is old or (old is REAL_SLEEP and v is short):
                        self.saved.append((m, k, old))
                        setattr(m, k, new)
        self.Event, self.Thread = Event, Thread
        self.filters = warnings.catch_warnings()
        self.filters.__enter__()
        warnings.simplefilter('ignore')
        import logging
        logging.disable(logging.CRITICAL)
        return self

    def __exit__(self, *a):
        gc.enable()
        self.limit, self.env = float('inf'), None       # objects collected later may still stop their stream
        for m, k, v in self.saved:
            setattr(m, k, short if v is REAL_SLEEP else v)
        self.filters.__exit__(*a)
