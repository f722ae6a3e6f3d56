"""A deterministic scheduler for real threads: one thread runs at a time, switching only at scheduling points (lock
operations and, in source compiled by `instrumented`, every statement or every read of an attribute)."""
import _thread
import ast
import contextlib
import random
import threading

_RealLock = _thread.allocate_lock


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


def _point(x=None):
    s = Sched.current
    if s is not None:
        s.point()
    return x


class _Points(ast.NodeTransformer):
    def __init__(self, fine):
        self.fine, self.depth = fine, 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self.block(node.body)
        self.depth -= 1
        return node

    def call(self, *args):
        return ast.Call(ast.Name('__pt__', ast.Load()), list(args), [])

    def block(self, stmts):
        out = []
        for k, x in enumerate(stmts):
            if not isinstance(x, (ast.Global, ast.Nonlocal)):
                out.append(ast.Expr(self.call()))
            out.append(self.visit(x))
        return out

    def generic_visit(self, node):
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
            for f, v in ast.iter_fields(node):
                if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                    continue
                if isinstance(v, ast.AST):
                    setattr(node, f, self.visit(v))
                elif isinstance(v, list):
                    setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            return node
        return super().generic_visit(node)

    def visit_AugAssign(self, node):
        t = node.target
        if self.depth and self.fine and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            load = ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr, ast.Load())
            return ast.Assign([t], ast.BinOp(self.call(load), node.op, self.visit(node.value)))
        return self.generic_visit(node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        return self.call(node) if self.depth and self.fine and isinstance(node.ctx, ast.Load) else node


def instrumented(path, fine):
    """the source compiled with a scheduling point before every statement (fine: and after every read of an attribute)"""
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    tree = ast.fix_missing_locations(_Points(fine).visit(tree))
    return compile(tree, path, 'exec')


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.baton = _RealLock()
        self.baton.acquire()
        self.done = False
        self.blocked = None          # lock waited for
        self.error = None
        self.asleep = False


class Sched:
    """choose(runnable tasks, current) -> task"""
    current = None

    def __init__(self, choose, max_steps=4000):
        self.tasks, self.choose = [], choose
        self.main = _RealLock()
        self.main.acquire()
        self.running = None
        self.steps, self.max_steps = 0, max_steps
        self.stop = False
        self.deadlock = False
        self.log = []
        self.on_step = None

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.baton.acquire()
        try:
            if self.stop:
                return
            t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        finally:
            t.done = True
            if not self.stop:
                self.main.release()

    def point(self):
        """the running thread offers a switch"""
        t = self.running
        if t is None or self.me() is not t:
            return
        self.main.release()
        t.baton.acquire()
        if self.stop:
            raise Abort()

    def me(self):
        return _by_thread.get(_thread.get_ident())

    def run(self):
        prev = Sched.current
        Sched.current = self
        ths = []
        try:
            for t in self.tasks:
                def go(t=t):
                    _by_thread[_thread.get_ident()] = t
                    try:
                        self._body(t)
                    finally:
                        _by_thread.pop(_thread.get_ident(), None)
                ths.append(_thread.start_new_thread(go, ()))
            cur = None
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                run = [t for t in live if t.blocked is None or not t.blocked.taken]
                if self.on_step is not None:
                    self.on_step(self, live, run)
                if not run:
                    self.deadlock = True
                    break
                self.steps += 1
                if self.steps > self.max_steps:
                    break
                cur = self.choose(run, cur)
                if cur is None:
                    break
                self.running = cur
                cur.baton.release()
                if not self.main.acquire(True, 30):
                    raise RuntimeError('scheduled thread did not come back')
                self.running = None
        finally:
            self.stop = True
            for t in self.tasks:
                if not t.done:
                    try:
                        t.baton.release()
                    except RuntimeError:
                        pass
            Sched.current = prev
        return self


_by_thread = {}


class SLock:
    """threading.Lock under the scheduler (a plain flag outside scheduled threads)"""

    def __init__(self):
        self.taken = False
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        t = s.me() if s is not None else None
        if t is None:
            if self.taken and (not blocking or timeout is not None and timeout >= 0):
                return False
            if self.taken:
                raise Deadlock('lock still held')
            self.taken = True
            return True
        s.point()
        patience = 3
        while self.taken:
            if not blocking or (timeout is not None and timeout >= 0 and not patience):
                return False
            if timeout is not None and timeout >= 0:
                patience -= 1            # time passes, the thread may run again and gives up
            else:
                t.blocked = self
            s.point()
        t.blocked = None
        self.taken, self.owner = True, t
        return True

    def release(self):
        if not self.taken:
            raise RuntimeError('release unlocked lock')
        self.taken, self.owner = False, None
        s = Sched.current
        if s is not None and s.me() is not None:
            s.point()

    def locked(self):
        return self.taken

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SRLock(SLock):
    def __init__(self):
        super().__init__()
        self.count, self.who = 0, None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.taken and self.who == me:
            self.count += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.who, self.count = me, 1
        return r

    __enter__ = acquire

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.who = None
            super().release()


    # used by threading.Condition
    def _is_owned(self):
        return self.taken and self.who == _thread.get_ident()

    def _release_save(self):
        r = self.count, self.who
        self.count, self.who = 0, None
        super().release()
        return r

    def _acquire_restore(self, r):
        super().acquire()
        self.count, self.who = r


@contextlib.contextmanager
def scheduled_locks():
    """threading.Lock and RLock, and the locks of threading.Condition, Semaphore and Event, are scheduled ones: within this
    context for the thread that entered it, and for the threads of a scheduler"""
    saved = threading.Lock, threading.RLock, threading._allocate_lock
    here = _thread.get_ident()

    def chosen(cls, real):
        def make(*a):
            s = Sched.current
            return cls() if _thread.get_ident() == here or s is not None and s.me() is not None else real(*a)
        return make
    threading.Lock, threading.RLock, threading._allocate_lock = SLock, SRLock, chosen(SLock, saved[2])
    try:
        yield
    finally:
        threading.Lock, threading.RLock, threading._allocate_lock = saved


def random_choice(rnd, switch=0.3):
    def choose(run, cur):
        if cur in run and rnd.random() > switch:
            return cur
        return rnd.choice(run)
    return choose


class Preempt:
    """systematic: follow a list of decisions, then continue the current thread; records the branching"""

    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []

    def __call__(self, run, cur):
        k = len(self.trace)
        opts = ([cur] if cur in run else []) + [t for t in run if t is not cur]
        i = self.prefix[k] if k < len(self.prefix) else 0
        if i >= len(opts):
            i = 0
        self.trace.append((i, len(opts), cur in run))
        return opts[i]
