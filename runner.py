"""Runs the proof obligations of a property in parallel processes, then the bounded harness."""
import multiprocessing as mp
import os
import sys
import time
import traceback

JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def _model_text(o):
    try:
        return str(o.model)[:1500] if o.model is not None else ''
    except Exception:
        return ''


def _work(conn, fn, args):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        conn.send(('ok', fn(*args)))
    except BaseException as e:       # reported to the parent, which decides
        conn.send(('error', f'{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}'))
    finally:
        conn.close()
        os._exit(0)


class Task:
    def __init__(self, key, fn, args, limit):
        self.key, self.fn, self.args, self.limit = key, fn, args, limit
        self.status, self.value, self.secs = None, None, 0.0


def run_tasks(tasks, deadline, jobs=JOBS, settled=None):
    """run tasks in forked processes; every task gets its own time limit; returns when all ended or deadline passed;
    settled(task): this answer settles the outcome, the others get half a minute more"""
    ctx = mp.get_context('fork')
    waiting, running = list(tasks), []
    while waiting or running:
        now = time.time()
        while waiting and len(running) < jobs and now < deadline:
            t = waiting.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(b, t.fn, t.args), daemon=True)
            p.start()
            b.close()
            t.t0 = time.time()
            running.append((t, p, a))
        if not running:
            for t in waiting:
                t.status, t.value = 'timeout', 'not started before the deadline'
            break
        mp.connection.wait([a for _, _, a in running], timeout=0.5)
        still = []
        for t, p, a in running:
            t.secs = time.time() - t.t0
            if a.poll():
                try:
                    t.status, t.value = a.recv()
                except EOFError:
                    t.status, t.value = 'error', 'process ended without an answer'
                a.close()
                p.join(5)
                if settled is not None and t.status == 'ok' and settled(t):
                    deadline = min(deadline, time.time() + 30)
            elif not p.is_alive():
                t.status, t.value = 'error', f'process died ({p.exitcode})'
            elif t.secs > t.limit or time.time() > deadline:
                t.status, t.value = 'timeout', f'time limit ({t.secs:.0f} s)'
                p.kill()
                p.join(5)
            else:
                still.append((t, p, a))
        running = still
    return tasks


def verify_item(factory, index, scenario, dump):
    """one scenario of one contract, in a child process"""
    from pyve import solver, contract as C
    solver.DUMP = [] if dump else None
    c = factory()[index]
    rep = C.verify(c, only=scenario)
    obl = [dict(name=o.name, status=o.status, definite=bool(o.definite), reason=o.reason, secs=round(o.secs, 3),
                backend=o.backend, ctx=o.ctx, model=_model_text(o) if o.status != 'proved' else '',
                path=[str(x) for x in (o.path or ())][-20:] if o.status != 'proved' else [])
           for o in rep.obligations]
    second = None
    if dump:
        second = second_opinion(solver.DUMP)
    return dict(name=rep.name, status=rep.status, reason=rep.reason, paths=rep.paths, obligations=obl,
                functions=sorted(rep.functions), contracts=sorted(rep.contracts),
                queries=solver.STATS.queries, solver_s=round(solver.STATS.time, 2), second=second)


def second_opinion(dumped, limit=40):
    """re-discharge with cvc5 a sample of the z3 queries answered unsat"""
    import subprocess
    out = dict(asked=0, agreed=0, unknown=0, disagreed=0)
    uns = [t for t, r in dumped if r == 'unsat']
    step = max(1, len(uns) // limit)
    for t in uns[::step]:
        out['asked'] += 1
        try:
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit', '20000', '-'], input=t, text=True,
                               capture_output=True, timeout=40)
            a = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else 'unknown'
        except (subprocess.TimeoutExpired, OSError):
            a = 'unknown'
        if a == 'unsat':
            out['agreed'] += 1
        elif a == 'sat':
            out['disagreed'] += 1
        else:
            out['unknown'] += 1
    return out


def harness_item(module, func, tier, seed, budget):
    import importlib
    m = importlib.import_module(module)
    return getattr(m, func)(tier, seed, budget)


def conformance_item(tier, seed, part, parts):
    from harness import conformance
    return conformance.run(tier, seed, 0, part, parts)


def lean_item(path):
    """the lemmas given to the solver as facts: checked by Lean"""
    import subprocess
    try:
        p = subprocess.run(['lean', path], capture_output=True, text=True, timeout=200)
    except OSError as e:
        return dict(ok=None, text=f'lean is not there: {e}')
    with open(path) as fh:
        names = [l.split()[1] for l in fh if l.startswith('theorem ')]
    text = (p.stdout + p.stderr).strip()
    bad = p.returncode != 0 or 'error' in text or 'sorry' in text
    return dict(ok=not bad, text=text[-800:], theorems=names)
