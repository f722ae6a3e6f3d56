#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]     decide one property on /repo's current tree
   check.py ID --replay FILE                run the recorded failing input again
   check.py --setup                         sanity check of the installation"""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HERE, REPO]
sys.setrecursionlimit(6000)

import runner  # noqa: E402
from props import PROPS  # noqa: E402

EVID = os.path.join(HERE, 'evidence')


def factories(pid):
    import importlib
    for modname, fn in PROPS[pid]['contracts']:
        def factory(modname=modname, fn=fn):
            return getattr(importlib.import_module(modname), fn)()
        yield f'{modname}.{fn}', factory


def known_findings(pid):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as fh:
            d = json.load(fh)
    except FileNotFoundError:
        return []
    return [x for x in d.get('findings', []) if x['property'] == pid]


def build_tasks(pid, tier, seed):
    tasks, broken = [], []
    limit = 200 if tier == 'quick' else 1500
    for nm, fac in factories(pid):
        try:
            cs = fac()
        except Exception as e:
            broken.append(dict(name=nm, status='undecided', reason=f'contracts do not apply to this code: '
                               f'{type(e).__name__}: {e}', obligations=[], functions=[], contracts=[], paths=0,
                               queries=0, solver_s=0))
            continue
        for i, c in enumerate(cs):
            try:
                n = len(list(c.scenarios()))
            except Exception as e:
                broken.append(dict(name=c.name, status='undecided', reason=f'{type(e).__name__}: {e}', obligations=[],
                                   functions=[], contracts=[], paths=0, queries=0, solver_s=0))
                continue
            for k in range(n):
                tasks.append(runner.Task((c.name, k), runner.verify_item, (fac, i, k, tier == 'thorough'), limit))
    return tasks, broken


def harness_tasks(pid, tier, seed, budget):
    return [runner.Task(('bounded', f'{m}.{f}'), runner.harness_item, (m, f, tier, seed, budget), budget * 3 + 60)
            for m, f in PROPS[pid]['harness']]


def trust_tasks(seed, conformance):
    """checks of the trusted base: lemmas by Lean, the engine against CPython"""
    ts = [runner.Task(('trust', 'lean'), runner.lean_item, (os.path.join(HERE, 'proofs', 'Lemmas.lean'),), 240)]
    if conformance:
        ts += [runner.Task(('trust', 'conformance'), runner.conformance_item, (conformance, seed, k, 16), 3000) for k in range(16)]
    return ts


def trust_results(ts):
    out, wrong = {}, []
    conf = [t for t in ts if t.key[1] == 'conformance']
    for t in ts:
        if t.status != 'ok':
            out.setdefault('no answer', []).append(f'{t.key[1]}: {t.status}: {str(t.value)[-300:]}')
        elif t.key[1] == 'lean':
            out['lemmas_checked_by_lean'] = t.value
            if t.value['ok'] is False:
                wrong.append('lemmas refused by Lean: ' + t.value['text'])
    if conf:
        ok = [t.value for t in conf if t.status == 'ok']
        out['engine_compared_with_cpython'] = dict(
            cases=sum(v['evaluations'] for v in ok), supported=sum(v['distinct'] for v in ok),
            unsupported=sorted({f'{n}{" (symbolic)" if p else ""}' for v in ok for n, p in v['unsupported']}),
            differences=[x['what'] for v in ok for x in v['violations']])
        wrong += out['engine_compared_with_cpython']['differences']
    else:
        out['engine_compared_with_cpython'] = 'by check.py --setup and in the thorough tier'
    return out, wrong


def replay_path(pid, k):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{pid}-{k}.json')


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier != 'thorough'
    deadline = t0 + (700 if quick else 6 * 3600)
    budget = 40 if quick else 900
    os.makedirs(EVID, exist_ok=True)
    tasks, items = build_tasks(pid, tier, seed)
    htasks = harness_tasks(pid, tier, seed, budget)
    ttasks = trust_tasks(seed, 'thorough' if not quick else None)
    known = known_findings(pid)
    new = lambda v: not any(k['match'] in v['what'] for k in known)
    runner.run_tasks(htasks + tasks + ttasks, deadline,
                     settled=lambda t: quick and t in htasks and any(new(v) for v in t.value['violations']))
    for t in tasks:
        if t.status == 'ok':
            items.append(t.value)
        else:
            items.append(dict(name=t.key[0], status='undecided', reason=f'{t.status}: {t.value}', obligations=[],
                              functions=[], contracts=[], paths=0, queries=0, solver_s=0))
    errors, bounded = [], []
    trust, wrong = trust_results(ttasks)
    errors += wrong
    for t in htasks:
        if t.status == 'ok':
            bounded.append(dict(name=t.key[1], **t.value))
        else:
            errors.append(f'{t.key[1]}: {t.status}: {t.value}')
    failed = [(i['name'], o) for i in items for o in i['obligations'] if o['status'] == 'failed' and o['definite']]
    undecided = [dict(name=i['name'], reason=i['reason']) for i in items if i['status'] == 'undecided']
    violations = [v for b in bounded for v in b['violations']]
    if failed and not violations:
        # look harder for a concrete failing input
        more = harness_tasks(pid, 'search', seed + 1, 90 if quick else 600)
        runner.run_tasks(more, max(deadline, time.time() + 60) if not quick else min(time.time() + 150, t0 + 850))
        for t in more:
            if t.status == 'ok':
                violations += t.value['violations']
    out, seen_known = [], set()
    for v in violations:
        hit = [k for k in known if k['match'] in v['what']]
        if hit:
            seen_known.add(hit[0]['match'])
            continue
        out.append(v)
    for k in known:
        if k['match'] in seen_known or k.get('always'):
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    code = 0
    groups = {}
    for nm, o in failed:
        groups.setdefault(o['name'], []).append((nm, o))
    if out:
        v = out[0]
        path = replay_path(pid, 1)
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, kind='failing input', what=v['what'], replay=v.get('replay'),
                           harness=v.get('harness'), command=f'python3-vt {HERE}/check.py {pid} --replay {path}',
                           failed_obligations=sorted(groups), others=[x['what'] for x in out[1:20]]), fh, indent=1,
                      default=str)
        print(f'{pid}: {v["what"]}')
        for g in sorted(groups):
            print(f'  failed obligation: {g}')
        print(f'VIOLATION property={pid} replay={path}')
        code = 1
    elif failed and not known:
        path = replay_path(pid, 1)
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, kind='failed obligation', obligations={
                g: [dict(contract=nm, context=o['ctx'], solver=o['reason'], path=o['path'], model=o['model'])
                    for nm, o in xs[:3]] for g, xs in groups.items()}), fh, indent=1, default=str)
        for g in sorted(groups):
            print(f'  failed obligation: {g}')
        print(f'VIOLATION property={pid} replay={path} no-failing-input-found')
        code = 1
    elif errors:
        for e in errors:
            print(f'{pid}: bounded check gave no answer: {e}')
        code = 2 if undecided or not items or wrong else 0
    evidence(pid, tier, seed, trust, items, bounded, undecided, failed, errors, len(out) + (1 if failed and not out else 0),
             time.time() - t0)
    nobl = sum(len(i['obligations']) for i in items)
    npr = sum(o['status'] == 'proved' for i in items for o in i['obligations'])
    print(f'{pid}: {npr}/{nobl} obligations discharged, {len(undecided)} undecided items, '
          f'{sum(b["evaluations"] for b in bounded)} bounded cases, {time.time() - t0:.0f} s')
    for u in undecided:
        print(f'  undecided (decided by the bounded check only): {u["name"]}: {u["reason"].strip()[-300:]}')
    return code


def evidence(pid, tier, seed, trust, items, bounded, undecided, failed, errors, nviol, wall):
    P = PROPS[pid]
    obl = [o for i in items for o in i['obligations']]
    back = {}
    for o in obl:
        if o['status'] == 'proved':
            back[o['backend']] = back.get(o['backend'], 0) + 1
    names = sorted({i['name'] for i in items})
    per = {}
    for i in items:
        d = per.setdefault(i['name'], dict(obligations=0, discharged=0, paths=0, solver_s=0.0, status='proved'))
        d['obligations'] += len(i['obligations'])
        d['discharged'] += sum(o['status'] == 'proved' for o in i['obligations'])
        d['paths'] += i['paths']
        d['solver_s'] = round(d['solver_s'] + i['solver_s'], 2)
        if i['status'] != 'proved':
            d['status'] = i['status']
    second = [i['second'] for i in items if i.get('second')]
    cov = dict(
        obligations=len(obl), discharged=sum(o['status'] == 'proved' for o in obl),
        checker_cmd=f'python3-vt /verif/check.py {pid} --tier {tier}',
        trusted_base=P['trusted'],
        contracts_verified=per,
        functions_under_contract=sorted({f for i in items for f in i['functions'] if f.startswith('stream2py')}),
        callee_contracts_used=sorted({c for i in items for c in i['contracts']}),
        back_ends=back, solver_queries=sum(i['queries'] for i in items),
        solver_time_s=round(sum(i['solver_s'] for i in items), 1),
        undecided=undecided, failed_obligations=sorted({o['name'] for _, o in failed}),
        sample_obligations=[f"{o['ctx']} :: {o['name']} ({o['backend']}, {o['secs']} s)" for o in obl[::max(1, len(obl) // 8)]][:10],
        bounded_cross_check=[dict(name=b['name'], evaluations=b['evaluations'], distinct_nontrivial=b['distinct'],
                                  rule=b['rule'], samples=b['samples'][:3], bound=b.get('bound', ''))
                             for b in bounded],
        evaluations=sum(b['evaluations'] for b in bounded),
        distinct_nontrivial=sum(b['distinct'] for b in bounded),
        rule='; '.join(b['rule'] for b in bounded), samples=[s for b in bounded for s in b['samples'][:2]],
        errors=errors, trusted_base_checks=trust,
        explanation='deductive: every obligation generated from the current source of the functions under contract; '
                    'bounded_cross_check is bounded and not counted as proved')
    if second:
        cov['second_back_end_cvc5'] = {k: sum(s[k] for s in second) for k in second[0]}
    ev = dict(property=pid, tier='thorough' if tier == 'thorough' else 'quick', seed=seed, level=P['level'], coverage=cov,
              assumptions=P['assumptions'], wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)


def replay(pid, path):
    import importlib
    with open(path) as fh:
        d = json.load(fh)
    if d.get('kind') != 'failing input' or not d.get('harness'):
        print(json.dumps(d, indent=1))
        return 1
    m, f = d['harness']
    print(d['what'])
    r = getattr(importlib.import_module(m), f)(d['replay'])
    print('reproduced: ' + r if r else 'not reproduced')
    return 1 if r else 0


def setup():
    import z3
    import stream2py
    t0 = time.time()
    ts = trust_tasks(1, 'quick')
    runner.run_tasks(ts, time.time() + 900)
    out, wrong = trust_results(ts)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, 'trusted_base.json'), 'w') as fh:
        json.dump(out, fh, indent=1, default=str)
    for w in wrong:
        print('trusted base:', w)
    c = out['engine_compared_with_cpython']
    print(f"lemmas checked by Lean: {out.get('lemmas_checked_by_lean', {}).get('ok')}; engine compared with CPython: {c['cases']} cases, "
          f"{c['supported']} supported, {len(c['differences'])} differences, {time.time() - t0:.0f} s")
    print('z3', z3.get_version_string(), 'stream2py', stream2py.__file__, 'properties', len(PROPS))
    return 1 if wrong else 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a == ['--setup']:
        sys.exit(setup())
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--replay' in a:
        rc = replay(a[0], a[a.index('--replay') + 1])
    else:
        rc = main(a[0], tier)
    sys.stdout.flush()
    os._exit(rc)
