"""Plant bugs: python3 tools/seed.py SPEC.py [ids...]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new), ...], demo, needs, breaks)].
Each one is tried in a scratch copy of /repo (tests pass, demo fails) and against /repo itself
(demo passes); the ones that hold are written to /verif/seeded/<id>/.
"""
import concurrent.futures as cf
import json, os, re, runpy, shutil, subprocess, sys, textwrap

BASE = 'b1adfd4'
W = '/tmp/seedw'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def original_lines_touched(repo, diff):
    """number of removed lines that stem from the base commit"""
    n = other = 0
    f = None
    for line in diff.splitlines():
        m = re.match(r'--- a/(.*)', line)
        if m:
            f = m.group(1)
            bl = sh(['git', 'blame', '-s', 'HEAD', '--', f], cwd='/repo').stdout.splitlines()
            continue
        m = re.match(r'@@ -(\d+)', line)
        if m:
            no = int(m.group(1)); continue
        if line.startswith('+++') or line.startswith('diff') or line.startswith('index'):
            continue
        if line.startswith('-'):
            if bl[no - 1].startswith('^' + BASE) or bl[no-1].startswith(BASE):
                n += 1
            else:
                other += 1
            no += 1
        elif line.startswith(' '):
            no += 1
    return n, other

def one(s):
    d = f'{W}/{s["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    r = f'{d}/repo'
    shutil.copytree('/repo', r)
    for f, old, new in s['edits']:
        p = f'{r}/{f}'
        t = open(p).read()
        if t.count(old) != 1:
            return s, f'edit does not match exactly once ({t.count(old)}): {f} {old!r}'
        open(p, 'w').write(t.replace(old, new))
    diff = sh(['git', 'diff'], cwd=r).stdout
    n, other = original_lines_touched(r, diff)
    if n == 0:
        return s, 'touches no original line'
    os.makedirs(f'{d}/out')
    o = f'{d}/out'
    open(f'{o}/patch.diff', 'w').write(diff)
    open(f'{o}/demo.sh', 'w').write(DEMO_SH); os.chmod(f'{o}/demo.sh', 0o755)
    open(f'{o}/demo.py', 'w').write(textwrap.dedent(s['demo']).lstrip())
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(f'{o}/meta.json', 'w'), indent=1)
    a = sh(['bash', f'{o}/demo.sh'], cwd='/repo')
    if a.returncode:
        return s, f'demo fails on /repo: {a.stdout[-500:]} {a.stderr[-1500:]}'
    b = sh(['bash', f'{o}/demo.sh'], cwd=r)
    if not b.returncode:
        return s, 'demo passes with the patch'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=r)
    t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120',
            '--doctest-modules', '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
            f'--junitxml={d}/junit.xml', 'stream2py', 'pack.py'], cwd=r, env=env)
    sh(['/opt/venv/bin/python', '/opt/vp/results.py', f'{d}/out.json', f'junit:{d}/junit.xml'])
    res = json.load(open(f'{d}/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base.get('stable') or base.get('passed') or base.get('pass')
    got = res.get('passed') or res.get('pass')
    miss = sorted(set(want) - set(got))
    if miss:
        return s, f'tests fail: {miss}'
    shutil.rmtree(r)
    dest = f'/verif/seeded/{s["id"]}'
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(o, dest)
    return s, f'OK (original {n}, own {other}) demo: {((b.stdout + b.stderr).strip().splitlines() or [""])[-1][:150]}'

if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:]
    if ids:
        seeds = [s for s in seeds if s['id'] in ids]
    os.makedirs(W, exist_ok=True)
    with cf.ThreadPoolExecutor(4) as ex:
        for s, msg in ex.map(one, seeds):
            print(s['id'], s['property'], msg, flush=True)
    for s in seeds:
        shutil.rmtree(f'{W}/{s["id"]}', ignore_errors=True)
