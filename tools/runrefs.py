"""Harmless refactorings: the checks have to stay quiet.  python3 tools/runrefs.py [-j N] [-k P,P] [ids...]
tools/specs/refs*.py: REFS = [(id, [props], [(file, old, new)...])]"""
import concurrent.futures as cf, re, glob, json, os, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j, only = 2, None
if args[:1] == ['-j']:
    j = int(args[1]); args = args[2:]
if args[:1] == ['-k']:
    only = args[1].split(','); args = args[2:]
REFS = [r for f in sorted(glob.glob(f'{V}/tools/specs/refs*.py')) for r in runpy.run_path(f)['REFS']]
def prepare(r):
    i, props, edits = r
    d = f'/tmp/rf_{i}'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old not in s:            # blank lines do not matter
            lines = [re.escape(l) for l in old.split('\n') if l.strip()]
            m = re.search(r'\n(?:[ \t]*\n)*'.join(lines) + ('\n' if old.endswith('\n') else ''), s)
            assert m, (i, f, old)
            old = m.group(0)
        open(p, 'w').write(s.replace(old, new, 1))
    return d
def run(i, prop, d):
    t = time.time()
    e = f'/tmp/rfv_{i}_{prop}'
    shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(V, e, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    os.makedirs(f'{e}/evidence')
    p = subprocess.run(['python3-vt', f'{e}/check.py', prop], cwd=e, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'))
    rep = ''
    for f in glob.glob(f'{e}/evidence/replay/*'):
        rep += open(f).read()[:400]
    shutil.rmtree(e)
    v = [l for l in p.stdout.splitlines() if l.startswith(('VIOLATION', prop))]
    return i, prop, p.returncode, time.time() - t, ' '.join(v)[:150] + ('' if p.returncode == 0 else rep + p.stdout[-300:] + p.stderr[-300:])
bad = 0
todo = []
for r in REFS:
    if args and not any(r[0].startswith(a) for a in args):
        continue
    d = prepare(r)
    q = subprocess.run(['/opt/venv/bin/python', '-m', 'compileall', '-q', 'stream2py'], cwd=d, capture_output=True, text=True)
    assert q.returncode == 0, q.stdout
    todo += [(r[0], p, d) for p in r[1] if not only or p in only]
with cf.ThreadPoolExecutor(j) as ex:
    for i, prop, rc, t, out in ex.map(lambda a: run(*a), todo):
        bad += rc != 0
        print(f'{i:28s} {prop} {"quiet" if rc == 0 else f"rc={rc} ALARM"} {t:5.0f}s {out}', flush=True)
for d in {d for _, _, d in todo}:
    shutil.rmtree(d, ignore_errors=True)
print('alarms', bad)
