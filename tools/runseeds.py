"""Run the check of each planted bug's property against it: python3 tools/runseeds.py [-j N] [ids or prefixes...]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 2
if args[:1] == ['-j']:
    j = int(args[1]); args = args[2:]
ids = [d for d in sorted(os.listdir(f'{V}/seeded')) if not args or any(d.startswith(a) for a in args)]
def run(i):
    d = f'/tmp/rs_{i}'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d)
    p = subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=d, capture_output=True, text=True)
    assert p.returncode == 0, p.stderr
    prop = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    t = time.time()
    e = f'/tmp/rsv_{i}'
    shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(V, e, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    os.makedirs(f'{e}/evidence')
    p = subprocess.run(['python3-vt', f'{e}/check.py', prop], cwd=e, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'))
    shutil.rmtree(d); shutil.rmtree(e)
    v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    return i, p.returncode, time.time() - t, v, p.stdout[-600:] + p.stderr[-600:]
res = {}
with cf.ThreadPoolExecutor(j) as ex:
    for i, rc, t, v, out in ex.map(run, ids):
        kind = 'MISSED' if rc == 0 else f'rc={rc}' if rc != 1 else 'caught (no input)' if all('no-failing-input-found' in x for x in v) else 'caught'
        print(f'{i:32s} {kind:18s} {t:5.0f}s {v[0] if v else out if rc else ""}', flush=True)
        res[i] = kind
print({k: sum(1 for x in res.values() if x == k) for k in set(res.values())})
