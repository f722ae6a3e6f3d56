"""A copy of /repo with one refactoring applied: python3 tools/apply_ref.py ID DIR"""
import glob, os, runpy, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, d = sys.argv[1:]
shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d)
for f in sorted(glob.glob(f'{V}/tools/specs/refs*.py')):
    for id, props, edits in runpy.run_path(f)['REFS']:
        if id == i:
            for f, a, b in edits:
                s = open(f'{d}/{f}').read(); assert a in s, a; open(f'{d}/{f}', 'w').write(s.replace(a, b, 1))
