import sys,time; sys.path[:0]=[__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),__import__('os').environ.get('VERIF_REPO','/repo')]; sys.dont_write_bytecode=True
import importlib
from pyve.contract import verify
m,f=sys.argv[1].split(':')
sel=sys.argv[2:]
x=getattr(importlib.import_module(m),f)()
for c in (x if isinstance(x,list) else [x]):
    if sel and not any(x in c.name for x in sel): continue
    t=time.time()
    r=verify(c)
    print(f'{c.name:40s} {r.status:10s} paths {r.paths} obl {len(r.obligations)} {time.time()-t:.1f}s', r.reason[-1500:])
    for o in r.obligations:
        if o.status!='proved': print('      ',o.name,o.status,o.definite,o.reason[:100],o.ctx, o.path[-8:] if o.path else '')
