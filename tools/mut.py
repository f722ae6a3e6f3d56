import sys,subprocess,shutil,os
f,old,new=sys.argv[1:4]; cmd=sys.argv[4:]
d='/tmp/mrepo'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d)
p=os.path.join(d,f); s=open(p).read(); old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
assert old in s,old
open(p,'w').write(s.replace(old,new,1))
r=subprocess.run(cmd,env=dict(os.environ,VERIF_REPO=d)); shutil.rmtree(d); sys.exit(r.returncode)
