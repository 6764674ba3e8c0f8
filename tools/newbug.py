"""newbug.py spec.py : spec defines ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO (python text)"""
import sys,os,subprocess,json,runpy,shutil
sys.path.insert(0,'/tmp')
from crlf import edit
s=runpy.run_path(sys.argv[1])
ID=s['ID']; d='/verif/seeded/'+ID
os.makedirs(d,exist_ok=True)
W='/tmp/seedrepo'
subprocess.run(['git','-C','/repo','worktree','remove','--force',W],capture_output=True)
subprocess.run(['git','-C','/repo','worktree','add','-f','--detach',W,'HEAD'],check=True,capture_output=True)
edits=s.get('EDITS') or [(s['FILE'],s['OLD'],s['NEW'])]
for f,a,b in edits: edit(os.path.join(W,f),(a.strip('\n'),b.strip('\n')) if s.get('STRIP',True) else (a,b))
diff=subprocess.run(['git','-C',W,'diff','--binary'],capture_output=True,check=True).stdout
open(d+'/patch.diff','wb').write(diff)
# lines deleted must be original
base='961a3df'
for f,_,_ in edits:
    hunks=subprocess.run(['git','-C',W,'diff','-U0','--',f],capture_output=True,text=True).stdout
    for l in hunks.splitlines():
        if l.startswith('-') and not l.startswith('---'):
            o=subprocess.run(['git','-C','/repo','show',base+':'+f],capture_output=True,text=True).stdout
            print('orig' if l[1:].strip() in o else 'NOT ORIGINAL', l)
open(d+'/demo.py','w').write(s['DEMO'].lstrip('\n'))
open(d+'/demo.sh','w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH="$PWD"\nexec timeout 250 "$PY" "$(dirname "$0")/demo.py"\n')
os.chmod(d+'/demo.sh',0o755)
json.dump({"property":s['PROP'],"needs":s['NEEDS'],"what_it_breaks":s['BREAKS']},open(d+'/meta.json','w'),indent=1)
def run(cwd):
    r=subprocess.run(['bash',d+'/demo.sh'],cwd=cwd,capture_output=True,text=True); return r.returncode,(r.stdout+r.stderr)[-400:]
print('clean',run('/repo')); print('patched',run(W))
if '--check' in sys.argv:
    e=dict(os.environ,MQ_REPO=W)
    r=subprocess.run(['python3','run_check.py',s['PROP']],cwd='/verif',env=e,capture_output=True,text=True)
    print('CHECK',r.returncode,"\n".join(x[:220] for x in r.stdout.splitlines()[:4]))
subprocess.run(['git','-C','/repo','worktree','remove','--force',W],capture_output=True)
