#!/usr/bin/env python3
"""Runs every check against a copy of /repo with each planted bug and writes caught.json."""
import json,os,subprocess,sys,shutil,tempfile,re
from concurrent.futures import ThreadPoolExecutor
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT=R+'/tools/caught.json'
res=json.load(open(OUT)) if os.path.exists(OUT) else {}
ids=sys.argv[1:] or sorted(os.listdir(R+'/seeded'))
def run(b):
    t=tempfile.mkdtemp(prefix='ca-')
    try:
        subprocess.run(['cp','-a','/repo',t+'/repo'],check=True)
        subprocess.run(['git','-C',t+'/repo','apply',f'{R}/seeded/{b}/patch.diff'],check=True)
        os.makedirs(t+'/v/evidence')
        shutil.copy(R+'/known_findings.txt',t+'/v/')
        o=subprocess.run([R+'/bin/radocheck','-p','all'],env=dict(os.environ,VERIF_REPO=t+'/repo',VERIF_DIR=t+'/v'),capture_output=True,text=True).stdout
        return b,sorted(set(re.findall(r'^VIOLATION property=(C\d+)',o,re.M)))
    finally: shutil.rmtree(t)
with ThreadPoolExecutor(4) as ex:
    for b,c in ex.map(run,ids):
        own=json.load(open(f'{R}/seeded/{b}/meta.json'))['property']
        print(b,own,c,'' if own in c else 'OWN MISSED',flush=True)
        res[b]=c
json.dump({k:res[k] for k in sorted(res) if os.path.isdir(R+'/seeded/'+k)},open(OUT,'w'),indent=0)
