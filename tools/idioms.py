"""Do the ways of writing Python in harness/idioms.py mean the same to the engine and to Python?"""
import re
import subprocess
import sys
sys.path.insert(0, '/verif')
sys.path.insert(0, '/repo')
from concurrent.futures import ThreadPoolExecutor
import harness.idioms as I
names = I.NAMES
sel=sys.argv[1:]
def run(i):
    try: o=subprocess.run(["/opt/venv/bin/python","/verif/check.py","IDIOMS","--jobs","1","--case",str(i),"-v"],cwd='/verif',capture_output=True,text=True,timeout=120)
    except subprocess.TimeoutExpired: return i,1,'TIMEOUT'
    return i,o.returncode,o.stdout+o.stderr[-400:]
with ThreadPoolExecutor(6) as p:
    for i,rc,o in p.map(run,[k for k,n in enumerate(names) if not sel or n in sel]):
        m=re.search(r'(\d+) inconclusive, (\d+) concretised.*?(\d+) traces',o)
        bad='MISMATCH' in o or 'SPURIOUS' in o or rc or not m or m.group(1)!='0' or m.group(2)!='0'
        if bad:
            print('==',names[i],rc,m and m.groups())
            t=o[o.find('MISMATCH') if 'MISMATCH' in o else o.find('SPURIOUS') if 'SPURIOUS' in o else -500:]
            print('\n'.join(l[:200] for l in t.strip().split('\n')[-9:]))
