"""run every registered check against one extraction (development helper; not part of any registered command)"""
import os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + '/checks/c[0-9][0-9].py'))
def go(i):
    r = subprocess.run([sys.executable, V + '/checks/run.py', i], capture_output=True, text=True)
    return i, r.returncode, r.stdout + r.stderr
with ThreadPoolExecutor(7) as ex:
    for i, rc, o in ex.map(go, ids):
        L = o.strip().split('\n')
        print(i, rc, L[0] if rc == 0 and len(L) == 1 else o)
