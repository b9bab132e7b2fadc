"""Runs the quick check of each planted bug's property against a scratch copy of /repo with that bug.
runseeded.py [-j N] [-p PROP] [ids]     -p: another property's check instead
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'
args, jobs, prop = sys.argv[1:], 2, None
while args and args[0] in ('-j', '-p'):
    if args[0] == '-j':
        jobs = int(args[1])
    else:
        prop = args[1]
    args = args[2:]


def one(i):
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    c = prop or m['property']
    d = tempfile.mkdtemp(prefix='seeded-', dir='/tmp')
    try:
        r = d + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        subprocess.run(['git', '-C', r, 'apply', '%s/%s/patch.diff' % (S, i)], check=True)
        t = time.time()
        p = subprocess.run(['python3', 'check.py', c], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', VERIF_DEV_REPO=r))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hit = p.returncode == 1 and 'VIOLATION property=' + c in p.stdout
    print('%-24s %s %s exit %d %.0fs' % (i, c, 'CAUGHT' if hit else 'MISSED', p.returncode, time.time() - t), flush=True)
    if not hit:
        print(p.stdout[-1500:], p.stderr[-500:], flush=True)


with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, args or sorted(os.listdir(S))))
