"""First order mutants of the repository against the checks:  runmutants.py DIR [-j N] [numbers]
DIR/m/*.json from tools/mutate; DIR/survive.json names those that build and pass the tests.
Results go to DIR/results.txt, one line per mutant: the first check that catches it, or NONE."""
import json, os, shutil, subprocess, sys, queue
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = sys.argv[1]
args, N = sys.argv[2:], 2
if args[:1] == ['-j']:
    N, args = int(args[1]), args[2:]
ORDER = {'alignment.go': 'C03 C05 C06 C11', 'horizontal.go': 'C12 C15 C13 C14 C10', 'vertical.go': 'C12 C15 C13 C14 C10',
         'table.go': 'C04 C07 C05 C06 C26 C27 C15 C13', 'width.go': 'C01 C02 C25 C24', 'runewidth.go': 'C18 C20 C19 C22',
         'runewidth_posix.go': 'C21 C22', 'grapheme.go': 'C16 C17', 'graphemerules.go': 'C17 C16', 'properties.go': 'C17 C23',
         'step.go': 'C17 C23 C16', 'width_.go': 'C23'}
todo = [m for m in json.load(open(D + '/survive.json')) if not args or os.path.basename(m)[:-5] in args]
done = set()
if os.path.exists(D + '/results.txt') and not args:
    done = {l.split()[0] for l in open(D + '/results.txt')}
q = queue.Queue()
for i in range(N):
    d = D + '/r%d' % i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    q.put(d)


def one(m):
    k = os.path.basename(m)[:-5]
    if k in done:
        return
    j = json.load(open(m))
    d = q.get()
    f = d + '/' + j['file']
    orig = open('/repo/' + j['file']).read()
    got = 'NONE'
    try:
        open(f, 'w').write(j['src'])
        b = os.path.basename(f)
        if j['file'].endswith('uniseg/width.go'):
            b = 'width_.go'
        for fast, c in [('1', c) for c in ORDER[b].split()] + [('', c) for c in ORDER[b].split()]:
            p = subprocess.run(['python3', 'check.py', c], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_DEV_REPO=d, VERIF_DEV_NOMODELS='1', VERIF_DEV_FAST=fast))
            if p.returncode == 1 and 'VIOLATION property=' + c in p.stdout:
                got = c
                break
            if p.returncode != 0:
                got = 'ERROR-' + c
                break
    finally:
        open(f, 'w').write(orig)
        q.put(d)
    with open(D + '/results.txt', 'a') as o:
        o.write('%s %s %s:%d %s\n' % (k, got, j['file'], j['line'], j['what']))


with ThreadPoolExecutor(N) as ex:
    list(ex.map(one, todo))
for i in range(N):
    shutil.rmtree(D + '/r%d' % i)
