"""Which mutants change anything that the driver records:  diffmutants.py DIR [-j N]
Much faster than runmutants.py: no validation, only a comparison of the records with those of /repo.
DIR/diff.txt: one line per mutant: the first suite whose records differ, or SAME."""
import hashlib, json, os, queue, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = sys.argv[1]
N = int(sys.argv[3]) if sys.argv[2:3] == ['-j'] else 4
T = 'header tables'
M = 'merge mergefault mergebig mergeextreme'
SUITES = {'alignment.go': 'align header tables merge', 'horizontal.go': M, 'vertical.go': M, 'table.go': T + ' ' + M, 'width.go': 'width align history tables',
          'runewidth.go': 'stringwidth runewidth condhist startup', 'runewidth_posix.go': 'locale startup'}
G = 'graphcls graph graphruns'
ENV = {k: v for k, v in os.environ.items() if k not in ('LC_ALL', 'LC_CTYPE', 'LANG')}
ENV.update(LANG='C.UTF-8', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off')


def build(repo, d):
    h = d + '/harness'
    shutil.rmtree(h, ignore_errors=True)
    shutil.copytree(V + '/harness', h)
    m = open(h + '/go.mod').read()
    open(h + '/go.mod', 'w').write(m.replace('=> /repo', '=> ' + repo))
    return subprocess.run(['go', 'build', '-o', d + '/drv', '.'], cwd=h, env=ENV, capture_output=True).returncode == 0


def digest(d, suite, ea):
    out = d + '/out'
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([d + '/drv', suite, '-seed', '1', '-tier', 'quick', '-out', out, '-limit', '20'], cwd=d, capture_output=True,
                           env=dict(ENV, RUNEWIDTH_EASTASIAN=ea), timeout=200)
    except subprocess.TimeoutExpired:
        return 'timeout'
    if p.returncode:
        return 'exit'
    return hashlib.sha1(open(out, 'rb').read()).hexdigest()


def suites(f):
    return [(s, e) for s in (G if 'uniseg' in f else SUITES[os.path.basename(f)]).split() for e in '01'
            if e == '0' or s in ('tables', 'width', 'align', 'header', 'stringwidth')]


q = queue.Queue()
for i in range(N):
    d = D + '/d%d' % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
    q.put(d)
ref = {}
d = q.get()
assert build(d + '/repo', d)
for s, e in sorted({x for f in list(SUITES) + ['uniseg'] for x in suites(f)}):
    ref[s, e] = digest(d, s, e)
    if digest(d, s, e) != ref[s, e]:
        print('not deterministic:', s, e, flush=True)
        ref[s, e] = None
q.put(d)
out = open(D + '/diff.txt', 'w')


def one(m):
    j = json.load(open(m))
    d = q.get()
    f = d + '/repo/' + j['file']
    orig = open('/repo/' + j['file']).read()
    got = 'SAME'
    try:
        open(f, 'w').write(j['src'])
        if not build(d + '/repo', d):
            got = 'NOBUILD'
        else:
            for s, e in suites(j['file']):
                if ref[s, e] and digest(d, s, e) != ref[s, e]:
                    got = s + e
                    break
    finally:
        open(f, 'w').write(orig)
        q.put(d)
    out.write('%s %s %s:%d %s\n' % (os.path.basename(m)[:-5], got, j['file'], j['line'], j['what']))
    out.flush()


with ThreadPoolExecutor(N) as ex:
    list(ex.map(one, json.load(open(D + '/survive.json'))))
for i in range(N):
    shutil.rmtree(D + '/d%d' % i)
