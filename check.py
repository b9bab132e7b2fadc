#!/usr/bin/env python3
"""Decide one property:  check.py C01 [--replay FILE]

Builds the driver from /repo's working tree, model checks the specification,
lets the real code run the generated cases, and has TLC validate everything it
did against the specification.  Exit 0: conforms.  Exit 1 and a VIOLATION line:
the real code does what the specification forbids (shown twice).  Exit 2: the
check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, VERIF)
from props_cfg import PROPS  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CHUNK = 60e6  # bytes of records per validation
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


T0 = time.time()


def base_env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if k not in ('LC_ALL', 'LC_CTYPE', 'LANG', 'RUNEWIDTH_EASTASIAN', 'GOFLAGS', 'GORACE', 'GOGC',
                      'GOMEMLIMIT', 'GOMAXPROCS', 'JAVA_TOOL_OPTIONS', 'GOOS', 'GOARCH')}
    e.update(LANG='C.UTF-8', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off')
    e.update(extra or {})
    return e


class Run:
    def __init__(self, prop):
        self.prop, self.cfg = prop, PROPS[prop]
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
        self.states = self.transitions = self.records = 0
        self.models = []
        self.samples = []
        self.parts = []
        self.drv = {}

    # ---- build ----
    def build(self, race=False):
        key = 'drv-race' if race else 'drv'
        if key in self.drv:
            return self.drv[key]
        src = os.path.join(self.scratch, 'harness')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
            dev = os.environ.get('VERIF_DEV_REPO')  # only tools/runseeded.py sets it
            if dev:
                m = open(os.path.join(src, 'go.mod')).read()
                open(os.path.join(src, 'go.mod'), 'w').write(m.replace('=> /repo', '=> ' + dev))
        out = os.path.join(self.scratch, key)
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', out, '.']
        p = subprocess.run(cmd, cwd=src, env=base_env(), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError('driver does not build:\n' + p.stdout + p.stderr)
        self.drv[key] = out
        return out

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, args=(), timeout=None, mem='10g', workers=None, ok=(0,)):
        meta = tempfile.mkdtemp(prefix='meta', dir=self.scratch)
        e = base_env(dict(SPECDIR=SPEC, VERIF_TIER=TIER, **(env or {})))
        cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + mem, '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
               '-workers', str(workers or os.cpu_count()), '-metadir', meta, '-config', cfg] + list(args) + [module]
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout or 840, errors='replace')
        shutil.rmtree(meta, ignore_errors=True)
        if ok is not None and p.returncode not in ok:
            raise CheckError('TLC %s %s: exit %d\n%s' % (module, cfg, p.returncode, (p.stdout + p.stderr)[-4000:]))
        g = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
        gen, dist = (int(g[-1][0]), int(g[-1][1])) if g else (0, 0)
        if not g:
            g = re.findall(r'The number of states generated: (\d+)', p.stdout)
            gen = int(g[-1]) if g else 0
        m = re.search(r'Finished computing initial states: (\d+) (?:distinct )?state', p.stdout)
        return p, max(0, gen - (int(m.group(1)) if m else 0)), dist

    def tiered(self, cfg):
        t = cfg.replace('.cfg', '_thorough.cfg')
        return t if TIER == 'thorough' and os.path.exists(os.path.join(SPEC, t)) else cfg

    def model(self, module, cfg):
        t = time.time()
        _, gen, dist = self.tlc(module, cfg, timeout=840 if TIER == 'quick' else 7200)
        if dist == 0:
            raise CheckError('model %s explored nothing' % module)
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, config=cfg, distinct_states=dist, transitions=gen,
                                wall_s=round(time.time() - t, 1)))
        log('model %s/%s: %d states' % (module, cfg, dist))

    # ---- driving the real code ----
    def drive(self, part, out, cases=None, journal=None, limit=None):
        drv = self.build(part.get('race', False))
        cmd = [drv, part['suite'], '-seed', str(SEED), '-tier', TIER, '-out', out]
        if part.get('opt'):
            cmd += ['-opt', part['opt']]
        if cases:
            cmd += ['-cases', cases]
        if journal:
            cmd += ['-journal', journal]
        cmd += ['-limit', str(limit or part.get('limit', 20))]
        try:
            p = subprocess.run(cmd, env=base_env(part.get('env')), capture_output=True, text=True,
                               timeout=part.get('timeout', 600), errors='replace', cwd=self.scratch)
        except subprocess.TimeoutExpired:
            raise CheckError('driver did not finish: %s' % cmd)
        if part.get('kind') and os.path.exists(out):
            mark = '{"kind":"%s",' % part['kind']
            ls = [l for l in open(out, errors='replace').read().split('\n') if l.startswith(mark)]
            open(out, 'w').write('\n'.join(ls) + '\n')
        return p

    def gen_cases(self, part, idx=0):
        """Cases made by TLC from the specification."""
        g = part['gen']
        cfg = self.tiered(g['cfg'])
        args, workers = g.get('args', {}).get(TIER, []), None
        if g.get('simulate'):
            args, workers = ['-simulate', 'num=%d' % g['simulate'][TIER], '-depth', '200', '-seed', str(SEED)] + args, 1
        p, gen, dist = self.tlc(g['module'], cfg, args=args, ok=None, env=g.get('env'), workers=workers)
        out = os.path.join(self.scratch, 'gen-%d.nd' % idx)
        n = 0
        with open(out, 'w') as f:
            for line in p.stdout.splitlines():
                m = re.match(r'^"(\{.*\})"$', line)
                if m:
                    f.write(json.loads('"' + m.group(1) + '"') + '\n')
                    n += 1
        if n == 0 or (p.returncode != 0 and not g.get('simulate')):
            raise CheckError('generator %s: exit %d, %d cases\n%s' % (g['module'], p.returncode, n, p.stdout[-3000:]))
        self.states += dist
        self.transitions += gen
        log('generated %d cases with %s' % (n, g['module']))
        return out

    def validate(self, part, recs):
        """-> list of (record index from 0, reason text)"""
        v = part.get('val') or self.cfg['val']
        p, gen, dist = self.tlc(v[0], v[1], env=dict(RECS=recs, PROP=v[2] if len(v) > 2 else self.prop), ok=(0, 12, 13))
        bad = []
        txt = p.stdout
        for m in re.finditer(r'<<\s*"VERIF-BAD",\s*(\d+),', txt):
            end = txt.find('\n<<', m.end())
            bad.append((int(m.group(1)) - 1, re.sub(r'\s+', ' ', txt[m.end():m.end() + 600])))
        if p.returncode != 0 and not bad:
            raise CheckError('validation %s failed without a reason:\n%s' % (v, txt[-4000:]))
        if p.returncode == 0 and bad:
            raise CheckError('validation %s: inconsistent outcome\n%s' % (v, txt[-4000:]))
        return sorted(set(bad)), gen, dist

    def run_part(self, part, idx):
        t = time.time()
        recs = os.path.join(self.scratch, 'recs-%d.nd' % idx)
        cases = self.gen_cases(part, idx) if 'gen' in part else None
        part['_cases'] = cases
        p = self.drive(part, recs, cases)
        if p.returncode != 0:
            self.crashed(part, p, cases)
        part['_lines'] = lines = [l for l in open(recs, errors='replace').read().split('\n') if l]
        os.unlink(recs)
        if not lines:
            raise CheckError('no records from %s' % part['suite'])
        part['_subs'] = [part]
        if 'split' in part:  # records of several kinds
            part['_subs'] = []
            for kind, val in part['split'].items():
                sub = dict(part, kind=kind, val=val, _lines=[l for l in lines if l.startswith('{"kind":"%s",' % kind)])
                del sub['split']
                if not sub['_lines']:
                    raise CheckError('no %s records from %s' % (kind, part['suite']))
                part['_subs'].append(sub)
        for k in (0, len(lines) // 2, len(lines) - 1):
            if len(self.samples) < 12:
                self.samples.append(dict(suite=part['suite'], env=part.get('env', {}), record=short(json.loads(lines[k]))))
        self.parts.append(dict(suite=part['suite'], env=part.get('env', {}), records=len(lines),
                               cases_from=part.get('gen', {}).get('module', 'driver'), wall_s=round(time.time() - t, 1)))
        self.records += len(lines)
        log('%s: %d records from the real code' % (part['suite'], len(lines)))

    def run_val(self, val, parts):
        recs = os.path.join(self.scratch, 'all.nd')
        todo = [(part, k) for part in parts for k in range(len(part['_lines']))]
        while todo:
            size = n = 0
            with open(recs, 'w') as f:
                while n < len(todo) and (n == 0 or size < CHUNK):
                    part, k = todo[n]
                    f.write(part['_lines'][k] + '\n')
                    size += len(part['_lines'][k])
                    n += 1
            where, todo = todo[:n], todo[n:]
            bad, gen, dist = self.validate(parts[0], recs)
            os.unlink(recs)
            self.states += dist
            self.transitions += gen
            log('%s: %d records, %.1f MB, %d rejected' % (val[0], len(where), size / 1e6, len(bad)))
            if bad:
                part = where[bad[0][0]][0]
                mine = [(where[i][1], r) for i, r in bad if where[i][0] is part]
                self.rejected(part, part['_lines'], mine)

    # ---- confirming ----
    def rejected(self, part, lines, bad):
        # alone, in a fresh process
        for i, reason in bad[:5]:
            cases = os.path.join(self.scratch, 'one.nd')
            open(cases, 'w').write(lines[i] + '\n')
            out = os.path.join(self.scratch, 'one-out.nd')
            p = self.drive(part, out, cases, limit=60)
            if p.returncode != 0:
                self.violation(part, [lines[i]], 'crash: ' + tail(p), 'case')
            again, _, _ = self.validate(part, out)
            if again:
                self.violation(part, [l for l in open(out).read().split('\n') if l], again[0][1], 'case')
        # with its history
        for _ in range(part.get('again', 4)):
            out = os.path.join(self.scratch, 'again.nd')
            p = self.drive(part, out, part.get('_cases'))
            if p.returncode != 0:
                self.violation(part, [], 'crash: ' + tail(p), 'suite')
            again, _, _ = self.validate(part, out)
            if again:
                ls = [l for l in open(out).read().split('\n') if l]
                self.violation(part, [ls[i] for i, _ in again[:3]], again[0][1], 'suite')
        raise CheckError('a rejected record was not rejected again: %s %s' % (bad[0][1], lines[bad[0][0]][:2000]))

    def crashed(self, part, p, cases):
        first = tail(p)
        out = tempfile.mktemp(prefix='crash', dir=self.scratch)
        j = out + '-journal'
        for _ in range(part.get('again', 4)):
            q = self.drive(part, out, cases, journal=j)
            if q.returncode != 0 and not os.path.exists(j):
                self.violation(part, [], 'crash: ' + first, 'suite')
            if q.returncode != 0:
                one = out + '-one'
                shutil.copy(j, one)
                r = self.drive(part, out, one)
                kind = 'case' if r.returncode != 0 else 'suite'
                self.violation(part, [open(one).read().strip()], 'crash: ' + first, kind)
        raise CheckError('driver failed once: ' + first)

    def violation(self, part, cases, reason, kind):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, int(time.time() * 1000)))
        json.dump(dict(property=self.prop, kind=kind, part={k: v for k, v in part.items() if k[0] != '_'}, seed=SEED, tier=TIER,
                       reason=reason, cases=[json.loads(c) for c in cases if c]), open(path, 'w'), indent=1)
        print('rejected by the specification:', reason[:1500])
        for c in cases[:1]:
            print('observed:', c[:1500])
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        self.evidence(1)
        raise SystemExit(1)

    # ---- evidence ----
    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.cfg.get('level', 'model_checking'),
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.records,
                                samples=self.samples, models=self.models, parts=self.parts,
                                rule=self.cfg.get('rule', 'cases generated from the specification or by seeded, boundary and exhaustive generators; each is executed by the real code and its recorded result validated by TLC')),
                  assumptions=self.cfg.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=violations)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1, ensure_ascii=False)

    def main(self):
        parts = [dict(x) for x in self.cfg['parts']]
        parts = [x for x in parts if x.get('tier', TIER) == TIER]
        if os.environ.get('VERIF_DEV_FAST'):  # only tools/runmutants.py sets it: some of the parts
            parts = [x for x in parts if x.get('env') != {'RUNEWIDTH_EASTASIAN': '1'} and x['suite'] != 'mergebig'] or parts
        errs = []

        def models():
            try:
                for m, c in self.cfg.get('models', []) if not os.environ.get('VERIF_DEV_NOMODELS') else []:  # only tools/runmutants.py sets it
                    self.model(m, self.tiered(c))
            except BaseException as e:
                errs.append(e)
        for race in sorted({bool(x.get('race')) for x in parts}):
            self.build(race)
        log('built')
        th = threading.Thread(target=models)
        th.start()
        try:
            with ThreadPoolExecutor(4) as ex:
                for f in [ex.submit(self.run_part, part, i) for i, part in enumerate(parts) if not part.get('alone')]:
                    f.result()
            for i, part in enumerate(parts):
                if part.get('alone'):
                    self.run_part(part, i)
            vals = []
            parts = [sub for part in parts for sub in part['_subs']]
            for part in parts:
                v = part.get('val') or self.cfg['val']
                if v not in vals:
                    vals.append(v)
            for v in vals:
                self.run_val(v, [x for x in parts if (x.get('val') or self.cfg['val']) == v])
        finally:
            th.join()
        if errs:
            raise errs[0]
        self.evidence(0)
        log('%s holds on everything explored: %d states, %d records' % (self.prop, self.states, self.records))

    def replay(self, path):
        r = json.load(open(path))
        part = r['part']
        global SEED, TIER
        SEED, TIER = r['seed'], r['tier']
        cases = None
        if r['kind'] == 'case' and r['cases']:
            cases = os.path.join(self.scratch, 'replay.nd')
            open(cases, 'w').write('\n'.join(json.dumps(c) for c in r['cases']) + '\n')
        elif 'gen' in part:
            cases = self.gen_cases(part)
        out = os.path.join(self.scratch, 'replay-out.nd')
        p = self.drive(part, out, cases, limit=60)
        if p.returncode != 0:
            print('crash:', tail(p))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            raise SystemExit(1)
        bad, _, _ = self.validate(part, out)
        for b in bad[:10]:
            print('rejected:', b)
        if bad:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            raise SystemExit(1)
        print('not rejected')


def tail(p):
    s = (p.stderr or '') + (p.stdout or '')
    m = re.search(r'(fatal error|panic|WARNING: DATA RACE)[^\n]*(\n[^\n]*){0,12}', s)
    return m.group(0) if m else s[-800:]


def short(x, n=40):
    if isinstance(x, list):
        return [short(y, n) for y in x[:n]] + (['... %d more' % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: short(v, n) for k, v in x.items()}
    return x


if __name__ == '__main__':
    prop = sys.argv[1]
    if prop == '--setup':  # warms the build cache, shows that the tools are there
        run = Run('C01')
        try:
            run.build()
            run.build(True)
            run.model('MC_Locale', 'MC_Locale.cfg')
        finally:
            shutil.rmtree(run.scratch, ignore_errors=True)
        sys.exit(0)
    run = Run(prop)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            run.replay(sys.argv[3])
        else:
            run.main()
    except CheckError as e:
        print('ERROR', e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print('ERROR timeout', e)
        sys.exit(2)
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)
