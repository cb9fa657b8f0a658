"""Shared machinery: scratch space, builds from /repo's working tree, TLC runs,
replay of jobs into the implementation, verdicts and evidence."""
from concurrent.futures import ThreadPoolExecutor
import itertools, json, os, random, re, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MODULES = ['1pass-core', '1pass-parse', '1pass-up', '1pass-term', '1pass-app']


class CheckError(Exception):
    """The check itself could not be carried out (exit status 2)."""


class BuildError(CheckError):
    pass


def goenv():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/usr/local/bin:/usr/local/go/bin:' + e.get('PATH', '')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE='/root/.cache/go-build', CGO_ENABLED='0')
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
        os.chmod(self.scratch, 0o755)
        self.rng = random.Random(seed * 7919 + sum(map(ord, prop)))
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.models = []
        self.kinds = {}
        self.violations = []
        self.notes = []
        self._built = {}
        self.count = itertools.count(1)
        self.bg = ThreadPoolExecutor(2)
        self.pending = []

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def cleanup(self):
        self.bg.shutdown(wait=True, cancel_futures=True)
        subprocess.run(['chmod', '-R', 'u+rwX', self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def tmp(self, name):
        return os.path.join(self.scratch, '%03d-%s' % (next(self.count), name))

    def background(self, f, *a, **k):
        """Work that does not depend on the rest; see join."""
        self.pending.append(self.bg.submit(f, *a, **k))

    def join(self):
        for p in self.pending:
            p.result()
        self.pending = []

    # ---------------------------------------------------------------- builds
    def driver(self):
        """The harness, linked with the packages of /repo's working tree."""
        if 'driver' not in self._built:
            d = os.path.join(self.scratch, 'harness')
            shutil.copytree(os.path.join(VERIF, 'harness'), d)
            p = os.path.join(d, 'go.mod')
            s = open(p).read().replace('=> /repo/', '=> %s/' % REPO)
            open(p, 'w').write(s)
            out = os.path.join(self.scratch, 'vdrv')
            r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=d, env=goenv(), capture_output=True, text=True)
            if r.returncode:
                raise BuildError('harness does not build:\n' + r.stderr[-3000:])
            self._built['driver'] = out
        return self._built['driver']

    def app(self):
        """The real application, built from /repo's working tree as it is."""
        if 'app' not in self._built:
            d = os.path.join(self.scratch, 'appbuild')
            os.makedirs(d)
            src = os.path.join(REPO, '1pass-app')
            for f in ('go.mod', 'go.sum'):
                s = open(os.path.join(src, f)).read()
                if f == 'go.mod':
                    s = s.replace('=> ../', '=> %s/' % REPO)
                open(os.path.join(d, f), 'w').write(s)
            out = os.path.join(self.scratch, '1pass.bin')
            r = subprocess.run(['go', 'build', '-modfile', os.path.join(d, 'go.mod'), '-ldflags', '-s -w', '-o', out, '.'],
                               cwd=src, env=goenv(), capture_output=True, text=True)
            if r.returncode:
                raise BuildError('application does not build:\n' + r.stderr[-3000:])
            os.chmod(out, 0o755)
            self._built['app'] = out
        return self._built['app']

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), workers=8, timeout=850, heap='4g'):
        spec = os.path.join(VERIF, 'spec')
        cf = self.tmp(module + '.cfg')
        open(cf, 'w').write(cfg)
        meta = self.tmp('meta')
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-Dsun.stdout.encoding=UTF-8', '-Dstderr.encoding=UTF-8', '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cf] + list(args) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode('utf-8', 'replace')
        return r.returncode, out

    @staticmethod
    def cfg(spec='Spec', constants=None, invariants=(), view=None, extra='', props=()):
        l = ['SPECIFICATION ' + spec]
        if constants:
            l.append('CONSTANTS')
            for k, v in constants.items():
                l.append(' %s = %s' % (k, tla(v)))
        if invariants:
            l.append('INVARIANTS ' + ' '.join(invariants))
        if props:
            l.append('PROPERTIES ' + ' '.join(props))
        if view:
            l.append('VIEW ' + view)
        l.append('CHECK_DEADLOCK FALSE')
        return '\n'.join(l) + '\n' + extra

    def modelcheck(self, module, constants, invariants, view=None, extra='', props=(), timeout=800, heap='8g'):
        """Exhaustive check of the design. A violated invariant is an error of
        the specification, never a verdict about the code."""
        rc, out = self.tlc(module, self.cfg(constants=constants, invariants=invariants, view=view, extra=extra, props=props), timeout=timeout, heap=heap)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        if rc != 0 or not m or 'No error has been found' not in out:
            raise CheckError('model %s: TLC exit %d\n%s' % (module, rc, out[-3000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        if dist < 2:
            raise CheckError('model %s is vacuous' % module)
        self.states += dist
        self.transitions += gen
        self.models.append({'module': module, 'constants': {k: str(v) for k, v in constants.items()}, 'invariants': list(invariants) + list(props),
                            'states': dist, 'transitions': gen})
        self.log('model', module, 'states', dist, 'transitions', gen)

    def histories(self, module, constants, mode, num=1000, depth=12, view=None, invariant='EmitLong', timeout=300, extra='', per=1, steps=None):
        """Behaviours of the specification. mode 'simulate': random walks (seeded);
        'cover': the history leading to and through every transition."""
        if mode == 'simulate':
            # several processes with seeds of their own; TLC reports every last
            # step of a walk, of which `per` are kept
            c = dict(constants, Emit=True, MaxLen=depth)
            k = max(1, min(6, num // 8))
            base = self.rng.randrange(1 << 28)

            def one(w):
                return self.tlc(module, self.cfg(constants=c, invariants=[invariant], extra=extra), workers=1, timeout=timeout, heap='2g',
                                args=['-simulate', 'num=%d' % ((num + k - 1) // k), '-depth', str((steps or depth) + 1), '-seed', str(base + w)])
            with ThreadPoolExecutor(k) as ex:
                res = list(ex.map(one, range(k)))
            rc, out = max(r[0] for r in res), '\n'.join(r[1] for r in res)
        else:
            c = dict(constants, Emit=True, MaxLen=depth)
            rc, out = self.tlc(module, self.cfg(constants=c, view=view, extra='ACTION_CONSTRAINT EmitAll\n' + extra), workers=1, timeout=timeout)
        hs, seen = [], set()
        for l in out.splitlines():
            if l.startswith('"HIST '):
                s = json.loads(l)[5:]
                if s not in seen:
                    seen.add(s)
                    hs.append(json.loads(s))
        if mode == 'simulate':
            groups = {}
            for h in hs:
                groups.setdefault(json.dumps(h[:-1]), []).append(h)
            hs = []
            for g in groups.values():
                hs += self.rng.sample(g, min(per, len(g)))
        if not hs:
            raise CheckError('no histories from %s (exit %d)\n%s' % (module, rc, out[-3000:]))
        self.log(module, mode, len(hs), 'histories')
        return hs

    # ---------------------------------------------------------------- replay
    def replay(self, family, jobs, env=None, workers=None, timeout=60):
        drv = self.driver()
        jf, tf = self.tmp('jobs.json'), self.tmp('traces.json')
        with open(jf, 'w') as f:
            for j in jobs:
                f.write(json.dumps(j) + '\n')
        e = dict(os.environ)
        e.update(TZ='UTC', VDRV_SCRATCH=self.tmp('w'), VDRV_TIMEOUT=str(timeout))
        os.makedirs(e['VDRV_SCRATCH'])
        os.chmod(e['VDRV_SCRATCH'], 0o755)
        if workers:
            e['VDRV_WORKERS'] = str(workers)
        e.update(env or {})
        r = subprocess.run([drv, 'replay', family, jf, tf], env=e, capture_output=True, text=True, errors='replace', timeout=3000)
        subprocess.run(['chmod', '-R', 'u+rwX', e['VDRV_SCRATCH']], stderr=subprocess.DEVNULL)
        shutil.rmtree(e['VDRV_SCRATCH'], ignore_errors=True)
        if r.returncode:
            raise CheckError('driver failed (%d): %s' % (r.returncode, r.stderr[-3000:]))
        return tf

    # -------------------------------------------------------------- validate
    def validate(self, module, tracefile, constants=None, extra_env=None, extra=''):
        """Checks recorded traces against the specification with TLC. Returns
        {trace index: [{p, i}]} for the traces that are not behaviours of it."""
        traces = [json.loads(l) for l in open(tracefile)]
        if not traces:
            raise CheckError('no traces')
        env = {'TRACES': tracefile}
        env.update(extra_env or {})
        rc, out = self.tlc(module, self.cfg(constants=constants, invariants=['Report', 'Ends'], view='View', extra=extra), env=env)
        done, bad = set(), {}
        for l in out.splitlines():
            if l.startswith('"DONE '):
                done.add(int(json.loads(l)[5:]) - 1)
            elif l.startswith('"BAD '):
                d = json.loads(json.loads(l)[4:])
                bad[d['tid'] - 1] = d['bad']
        if rc != 0 or len(done) != len(traces):
            raise CheckError('trace validation %s: TLC exit %d, %d of %d traces\n%s' % (module, rc, len(done), len(traces), out[-4000:]))
        self.traces += len(traces)
        for t in traces:
            self.events += len(t['ev'])
            for e in t['ev']:
                k = module + '.' + e['op'].get('a', '?')
                self.kinds[k] = self.kinds.get(k, 0) + 1
        if len(self.samples) < 3:
            t = traces[self.rng.randrange(len(traces))]
            self.samples.append({'module': module, 'job': t.get('job'), 'events': [shorten(x) for x in t['ev'][:6]], 'length': len(t['ev'])})
        self.log(module, len(traces), 'traces', sum(len(t['ev']) for t in traces), 'events', len(bad), 'not conforming')
        return traces, bad

    def judge(self, family, module, jobs, constants=None, env=None, workers=None, timeout=60, retries=1, extra=''):
        """Replays jobs, validates the traces, confirms what does not conform by
        replaying it again, and records violations of this check's property."""
        for n, j in enumerate(jobs):
            j['id'] = n
        tf = self.replay(family, jobs, env=env, workers=workers, timeout=timeout)
        traces, bad = self.validate(module, tf, constants, extra=extra)
        mine = {t: [b for b in l if b['p'] == self.prop] for t, l in bad.items()}
        mine = {t: l for t, l in mine.items() if l}
        other = sorted({b['p'] for l in bad.values() for b in l} - {self.prop})
        if other:
            self.notes.append('%s: mismatches that concern other properties only: %s' % (module, ' '.join(other)))
        if not mine:
            return
        cand = sorted(mine)[:8]
        for _ in range(retries):
            sub = [dict(jobs[t]) for t in cand]
            tf2 = self.replay(family, sub, env=env, workers=min(4, workers or 4), timeout=timeout)
            tr2, bad2 = self.validate(module, tf2, constants, extra=extra)
            keep = []
            for n, t in enumerate(cand):
                b = [x for x in bad2.get(n, []) if x['p'] == self.prop]
                if b:
                    keep.append(t)
                    mine[t], traces[t] = b, tr2[n]
                else:
                    self.notes.append('%s: job %s did not conform once but did when repeated' % (module, jobs[t].get('id')))
            cand = keep
        for t in cand:
            i = min(b['i'] for b in mine[t])
            tr = traces[t]
            self.violations.append({'family': family, 'module': module, 'job': jobs[t], 'env': env or {}, 'event_index': i,
                                    'event': tr['ev'][i - 1] if i - 1 < len(tr['ev']) else None,
                                    'operations': [shorten(e['op']) for e in tr['ev'][:i]], 'init': shorten(tr.get('init'), 4000)})


def shorten(x, n=900):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + '...'


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, str):
        return json.dumps(v)
    return str(v)


def evidence(ctx, level='model_checking', assumptions=()):
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'events_validated': ctx.events, 'events_by_kind': ctx.kinds, 'models': ctx.models, 'samples': ctx.samples, 'notes': ctx.notes[:20]}
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov, 'assumptions': list(assumptions),
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(ctx.violations)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, ctx.prop + '.json'), 'w'), indent=1, ensure_ascii=False)


def known(prop):
    """Known findings: lines 'finding: property=<id> match=<regex> <text>'."""
    l = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for s in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', s)
            if m and m.group(1) == prop:
                l.append((re.compile(m.group(2)), m.group(3)))
    return l


def finish(ctx):
    evidence(ctx)
    rest = []
    for v in ctx.violations:
        s = json.dumps(v, ensure_ascii=False)
        hit = [t for rx, t in known(ctx.prop) if rx.search(s)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, hit[0]))
        else:
            rest.append(v)
    for n, v in enumerate(rest[:3]):
        p = os.path.join(VERIF, 'evidence', 'replay-%s-%d.json' % (ctx.prop, n))
        json.dump(v, open(p, 'w'), indent=1, ensure_ascii=False)
        print('VIOLATION property=%s replay=%s' % (ctx.prop, p))
        print('  ' + str(shorten(v.get('event'), 1500)))
    return 1 if rest else 0
