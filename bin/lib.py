"""Shared machinery of the checks: building the driver, running TLC, reporting."""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
GOROOT = '/opt/veriftools/go1.27.3'


class CheckError(Exception):
    """The check itself could not be carried out (exit 2, never a violation)."""


def go_env():
    e = dict(os.environ)
    e.update(HOME='/root', GOROOT=GOROOT, GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE='/root/.cache/go-build', GOTOOLCHAIN='local', GOPROXY='off',
             GOFLAGS='-mod=mod', GOWORK='off',
             PATH=GOROOT + '/bin:' + os.environ.get('PATH', '/usr/bin:/bin'))
    return e


def load_known():
    """Known findings of the unchanged tree, by id."""
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


REPO_FRAME = 'github.com/gogama/flatgeobuf/'


# More memory than this is a crash of the driver (with a stack), before it
# gets other programs into trouble.
MEMORY = 12 << 30


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def run_driver(args, cwd, env, timeout, limited=True):
    """Run the driver.  When it does not end in time, ask the Go runtime for
    the stacks of its goroutines and end it."""
    with open(os.path.join(cwd, 'stdout'), 'w+') as so, open(os.path.join(cwd, 'stderr'), 'w+') as se:
        p = subprocess.Popen(args, cwd=cwd, env=env, stdout=so, stderr=se, preexec_fn=limit_memory if limited else None)
        hung = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            hung = True
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(30)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        so.seek(0)
        se.seek(0)
        return p.returncode, so.read(), se.read(), hung


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.specdir = os.path.join(self.work, 'spec')
        shutil.copytree(os.path.join(VERIF, 'spec'), self.specdir)
        self.states = self.transitions = 0
        self.traces = 0            # runs of the real code checked against the specification
        self.events = 0            # calls of the real code checked against the specification
        self.samples, self.counts, self.models = [], {}, []
        self.violations, self.known = [], []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # -- driver ---------------------------------------------------------
    def build32(self):
        """A driver with 32-bit int, or None where such programs can't run."""
        p = subprocess.run(['go', 'build', './...'], cwd=REPO, env=dict(go_env(), GOARCH='386', CGO_ENABLED='0', GOFLAGS=''), capture_output=True, timeout=600)
        if p.returncode != 0:
            self.assumptions.append('the library does not build with 32-bit int')
            return None
        drv = self.build(name='drv32', goarch='386')
        try:
            p = subprocess.run([drv, '-cmd', 'none'], capture_output=True, timeout=60)
            if p.returncode == 0:
                return drv
        except (OSError, subprocess.TimeoutExpired):
            pass
        self.assumptions.append('32-bit programs could not be run: int has 64 bits')
        return None

    def build_bigendian(self):
        """The driver on a machine of the other byte order (emu/mips.c), as a
        command line, or None where there can be none."""
        emu, drv = os.path.join(self.work, 'mips'), os.path.join(self.work, 'drvbe')
        try:
            p = subprocess.run(['gcc', '-O2', '-o', emu, os.path.join(VERIF, 'emu', 'mips.c')], capture_output=True, text=True, timeout=120)
            if p.returncode != 0:
                raise CheckError(p.stderr)
            if not self.builds_for(['mips']):
                return None
            self.build(name='drvbe', goarch='mips', ldflags='-s')
            p = subprocess.run([emu, drv, '-cmd', 'none'], capture_output=True, text=True, timeout=60)
            if p.returncode != 0:
                raise CheckError(p.stderr)
            return [emu, drv]
        except (CheckError, OSError, subprocess.TimeoutExpired) as x:
            self.assumptions.append('the library could not be run as on a big-endian machine: %s' % str(x)[:300])
            return None

    def drive_shards(self, drv, cmd, shards=8, **kw):
        """A driver command as several processes, each with a part of it."""
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            reps = list(ex.map(lambda i: self.drive(drv, cmd, env={'VERIF_SHARD': '%d/%d' % (i, shards)}, **kw), range(shards)))
        return sum(r['evaluations'] for r in reps), [os.path.join(r['dir'], t) for r in reps for t in r['traces'] or [] if t and os.path.exists(os.path.join(r['dir'], t))]

    def builds_for(self, archs):
        """Does the library build for these machines?"""
        for a in archs:
            p = subprocess.run(['go', 'build', './...'], cwd=REPO, env=dict(go_env(), GOARCH=a, CGO_ENABLED='0', GOFLAGS=''),
                               capture_output=True, text=True, timeout=600)
            if p.returncode != 0 and 'packedrtree' in p.stderr:
                self.violations.append({'problem': 'the library does not build for ' + a, 'observed': p.stderr[:2000]})
                return False
        return True

    def build_race(self):
        """A driver with the race detector; without it where it can't run."""
        try:
            drv = self.build(race=True, name='drvrace')
            p = subprocess.run([drv, '-cmd', 'none'], capture_output=True, timeout=60)
            if p.returncode == 0:
                return drv
        except (CheckError, OSError, subprocess.TimeoutExpired):
            pass
        self.assumptions.append('the race detector could not be used: races are only seen by their effects')
        return self.build()

    def refute(self, module, cfg, timeout=600):
        """A model which must not satisfy its properties: they can tell."""
        rc, out = self.tlc(module, cfg, timeout=timeout)
        if rc != 12 or 'is violated' not in out:
            raise CheckError('model %s/%s was to be refuted (exit %d):\n%s' % (module, cfg, rc, out[-3000:]))
        self.models.append({'model': module, 'config': cfg, 'refuted': True})

    def build(self, race=False, tags=None, name='drv', pkg='.', goarch=None, overlay=None, ldflags=None):
        src = os.path.join(self.work, 'harness')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
        out = os.path.join(self.work, name)
        cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + (['-overlay', overlay] if overlay else []) + (['-ldflags', ldflags] if ldflags else []) + [pkg]
        e = go_env()
        if goarch:
            e.update(GOARCH=goarch, GOMIPS='softfloat', CGO_ENABLED='0')
        p = subprocess.run(cmd, cwd=src, env=e, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError('driver does not build:\n' + p.stdout + p.stderr)
        return out

    def drive(self, drv, cmd, timeout=None, env=None, limited=True, **kw):
        """Run a driver command; returns its report."""
        timeout = timeout or (700 if self.thorough else 300)
        out = tempfile.mkdtemp(prefix='out-%s-' % cmd, dir=self.work)
        args = (drv if isinstance(drv, list) else [drv]) + ['-cmd', cmd, '-prop', self.prop, '-out', out, '-tier', self.tier, '-seed', str(self.seed)]
        for k, v in kw.items():
            args += ['-' + k] + ([] if v is True else [str(v)])
        e = go_env()
        e.update(env or {})
        rc, stdout, stderr, hung = run_driver(args, out, e, timeout, limited)
        if rc != 0 or hung:
            # A crash or a hang of the driver inside the code under test is
            # something the code did: it is reported.  Anything else is an
            # error of the check.
            if REPO_FRAME in stderr:
                self.violations.append({
                    'problem': 'the real code %s' % ('did not return within %d s' % timeout if hung else
                                                     'has a data race' if 'DATA RACE' in stderr else 'crashed the process'),
                    'observed': stderr[:3000], 'driver': args[1:]})
                return {'dir': out, 'traces': [], 'evaluations': 0}
            raise CheckError('driver %s %s (%s):\n%s\n%s' % (cmd, 'timed out' if hung else 'failed', rc, stdout[-3000:], stderr[-6000:]))
        with open(os.path.join(out, 'report.json')) as f:
            rep = json.load(f)
        rep['dir'] = out
        for k, v in (rep.get('counts') or {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.samples += (rep.get('samples') or [])
        for k in rep.get('known') or []:
            self.known.append(k)
        for v in rep.get('violations') or []:
            self.violations.append(v)
        return rep

    # -- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, workers=8, timeout=600, env=None, heap='6g', extra=()):
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        e = dict(os.environ)
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s' % (heap, meta)
        e.update(env or {})
        cmd = ['tlc', '-metadir', meta, '-workers', str(workers), '-config', cfg] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=self.specdir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s/%s' % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    def model_check(self, module, cfg=None, timeout=600, workers=8):
        """Exhaustive check of a model's own properties (no code involved)."""
        cfg = cfg or module + '.cfg'
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers)
        if rc != 0:
            raise CheckError('model %s/%s does not satisfy its own properties (exit %d):\n%s' % (module, cfg, rc, out[-4000:]))
        s = self.count_states(out, module)
        self.models.append({'model': module, 'config': cfg, 'states': s[1], 'transitions': s[0]})
        return out

    def count_states(self, out, what):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
        if not m:
            raise CheckError('no state count from TLC for %s:\n%s' % (what, out[-3000:]))
        g, d = int(m[-1][0]), int(m[-1][1])
        self.states += d
        self.transitions += g
        return g, d

    def export(self, module, cfg, tag='EDGE', timeout=600):
        """Lines '<tag> <json>' printed by a model, as an NDJSON file."""
        rc, out = self.tlc(module, cfg, workers=1, timeout=timeout)
        if rc != 0:
            raise CheckError('export from %s/%s failed (%d):\n%s' % (module, cfg, rc, out[-3000:]))
        path = os.path.join(self.work, cfg + '.ndjson')
        n = 0
        with open(path, 'w') as f:
            for line in out.splitlines():
                if line.startswith('"%s ' % tag):
                    f.write(json.loads(line)[len(tag) + 1:] + '\n')
                    n += 1
        if n == 0:
            raise CheckError('nothing exported from %s:\n%s' % (module, out[-3000:]))
        s = self.count_states(out, module)
        self.models.append({'model': module, 'config': cfg, 'states': s[1], 'transitions': s[0], 'exported': n})
        return path

    def validate(self, module, trace, cfg=None, timeout=800, begin='begin', heap='3g', extra_env=None):
        """Check a trace recorded from the real code against a trace
        specification.  Returns None if accepted, else the rejected session."""
        cfg = cfg or module + '.cfg'
        env = {'TRACE': trace}
        env.update(extra_env or {})
        rc, out = self.tlc(module, cfg, workers=1, timeout=timeout, env=env, heap=heap)
        with open(trace) as f:
            lines = f.read().splitlines()
        m = re.search(r'"TRACE-DONE", (\d+), (\d+)', out)
        if not m:
            raise CheckError('TLC gave no verdict on %s (%d):\n%s' % (module, rc, out[-4000:]))
        g = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if g:
            self.states += int(g[-1][1])
            self.transitions += int(g[-1][0])
        done, total = int(m.group(1)), int(m.group(2))
        if total != len(lines):
            raise CheckError('TLC read %d of %d trace lines' % (total, len(lines)))
        if done == total and rc == 0:
            self.traces += sum(1 for l in lines if '"e":"%s"' % begin in l)
            self.events += total
            return None
        if done == total:
            raise CheckError('TLC failed after the trace (%d):\n%s' % (rc, out[-3000:]))
        # The session of the first unmatched line.
        i = done
        b = i
        while b > 0 and '"e":"%s"' % begin not in lines[b]:
            b -= 1
        sess = [json.loads(l) for l in lines[b:i + 1]]
        v = {'specification': module, 'problem': 'the specification does not allow the last event of this recorded session',
             'matched_events': done, 'rejected_event': sess[-1], 'session': sess if len(sess) < 400 else sess[:5] + ['...'] + sess[-100:]}
        self.violations.append(v)
        return v

    def validate_many(self, module, traces, **kw):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max_workers=8) as ex:
            return list(ex.map(lambda t: self.validate(module, t, **kw), traces))

    # -- verdict --------------------------------------------------------
    def finish(self, level, rule, exhaustive=None, extra=None):
        wall = time.time() - self.t0
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'implementation_events': self.events,
               'samples': self.samples[:6], 'rule': rule, 'models': self.models, 'counts': self.counts}
        if exhaustive is not None:
            cov['exhaustive'] = exhaustive
        cov.update(extra or {})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        known = {k['id']: k for k in load_known()['known']}
        for k in sorted(set(self.known)):
            if k not in known or self.prop not in known[k]['properties']:
                self.violations.append({'problem': 'deviation %r is not a listed finding of this property' % k})
            else:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]['what']))
        if self.violations:
            d = os.path.join(VERIF, 'out', self.prop)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, 'replay-%s-%d.json' % (self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'violations': self.violations}, f, indent=1)
            v = self.violations[0]
            print('violation: ' + str(v.get('problem', '')) + ' ' + json.dumps(v.get('rejected_event', v.get('observed', '')))[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s held: %d runs (%d calls) of the real code checked, %d model states, %.1f s' %
              (self.prop, self.traces, self.events, self.states, wall))
        return 0
