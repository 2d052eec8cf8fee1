'''Common machinery: run TLC on design specifications, obtain scenarios generated by TLC,
record traces of the real code, and validate the traces against the specifications.'''
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

NAN, INF, BAD, NINF = 2000000001, 2000000002, 2000000003, 2000000004


class MachineryError(Exception):
    pass


def _plain(v):
    '''numpy integers in recorded events'''
    return int(v)


def tlc_jars():
    if os.path.exists(JARS.split(':')[0]):
        return JARS
    raise MachineryError('TLC jar not found')


def run_tlc(module, cfg, workdir, env=None, workers=8, extra=(), timeout=800, heap='6g'):
    '''Runs TLC on a module of /verif/spec, returns (exit code, output).'''
    metadir = tempfile.mkdtemp(prefix='meta', dir=workdir)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
           '-Djava.io.tmpdir=' + workdir,
           '-cp', tlc_jars(), 'tlc2.TLC', '-workers', str(workers), '-metadir', metadir,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    full_env = dict(os.environ)
    full_env.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=full_env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise MachineryError('TLC timed out on {} {}'.format(module, cfg)) from e
    finally:
        shutil.rmtree(metadir, ignore_errors=True)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif_{}_'.format(pid))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.notes = []
        self.rng = random.Random('{}-{}'.format(pid, seed))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print('[{} {:6.1f}s]'.format(self.pid, time.time() - self.t0), *a, flush=True)

    # ---- design level ---------------------------------------------------------------
    def mc(self, module, cfg, extra=(), env=None, timeout=800):
        '''Exhaustive TLC run of a design specification. Any error means that the design (our
        model) is inconsistent with the property: that is a machinery error, not a code violation.'''
        rc, out = run_tlc(module, cfg, self.work, env=env, extra=extra, timeout=timeout)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m or 'No error has been found' not in out:
            raise MachineryError('design check failed: {} {}\n{}'.format(module, cfg, out[-4000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        self.log('design {} {}: {} states generated, {} distinct'.format(module, cfg, gen, dist))
        self.notes.append('{} {}: {} generated / {} distinct'.format(module, cfg, gen, dist))
        return out

    def generate(self, module, cfg, num=None, depth=30, env=None, timeout=600):
        '''Scenarios printed by TLC as JSON lines "GEN <json>"; exhaustive when num is None,
        otherwise random behaviours of the specification (-simulate).'''
        extra = []
        if num is not None:
            extra = ['-simulate', 'num={}'.format(num), '-depth', str(depth),
                     '-seed', str(1000 + self.seed)]
        rc, out = run_tlc(module, cfg, self.work, env=env, extra=extra, timeout=timeout,
                          workers=1 if num is not None else 8)
        res, seen = [], set()
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"GEN '):
                txt = json.loads(line)[4:]
                if txt not in seen:
                    seen.add(txt)
                    res.append(json.loads(txt))
        if rc != 0 or not res:
            raise MachineryError('generation failed: {} {} rc={}\n{}'.format(module, cfg, rc, out[-3000:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m and num is None:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        self.log('generated {} scenarios from {} {}'.format(len(res), module, cfg))
        res.sort(key=lambda r: json.dumps(r, sort_keys=True))
        return res

    # ---- conformance ----------------------------------------------------------------
    def validate(self, module, cfg, sessions, timeout=800, label=''):
        '''Trace validation by TLC. sessions: list of dict(ev=[...], note=...).'''
        if not sessions:
            raise MachineryError('no sessions recorded')
        for s in sessions:
            if not s['ev']:
                raise MachineryError('empty session {}'.format(s.get('note')))
            for e in s['ev']:
                key = e.get('op', '?')
                self.events[key] = self.events.get(key, 0) + 1
        bad = self._validate(module, cfg, list(enumerate(sessions)), timeout)
        self.traces += len(sessions)
        if len(self.samples) < 3:
            s = sessions[self.rng.randrange(len(sessions))]
            self.samples.append(json.dumps(dict(spec=module, note=s.get('note', ''), ev=s['ev'][:6]), default=_plain)[:1500])
        for (idx, evno, clauses) in sorted(bad):
            self.violation(sessions[idx], evno, clauses, module)
        self.log('{}: {} sessions, {} events validated, {} rejected {}'.format(
            module, len(sessions), sum(len(s['ev']) for s in sessions), len(bad), label))
        return bad

    def _validate(self, module, cfg, indexed, timeout):
        path = os.path.join(self.work, 'trace_{}_{}.ndjson'.format(module, len(os.listdir(self.work))))
        with open(path, 'w') as f:
            for _, s in indexed:
                f.write(json.dumps({'ev': s['ev']}, default=_plain) + '\n')
        rc, out = run_tlc(module, cfg, self.work, env={'TRACE': path}, extra=['-deadlock'], timeout=timeout)
        os.unlink(path)
        done, bad = set(), []
        for line in out.splitlines():
            m = re.match(r'^"TD (\d+)"', line)
            if m:
                done.add(int(m.group(1)))
            m = re.match(r'^"TV (\d+) (\d+) (.*)"$', line)
            if m:
                done.add(int(m.group(1)))
                bad.append((indexed[int(m.group(1)) - 1][0], int(m.group(2)), m.group(3)))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc == 0 and len(done) == len(indexed):
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
            return bad
        # An evaluation error: the recorded data does not even have the shape that the
        # specification gives a meaning to. Isolate the session(s).
        if 'TLC threw an unexpected exception' not in out and 'Error:' not in out:
            raise MachineryError('TLC failed rc={} {}\n{}'.format(rc, module, out[-3000:]))
        if 'Parsing or semantic analysis failed' in out or 'OutOfMemory' in out or 'StackOverflow' in out:
            raise MachineryError('TLC failed rc={} {}\n{}'.format(rc, module, out[-3000:]))
        if len(indexed) == 1:
            reason = [x for x in out.splitlines() if x.strip()]
            err = [i for i, x in enumerate(reason) if x.startswith('Error:')]
            txt = ' '.join(reason[err[0]:err[0] + 6])[:400] if err else 'evaluation error'
            return [(indexed[0][0], 0, 'unexplainable-by-specification: ' + txt)]
        # keep known verdicts, re-run what was not reached
        rest = [(i, s) for n, (i, s) in enumerate(indexed, 1) if n not in done]
        res = list(bad)
        if len(rest) < len(indexed) and len(rest) > 1 and len(done) > 0:
            half = max(1, len(rest) // 2)
        else:
            half = max(1, len(rest) // 2)
        if len(self.violations) + len(res) > 20:
            return res
        for part in (rest[:half], rest[half:]):
            if part:
                got = self._validate(module, cfg, part, timeout)
                res += got
                if len(res) > 5:
                    break
        return res

    def violation(self, session, evno, clauses, module):
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '{}_{}.json'.format(self.pid, len(self.violations)))
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, spec=module, event=evno, clauses=clauses,
                           note=session.get('note', ''), seed=self.seed, tier=self.tier,
                           ev=session['ev']), f, indent=1, default=_plain)
        self.violations.append((path, clauses))
        if len(self.violations) <= 5:
            ev = session['ev'][evno - 1] if evno else session['ev'][-1]
            self.log('rejected at event {}: {} {} note={}'.format(
                evno, clauses, json.dumps(ev, default=_plain)[:700], session.get('note', '')))

    # ---- result ---------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        real = []
        for (path, clauses) in self.violations:
            k = [x for x in known if x['match'] and x['match'] in clauses]
            if k:
                print('KNOWN-FINDING: property={} {}'.format(self.pid, k[0]['what']))
            else:
                real.append((path, clauses))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events, samples=self.samples,
                                runs=self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(real))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for (path, clauses) in real[:10]:
            print('rejected: {}'.format(clauses))
            print('VIOLATION property={} replay={}'.format(self.pid, path))
        if real:
            return 1
        self.log('held: {} states, {} traces'.format(self.states, self.traces))
        return 0


def load_known(pid):
    '''known_findings.txt lines:  finding: property=<id> match=<clause text> | <what fails>
    (lines starting with "fixed:" suppress nothing).'''
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'^finding: property=(\S+) match=(.*?) \| (.*)$', line.strip())
            if m and m.group(1) == pid:
                res.append(dict(match=m.group(2), what=m.group(3)))
    return res
