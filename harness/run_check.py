"""Decides one property: records traces of the real library and has TLC check
each one against spec/Trace.tla; see DESIGN.md.

usage: run_check.py ID      (environment: VERIF_SEED, VERIF_TIER)
"""
import copy
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import profiles

VERIF = B.VERIF
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
WORKERS = 8
BIGTIME = 150 if TIER == 'quick' else 1200
NO = (10, 12, 75)      # TLC's exit codes for a trace that the specification rejects


def run(cmd, timeout, **kw):
    """Runs cmd in its own process group; (rc or None on timeout, output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors='replace')


def tlc(module, cfg, metadir, timeout=600, workers=1, heap='3g', env=None, extra=()):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', metadir,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    return run(cmd, timeout, cwd=SPEC, env=e)


def counts(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    return tuple(int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)


def rejected(out, lines):
    """(line number, event, what the specification had) of a rejection."""
    ms = [(int(m.group(1)), m.start()) for m in re.finditer(r'<<\s*"REJECT",\s*(\d+)', out)]
    if ms:
        n, pos = max(ms)
        return n, lines[n - 1], re.sub(r'\s+', ' ', out[pos:pos + 2500])
    ds = re.findall(r'^/\\ l = (\d+)', out, re.M)
    n = int(ds[-1]) if ds else 0
    i = max([out.find(k) for k in ('Error: Invariant', 'Error: TLC', 'Error: Eval', 'Error: The first', 'Error: In', 'Error: Att')])
    return n, lines[n - 1] if 0 < n <= len(lines) else '', re.sub(r'\s+', ' ', out[i:i + 1500])


class Check(object):

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'work', pid)
        subprocess.call(['rm', '-rf', self.work])
        os.makedirs(self.work)
        self.violations = []
        self.states = self.distinct = self.events = self.traces = 0
        self.kinds = {}
        self.samples = []
        self.notes = []
        self.extra = {}
        self.times = []

    # -- one trace
    def record(self, d, prof, seed, timeout=240):
        p = dict(prof, scratch=d)
        with open(os.path.join(d, 'profile.json'), 'w') as f:
            json.dump(p, f)
        for f in os.listdir(d):
            if f != 'profile.json':
                subprocess.call(['rm', '-rf', os.path.join(d, f)])
        env = B.env(self.lib, PYTHONHASHSEED=str(seed % 1000))
        if prof.get('omp'):
            env['OMP_NUM_THREADS'] = str(prof['omp'])
        if prof.get('driver') == 'big':
            return run([B.PY, os.path.join(HERE, 'bigdriver.py'), d, str(seed),
                        os.path.join(d, 'profile.json')], timeout, env=env)
        return run([B.PY, os.path.join(HERE, 'driver.py'), os.path.join(d, 't.ndjson'), str(seed),
                    os.path.join(d, 'profile.json')], timeout, env=env)

    def judge(self, d, name='t.ndjson', big=0):
        if big:
            return tlc('Diagram.tla', 'Diagram.cfg', os.path.join(d, 'md'), timeout=BIGTIME if big is True else big,
                       env={'TRACE': os.path.join(d, name), 'DIAGS': os.path.join(d, 'd.ndjson')})
        return tlc('Trace.tla', 'Trace.cfg', os.path.join(d, 'md'),
                   env={'TRACE': os.path.join(d, name)})

    def trace(self, job):
        t = time.time()
        try:
            return self.trace1(job)
        finally:
            self.times.append((round(time.time() - t, 1), job[0], job[2]))

    def trace1(self, job):
        k, prof, seed = job
        d = os.path.join(self.work, '%d-%d' % (k, seed))
        os.makedirs(d)
        rc, out = self.record(d, prof, seed)
        if rc != 0:
            # the library crashed, hung or answered what cannot be recorded
            rc2, out2 = self.record(d, prof, seed, 400)
            if rc2 != 0:
                what = 'the library does not return' if rc2 is None else 'the library ended the process (%s)' % rc2
                return self.violate(d, what, out2[-1500:])
            rc = rc2
        lines = open(os.path.join(d, 't.ndjson')).read().splitlines()
        big = prof.get('driver') == 'big'
        if big and prof.get('seconds') and TIER == 'quick':
            big = prof['seconds']
        rc, out = self.judge(d, big=big)
        if rc is None and big:            # too large to explore: nothing is claimed
            self.extra['traces_not_decided'] = self.extra.get('traces_not_decided', 0) + 1
            return
        if rc not in (0,) + NO:
            time.sleep(1)
            rc, out = self.judge(d, big=big)
        if rc != 0:
            rc2, out2 = self.judge(d, big=big)
            if rc2 == 0:
                rc, out = rc2, out2
        if rc == 0:
            g, n = counts(out)
            self.states += g
            self.distinct += n
            self.events += len(lines)
            self.traces += 1
            if big:
                self.extra['exact_family_results'] = self.extra.get('exact_family_results', 0) + \
                    sum('"k": "fam"' in x or '"k": "rel"' in x for x in lines)
            ks = json.load(open(os.path.join(d, 't.ndjson.kinds')))
            for key, v in ks.items():
                self.kinds[key] = self.kinds.get(key, 0) + v
            return
        if rc not in NO:
            with open(os.path.join(d, 'tlc.log'), 'w') as f:
                f.write(out)
            raise RuntimeError('TLC failed (%s): %s' % (rc, out[-800:]))
        n, ev, exp = rejected(out, lines)
        with open(os.path.join(d, 'tlc.log'), 'w') as f:
            f.write(out)
        self.violate(d, 'line %d of the trace is not a step of the specification' % n,
                     ev[:1500] + '\n' + exp)

    def violate(self, d, what, detail):
        with open(os.path.join(d, 'REPLAY.txt'), 'w') as f:
            f.write('property %s: %s\n%s\n\n' % (self.pid, what, detail))
            f.write('replay: VERIF_SEED=%d VERIF_TIER=%s python3 harness/run_check.py %s\n' % (SEED, TIER, self.pid))
        self.violations.append((os.path.join(d, 'REPLAY.txt'), what, detail))

    # -- non-vacuity: a wrong reply must be rejected
    def corrupt_big(self, d):
        lines = [json.loads(x) for x in open(os.path.join(d, 't.ndjson'))]
        diags = [json.loads(x) for x in open(os.path.join(d, 'd.ndjson'))]
        rng = random.Random(SEED)
        idx = [i for i, e in enumerate(lines) if e['t'] == 'call' and e['k'] == 'fam']
        rng.shuffle(idx)
        for i in idx:
            e = lines[i]
            other = [k + 1 for k, x in enumerate(diags) if x['n'] == e['n'] and k + 1 != e['d']]
            if other:
                e['d'] = rng.choice(other)
                e['m'] = e['d'] if e['m'] else 0
                break
        else:
            return
        with open(os.path.join(d, 'bad.ndjson'), 'w') as f:
            for e in lines[:i + 1]:
                f.write(json.dumps(e) + '\n')
        rc, out = self.judge(d, 'bad.ndjson', big=True)
        if rc is None:
            return
        if rc not in NO:
            raise RuntimeError('a corrupted trace was accepted: event %d of %s' % (i + 1, d))
        self.extra['corrupted_traces_rejected'] = self.extra.get('corrupted_traces_rejected', 0) + 1

    def corrupt(self, d):
        lines = [json.loads(x) for x in open(os.path.join(d, 't.ndjson'))]
        rng = random.Random(SEED)
        idx = list(range(len(lines)))
        rng.shuffle(idx)
        for i in idx:
            e = lines[i]
            if e['t'] == 'call' and e.get('k') == 'fam' and e['v'] and e['op'] != 'new':
                e['v'] = e['v'][1:]
            elif e['t'] == 'call' and e.get('k') == 'bool' and e['op'] != 'samedump':
                e['v'] = not e['v']
            elif e['t'] == 'call' and e.get('k') == 'num':
                e['v'] += 1
            elif e['t'] == 'audit' and e['fams'] and e['fams'][0][1]:
                e['fams'][0][1] = e['fams'][0][1][1:]
            else:
                continue
            break
        else:
            return
        with open(os.path.join(d, 'bad.ndjson'), 'w') as f:
            for e in lines:
                f.write(json.dumps(e) + '\n')
        rc, out = self.judge(d, 'bad.ndjson')
        if rc not in NO:
            raise RuntimeError('a corrupted trace was accepted: event %d of %s' % (i + 1, d))
        self.extra['corrupted_traces_rejected'] = self.extra.get('corrupted_traces_rejected', 0) + 1

    def main(self):
        self.lib = B.build()
        scale = 1 if TIER == 'quick' else 12
        jobs = []
        for k, prof in enumerate(profiles.P.get(self.pid, [])):
            prof = dict(prof)
            n = prof.pop('n') * scale
            jobs += [(k, prof, SEED * 1000 + i) for i in range(n)]
        stop = self.t0 + (500 if TIER == 'quick' else 6 * 3600)
        workers = profiles.P[self.pid][0].get('workers', WORKERS) if self.pid in profiles.P else WORKERS

        def one(j):
            if time.time() > stop or len(self.violations) >= 3:
                return
            self.trace(j)
            d = os.path.join(self.work, '%d-%d' % (j[0], j[2]))
            if not any(d in v[0] for v in self.violations):
                if j[2] == SEED * 1000 and not self.violations:
                    self.sample(d)
                    (self.corrupt_big if j[1].get('driver') == 'big' else self.corrupt)(d)
                if TIER != 'quick':
                    subprocess.call(['rm', '-rf', d])
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, jobs))
        return self.finish()

    def sample(self, d):
        lines = open(os.path.join(d, 't.ndjson')).read().splitlines()
        rng = random.Random(7)
        for x in rng.sample(lines, min(3, len(lines))):
            self.samples.append(json.loads(x) if len(x) < 1500 else x[:1500])

    def finish(self):
        cov = {'states': self.distinct, 'transitions': self.states,
               'traces_validated_against_impl': self.traces, 'events_checked': self.events,
               'slowest_traces': sorted(self.times)[-3:],
               'events_by_kind': dict(sorted(self.kinds.items())), 'samples': self.samples}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': ['the driver and world.py translate objects and replies faithfully',
                              'the definitions in spec/*.tla are the intended meaning'],
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for path, what, detail in self.violations[:3]:
            print('%s\n%s' % (what, detail[:1500]))
        for path, what, detail in self.violations[:1]:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('%s: %d traces, %d events, %d states, %.0f s' %
              (self.pid, self.traces, self.events, self.distinct, time.time() - self.t0))
        return 1 if self.violations else 0


if __name__ == '__main__':
    sys.exit(Check(sys.argv[1]).main())
