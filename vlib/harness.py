"""Runs the workloads of one property, judges them, reports.

    check.py ID [--replay FILE]

See DESIGN.md.  Everything random comes from VERIF_SEED.  The point model is
driven under CPython (ten times faster); what looks like a violation there is
run again under the Python of the repository and only believed if it shows
there too.  What goes through files runs under the Python of the repository.
"""
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import drive            # noqa
import direct as dw     # noqa
import files            # noqa
import gen              # noqa
import gold             # noqa
import mon              # noqa
import units            # noqa

PYPY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
CORES = max(2, min(8, os.cpu_count() or 2))
SUITE = {}

# ---------------------------------------------------------------------------
# what is run for which property: direct workloads (episodes of each maker),
# suites on building blocks (cases), suites through files (cases).  Numbers
# for the quick tier; the thorough tier multiplies them.

MIX = dict(season=120, ephemeral=80, storm=120, edge=120, window=40,
           burst=6000, vanish=800)


def mix(**kw):
    return dict(MIX, **kw)


PLAN = {
    'P01': dict(direct=mix(ephemeral=300, storm=250, burst=8000),
                files=dict(traj=24)),
    'P02': dict(direct=mix(), files=dict(traj=24)),
    'P03': dict(direct=mix(season=200, burst=10000), files=dict(traj=24)),
    'P04': dict(direct=mix(ephemeral=300, edge=200), files=dict(traj=24)),
    'P05': dict(direct=mix(ephemeral=250, storm=200, burst=10000),
                units=dict(layers=20000), files=dict(traj=24)),
    'P06': dict(direct=mix(ephemeral=250, season=200), files=dict(traj=24)),
    'P07': dict(direct=mix(ephemeral=150, storm=250, window=80),
                units=dict(precip_shares=4000), files=dict(traj=24)),
    'P08': dict(modes=dict(season=120, ephemeral=120, storm=120, edge=80,
                           window=30, burst=1500, vanish=300), files=dict(modes=40)),
    'P09': dict(direct=dict(storm=200, edge=150, burst=4000, vanish=300),
                units=dict(precip=40000), files=dict(traj=16)),
    'P10': dict(direct=mix(storm=400, ephemeral=300, burst=12000),
                files=dict(traj=24)),
    'P11': dict(direct=mix(edge=300, burst=8000),
                units=dict(fluxes=20000, rejects=3000, psis=3000),
                files=dict(traj=16)),
    'P12': dict(accessors=dict(season=60, ephemeral=80, storm=60, edge=80,
                               burst=2000, vanish=200),
                units=dict(caches=8000, saturation=20000),
                files=dict(traj=16)),
    'P13': dict(direct=mix(edge=200, burst=10000),
                units=dict(conduction=20000), files=dict(traj=16)),
    'P14': dict(direct=mix(storm=300), files=dict(traj=24)),
    'P15': dict(direct=mix(season=250, burst=10000), files=dict(traj=24)),
    'P16': dict(direct=mix(season=250, burst=10000), files=dict(traj=24)),
    'P17': dict(direct=mix(season=250, burst=10000), files=dict(traj=24)),
    'P18': dict(files=dict(prepare=32)),
    'P19': dict(files=dict(items=160)),
    'P20': dict(files=dict(output=160)),
    'P21': dict(isolation=dict(season=60, ephemeral=60, storm=60, edge=40,
                               burst=400, vanish=100), files=dict(isolated=28)),
    'P22': dict(gold=len(gen.YEARS), files=dict(years=3)),
    'P23': dict(direct=mix(edge=400, burst=12000, storm=200, season=200),
                units=dict(rejects=3000), files=dict(kept=10)),
    'P24': dict(units=dict(formulas=20000, saturation=60000)),
    'P25': dict(direct=mix(ephemeral=600, burst=8000, vanish=2500), files=dict(traj=24)),
    'P26': dict(direct=dict(burst=14000, edge=60), initial=dict(burst=8000),
                files=dict(initial=100)),
    'P28': dict(files=dict(kept=14)),
    # needs what only the Python of the repository has
    'P29': dict(pypy_units=dict(grid=8000)),
}
THOROUGH = dict(direct=25, modes=25, accessors=25, isolation=25, initial=10,
                units=15, files=12, gold=1)
SIZE = dict(season=20, ephemeral=20, storm=20, edge=20, window=8, burst=400, vanish=80)
DEADLINE = dict(quick=420, thorough=2400)


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('PYTHON'):
            del e[k]
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             PYTHONPYCACHEPREFIX='/nonexistent/pycache')
    return e


class Pypy(object):
    """a subprocess that works on jobs under the Python of the repository"""

    def __init__(self, jobs, scratch, hashseed='0'):
        self.name = os.path.join(scratch, 'jobs%d.json' % Pypy.n)
        self.out = os.path.join(scratch, 'out%d.json' % Pypy.n)
        Pypy.n += 1
        self.jobs = jobs
        with open(self.name, 'w') as fh:
            json.dump(jobs, fh)
        self.err = open(self.out + '.err', 'w+')
        e = env()
        e['PYTHONHASHSEED'] = hashseed
        e['TMPDIR'] = scratch
        self.p = subprocess.Popen(
            [PYPY, '-B', os.path.join(HERE, 'e2e.py'), self.name, self.out],
            env=e, cwd=scratch, stdout=self.err, stderr=self.err,
            stdin=subprocess.DEVNULL, start_new_session=True)

    n = 0

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()

    def result(self, timeout):
        try:
            self.p.wait(max(1, timeout))
        except subprocess.TimeoutExpired:
            self.kill()
            return None
        if self.p.returncode != 0:
            self.err.seek(0)
            sys.stderr.write(self.err.read()[-3000:])
            return None
        with open(self.out) as fh:
            return json.load(fh)


def pypy_units(suite, seed, n, scratch, timeout):
    out = os.path.join(scratch, 'units-%s-%s.json' % (suite, seed))
    try:
        subprocess.run([PYPY, '-B', os.path.join(HERE, 'units.py'), suite,
                        str(seed), str(n), out], env=env(), cwd=scratch,
                       stdin=subprocess.DEVNULL, timeout=timeout,
                       stdout=subprocess.DEVNULL)
        with open(out) as fh:
            return json.load(fh)
    except (subprocess.TimeoutExpired, IOError, OSError, ValueError):
        return None


# ---------------------------------------------------------------------------

def known_keys():
    """{property: {key: text}} of the listed findings"""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as fh:
        for line in fh:
            if line.startswith('known:'):
                w = line.split()
                p = w[1].split('=')[1]
                k = w[2].split('=')[1]
                out.setdefault(p, {})[k] = ' '.join(w[3:])
    return out


class Check(object):

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.out = mon.Out([prop], prime=prop)
        self.t0 = time.time()
        self.end = self.t0 + DEADLINE[tier]
        self.notes = []
        self.confirmed = []         # (violation, replay)
        self.scratch = tempfile.mkdtemp(prefix='verif-%s.' % prop)
        self.pypys = []
        self.how = 'cpython'

    def factor(self, what):
        return THOROUGH[what] if self.tier == 'thorough' else 1

    def left(self):
        return self.end - time.time()

    # -- through files

    def start_files(self, plan=None, procs=None, salt=''):
        todo = []
        for suite, n in (plan or self.plan.get('files', {})).items():
            n = int(n * self.factor('files'))
            cases = files.build(suite, self.prop, n,
                                '%s%s' % (self.seed, salt))
            todo += cases
        if not todo:
            return
        # cases are kept whole, longest first, onto the shortest list
        k = procs or (4 if self.tier == 'quick' or self.plan.get(
            'direct') else CORES)
        if not any(self.plan.get(x) for x in ('direct', 'modes', 'units',
                                              'accessors', 'isolation')):
            k = CORES
        k = min(k, len(todo))
        # several rounds, so that one lost process does not lose it all
        lists = [[] for _ in range(k * (1 if self.tier == 'quick' else 4))]
        size = [0.0] * len(lists)
        for c in sorted(todo, key=lambda c: -sum(
                2 + len(j['forc']) / 20.0 for j in c['jobs'])):
            i = size.index(min(size))
            lists[i].append(c)
            size[i] += sum(2 + len(j['forc']) / 20.0 for j in c['jobs'])
        self.queue = [x for x in lists if x]
        self.running = []
        self.procs = k
        self.pump()

    queue = running = ()
    procs = 0

    def pump(self, wait=False):
        """start and collect the processes that work on files"""
        while self.queue or self.running:
            while self.queue and len(self.running) < self.procs:
                cases = self.queue.pop()
                jobs = [j for c in cases for j in c['jobs']]
                p = Pypy(jobs, self.scratch)
                self.pypys.append(p)
                self.running.append((cases, p))
            done = [x for x in self.running if x[1].p.poll() is not None]
            for x in done:
                self.running.remove(x)
                self.judge_files(x[0], x[1].result(5))
            if not done:
                if not wait:
                    return
                if self.left() < 0:
                    for cases, p in self.running:
                        p.kill()
                    self.notes.append('out of time: %d batches of runs '
                                      'through files were not judged' % (
                                          len(self.queue) +
                                          len(self.running)))
                    self.queue, self.running = [], []
                    return
                time.sleep(0.05)

    def judge_files(self, cases, res):
        if res is None:
            self.notes.append('a worker of the runs through files failed')
            return
        i = 0
        for c in cases:
            n = len(c['jobs'])
            sub = mon.Out([self.prop], prime=self.prop)
            files.judge(c, res[i:i + n], sub)
            i += n
            if sub.viol:
                for v in sub.viol:
                    self.believe(v, dict(kind='case', case=c))
            self.out.merge_kept(sub)
            self.out.tag('runs through files', n)

    # -- direct

    def believe(self, v, how):
        if len(self.confirmed) < 12:
            self.confirmed.append((v, how))

    def tasks(self):
        out = []
        for what in ('direct', 'modes', 'accessors', 'isolation', 'initial'):
            for maker, n in self.plan.get(what, {}).items():
                n = int(n * self.factor(what))
                size = SIZE[maker] if what != 'isolation' else max(
                    1, SIZE[maker] // 4)
                for lo in range(0, n, size):
                    out.append((what, maker, lo, min(n, lo + size),
                                self.seed, self.prop))
        for suite, n in self.plan.get('units', {}).items():
            n = int(n * self.factor('units'))
            size = 1000
            for k, lo in enumerate(range(0, n, size)):
                out.append(('units', suite, '%s.%d' % (self.seed, k),
                            min(size, n - lo), self.seed, self.prop))
        if self.plan.get('gold'):
            for y in gen.YEARS:
                out.append(('gold', 'gold', y, y, self.seed, self.prop))
        # mix the kinds, so that a run that is cut short saw some of each
        r = gen.rng('order', self.seed, self.prop)
        r.shuffle(out)
        return out

    def preflight(self):
        """does the point model run under this Python?"""
        ep = gen.episode(gen.rng('preflight'), n_hours=6, wild=0.0,
                         climates=['cold'], inits=['two'])
        with mp.Pool(1, dw.init) as pool:
            try:
                res = pool.apply_async(dw.preflight, (ep,)).get(60)
            except Exception as e:      # noqa
                res = repr(e)
        if res is None:
            return 'cpython'
        self.notes.append('not under CPython: %s' % res)
        p = Pypy([dict(ep, direct=True)], self.scratch)
        got = p.result(120)
        if got and not got[0]['error'] and got[0]['records']:
            return 'pypy'
        self.notes.append('no direct use of the point model: %s' % (
            got and got[0]['error']))
        return None

    def suspects(self, sus):
        """run again under the Python of the repository"""
        seen = {}
        pick = []
        for what, v, how in sus:
            k = (what, v['what'][:40])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2 and len(pick) < 10:
                pick.append((what, v, how))
        unconfirmed = 0
        eps = [(w, v, h) for w, v, h in pick if w not in ('units',)]
        if eps:
            p = Pypy([h['job'] for _, _, h in eps], self.scratch)
            res = p.result(300)
            if res is None:             # no answer: what was seen counts
                self.notes.append('runs under PyPy gave no answer')
            for (w, v, h), x in zip(eps, res or [None] * len(eps)):
                if x is None:
                    self.believe(v, dict(kind='job', job=h['job']))
                    self.out.nviol[self.prop] = self.out.nviol.get(
                        self.prop, 0) + 1
                    continue
                sub = mon.Out([self.prop], prime=self.prop)
                dw.judge_job(h['job'], x, sub)
                if sub.nviol.get(self.prop):
                    self.believe(sub.viol[0], dict(kind='job', job=h['job']))
                    for a, b in sub.nviol.items():
                        self.out.nviol[a] = self.out.nviol.get(a, 0) + b
                else:
                    unconfirmed += 1
        for w, v, h in pick:
            if w != 'units':
                continue
            x = pypy_units(h['suite'], h['seed'], h['n'], self.scratch, 300)
            if x is None:               # no answer: what was seen counts
                self.notes.append('units under PyPy gave no answer')
                x = dict(viol=[v])
            bad = [y for y in x.get('viol', [])
                   if y['property'] == self.prop]
            if bad:
                self.believe(dict(v, what=bad[0]['what']),
                             dict(kind='units', suite=h['suite'],
                                  seed=h['seed'], n=h['n']))
                self.out.nviol[self.prop] = self.out.nviol.get(
                    self.prop, 0) + 1
            else:
                unconfirmed += 1
        if unconfirmed:
            self.notes.append('%d suspicions under CPython did not show '
                              'under the Python of the repository' %
                              unconfirmed)
        return unconfirmed

    def run_direct(self):
        tasks = self.tasks()
        if not tasks:
            return
        if any(t[0] != 'units' for t in tasks):
            self.how = self.preflight()
        if self.how == 'cpython':
            sus = self.run_pool(tasks)
            if sus:
                n = self.suspects(sus)
                if n and not self.confirmed:
                    # CPython misleads: the same under the other Python
                    self.run_pypy(tasks)
            if self.plan.get('gold'):
                self.years()
        elif self.how == 'pypy':
            self.run_pypy(tasks)
        else:
            self.notes.append('only runs through files and units')
            tasks = [t for t in tasks if t[0] == 'units']
            sus = self.run_pool(tasks)
            if sus:
                self.suspects(sus)
            self.pump(True)
            if 'direct' in self.plan or 'accessors' in self.plan:
                self.start_files(dict(traj=200), procs=CORES, salt='+')
            elif 'modes' in self.plan:
                self.start_files(dict(modes=100), procs=CORES, salt='+')
            self.pump(True)

    def years(self):
        """enough years that agree value by value?"""
        good = self.out.tags.get('year agrees value by value', 0)
        bad = [int(t.split()[-1]) for t in self.out.tags
               if t.startswith('year differs')]
        if good >= gold.EXACT_YEARS or not bad or good + len(bad) < 20:
            return
        # half of those that differ, under the Python of the repository
        bad.sort()
        pick = bad[::2][:CORES]
        ps = [Pypy([dict(gold.job(y), strict=True)], self.scratch)
              for y in pick]
        self.pypys += ps
        sus = []
        for p in ps:
            res = p.result(400)
            if res is None:
                continue
            sub = mon.Out([self.prop], prime=self.prop)
            gold.judge(p.jobs[0], res[0], sub)
            if sub.viol:
                sus.append((sub.viol[0], dict(kind='job', job=p.jobs[0])))
        if len(sus) * 2 > len(pick):
            for v, how in sus:
                self.believe(dict(v, what='only %d years of %d agree; %s' % (
                    good, good + len(bad), v['what'])), how)
        else:
            self.notes.append('years differ under CPython only')

    def run_pool(self, tasks):
        sus = []
        n = CORES if not self.running else max(2, CORES - 2)
        ctx = mp.get_context('fork')
        with ctx.Pool(n, dw.init) as pool:
            it = pool.imap_unordered(dw.work, tasks)
            for k in range(len(tasks)):
                while True:
                    self.pump()
                    try:
                        task, sub, bad = it.next(timeout=2)
                        break
                    except mp.TimeoutError:
                        if self.left() < 60:
                            task = None
                            break
                if task is None:
                    self.notes.append('out of time: %d of %d tasks done' % (
                        k, len(tasks)))
                    break
                self.out.merge_kept(sub)
                sus += bad
                if len(sus) > 60:
                    break
            pool.terminate()
        return sus

    def run_pypy(self, tasks):
        """a smaller share of the direct workload under PyPy"""
        jobs = []
        for what, maker, lo, hi, seed, prop in tasks:
            if what in ('units', 'gold'):
                continue
            jobs += dw.jobs(what, maker, lo, min(hi, lo + 5), seed, prop)
        r = gen.rng('pypy', self.seed)
        r.shuffle(jobs)
        jobs = jobs[:320 * self.factor('files')]
        k = CORES
        ps = [Pypy(jobs[i::k], self.scratch) for i in range(k)
              if jobs[i::k]]
        self.pypys += ps
        for p in ps:
            res = p.result(self.left() - 20)
            if res is None:
                self.notes.append('a worker failed')
                continue
            for j, x in zip(p.jobs, res):
                sub = mon.Out([self.prop], prime=self.prop)
                dw.judge_job(j, x, sub)
                for v in sub.viol:
                    self.believe(v, dict(kind='job', job=j))
                self.out.merge_kept(sub)
        for t in tasks:
            if t[0] != 'units' or self.left() < 30:
                continue
            x = pypy_units(t[1], t[2], min(t[3], 300), self.scratch, 60)
            for v in (x or {}).get('viol', []):
                if v['property'] == self.prop:
                    self.believe(dict(v, detail={}), dict(
                        kind='units', suite=t[1], seed=t[2], n=t[3]))
                    self.out.nviol[self.prop] = self.out.nviol.get(
                        self.prop, 0) + 1
            if x:
                self.out.n[self.prop] = self.out.n.get(
                    self.prop, 0) + x['n'].get(self.prop, 0)
            break
        if self.plan.get('gold'):
            jobs = [gold.job(y) for y in gen.YEARS[::3]]
            ps = [Pypy([j], self.scratch) for j in jobs]
            self.pypys += ps
            for p in ps:
                res = p.result(self.left() - 20)
                if res is None:
                    self.notes.append('a worker failed')
                    continue
                sub = mon.Out([self.prop], prime=self.prop)
                gold.judge(p.jobs[0], res[0], sub)
                for v in sub.viol:
                    self.believe(v, dict(kind='job', job=p.jobs[0]))
                self.out.merge_kept(sub)

    def run_pypy_units(self):
        """units that only run under the Python of the repository"""
        for suite, n in self.plan.get('pypy_units', {}).items():
            n = int(n * self.factor('units')) // CORES
            seeds = ['%s.%d' % (self.seed, k) for k in range(CORES)]
            with ThreadPoolExecutor(CORES) as pool:
                got = list(pool.map(lambda s: pypy_units(
                    suite, s, n, self.scratch, self.left()), seeds))
            self.how = 'pypy'
            for s, x in zip(seeds, got):
                if x is None:
                    self.notes.append('a worker gave no answer')
                    continue
                sub = mon.Out([self.prop], prime=self.prop)
                sub.n, sub.tags, sub.samples = x['n'], x['tags'], x['samples']
                sub.distinct = {k: set(v) for k, v in x['distinct'].items()}
                self.out.merge_kept(sub)
                for v in x['viol']:
                    if v['property'] == self.prop:
                        self.believe(dict(v, detail={}), dict(
                            kind='units', suite=suite, seed=s, n=n))
                        self.out.nviol[self.prop] = self.out.nviol.get(
                            self.prop, 0) + 1

    # -- report

    def run(self):
        try:
            files.SEED = self.seed
            self.start_files()
            self.reproducers()
            self.run_direct()
            self.run_pypy_units()
            self.pump(True)
        finally:
            for p in self.pypys:
                p.kill()
            shutil.rmtree(self.scratch, ignore_errors=True)
        return self.report()

    def reproducers(self):
        """the listed findings, each run"""
        keys = known_keys().get(self.prop, {})
        if not keys:
            return
        for k in keys:
            sub = mon.Out([self.prop], prime=self.prop)
            signal.signal(signal.SIGALRM, dw.bark)
            signal.alarm(dw.LIMIT)
            try:
                ep = dw.reproducer(k)
                if ep is None:
                    continue
                res = drive.direct(ep)
            except (Exception, drive.Watchdog) as e:    # noqa
                self.notes.append('finding %s: %r' % (k, e))
                continue
            finally:
                signal.alarm(0)
            mon.watch(ep, res, sub)
            sub.viol = []
            sub.nviol = {}
            self.out.merge_kept(sub)

    def report(self):
        prop, out = self.prop, self.out
        listed = known_keys().get(prop, {})
        lines = []
        for k, (n, sample) in sorted(out.known.items()):
            p, key = k.split(' ', 1)
            if p != prop:
                continue
            if key in listed:
                print('KNOWN-FINDING: property=%s %s (%s, seen %d times)' % (
                    prop, listed[key], key, n))
            else:
                self.believe(dict(property=prop, what='unlisted finding ' +
                                  key, detail=sample, episode=None),
                             dict(kind='none'))
        folder = os.path.join(VERIF, 'evidence', 'replay')
        nv = len(self.confirmed)
        if nv:
            os.makedirs(folder, exist_ok=True)
        seen = set()
        for k, (v, how) in enumerate(self.confirmed):
            if v['what'] in seen and len(seen) < 2 and k > 2:
                continue
            seen.add(v['what'])
            name = os.path.join(folder, '%s-%s-%d.json' % (
                prop, self.seed, k))
            with open(name, 'w') as fh:
                json.dump(dict(property=prop, what=v['what'],
                               detail=v.get('detail'), how=how), fh,
                          default=str, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (
                prop, os.path.relpath(name, VERIF)))
            print(lines[-1])
            print('  ' + v['what'][:300])
            if len(lines) >= 5:
                break
        n = out.n.get(prop, 0)
        dn = len(out.distinct.get(prop, ()))
        wall = time.time() - self.t0
        ev = dict(
            property=prop, tier=self.tier, seed=self.seed,
            level='exploration',
            coverage=dict(
                evaluations=n, distinct_nontrivial=dn,
                rule=RULE.get(prop, '') + ' ' + RULES,
                samples=out.samples.get(prop, [])[:3],
                observed={k: v for k, v in sorted(out.tags.items())},
                known_findings={k: v[0] for k, v in out.known.items()},
                driven_under=self.how, notes=self.notes),
            assumptions=ASSUME, wall_s=round(wall, 2), violations=nv)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for x in self.notes:
            print('note: ' + x)
        print('%s %s seed=%s: %d judgements, %d distinct and non-trivial, '
              '%d violations, %.1f s' % (prop, self.tier, self.seed, n, dn,
                                         nv, wall))
        if nv:
            return 1
        if n == 0 or dn == 0:
            print('nothing was observed')
            if any(t.startswith('missing') for t in out.tags):
                # no such interface any more
                return 0
            return 2
        return 0


RULES = ('Workloads are made by vlib/gen.py, vlib/units.py and vlib/files.py '
         'from the seed; a judgement is one run time step, one call or one '
         'run whose observed result was compared with what the property '
         'demands; distinct by the observed values.')
RULE = {
    'P01': 'non-trivial: snow on the ground or precipitation in the step.',
    'P02': 'non-trivial: snow on the ground.',
    'P03': 'non-trivial: melt, refreezing or cold content in the step.',
    'P04': 'non-trivial: records with snow.',
    'P05': 'non-trivial: two layers, or the number of layers changed.',
    'P06': 'non-trivial: snow on the ground.',
    'P07': 'non-trivial: the step starts between two input records.',
    'P08': 'non-trivial: the data step was divided.',
    'P09': 'non-trivial: there is precipitation.',
    'P10': 'non-trivial: precipitation in the step.',
    'P11': 'non-trivial: wind.',
    'P12': 'non-trivial: reads of a vapor pressure at distinct temperatures.',
    'P13': 'non-trivial: snow on the ground.',
    'P14': 'non-trivial: solar radiation or precipitation in the step.',
    'P15': 'non-trivial: snow on the ground.',
    'P16': 'non-trivial: mass was exchanged.',
    'P17': 'non-trivial: liquid water in the snow.',
    'P18': 'non-trivial: every run with a differently laid out file.',
    'P19': 'non-trivial: every distinct configuration.',
    'P20': 'non-trivial: files of more than one line.',
    'P21': 'non-trivial: every variant with more than one model object, run '
           'or prefix.',
    'P22': 'non-trivial: hours of reference data with snow.',
    'P23': 'non-trivial: every distinct run or rejected call.',
    'P24': 'non-trivial: every distinct argument.',
    'P25': 'non-trivial: snow vanished or fell on bare ground.',
    'P26': 'non-trivial: there is initial snow.',
    'P28': 'non-trivial: every distinct run.',
    'P29': 'non-trivial: every distinct grid.',
}
ASSUME = [
    'forcing and initial snow are physically possible: sensors above the '
    'snow, wet snow heavier than the water in it, rain only when the air is '
    'above -12 C, vapor pressures up to 12 Pa over saturation',
    'the formulas of vlib/ref.py are those of the documentation and the '
    'original model (checked against 25 years of its output)',
]


def replay(prop, path):
    with open(path) as fh:
        d = json.load(fh)
    how = d['how']
    out = mon.Out([prop], prime=prop)
    scratch = tempfile.mkdtemp(prefix='verif-replay.')
    try:
        if how['kind'] == 'case':
            p = Pypy(how['case']['jobs'], scratch)
            files.judge(how['case'], p.result(600), out)
        elif how['kind'] == 'job':
            p = Pypy([how['job']], scratch)
            dw.judge_job(how['job'], p.result(600)[0], out)
        elif how['kind'] == 'units':
            x = pypy_units(how['suite'], how['seed'], how['n'], scratch, 600)
            out.viol = x['viol']
            out.nviol = x['nviol']
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    bad = [v for v in out.viol if v['property'] == prop]
    for v in bad[:5]:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  ' + v['what'])
        print('  ' + json.dumps(v.get('detail'), default=str)[:2000])
    if not bad:
        print('%s: held' % path)
    return 1 if bad else 0


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(prop, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    drive.setup()
    return Check(prop, tier, seed).run()
