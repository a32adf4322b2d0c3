"""Workers for the direct use of the point model."""
import copy
import signal
import warnings

import drive
import files
import gen
import gold
import mon
import ref
import units

LIMIT = 60          # seconds for one episode


def init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter('ignore')


def bark(*a):
    raise drive.Watchdog('did not finish within %d s' % LIMIT)


def preflight(ep):
    """None if the model can be driven"""
    try:
        res = drive.direct(ep)
    except BaseException as e:      # noqa
        return repr(e)
    if res['error']:
        return '%(type)s: %(msg)s' % res['error']
    if not res['records']:
        return 'no records'
    r = res['records'][0]
    for n in mon.STATE_FIELDS + ('t', 'melt_sum', 'E_s_sum', 'swi_sum',
                                 'cc_s') + tuple(
            x + '_bar' for x in ref.ENERGY):
        if n not in r:
            return 'no %s in the output records' % n
    return None


def episodes(what, maker, lo, hi, seed, prop):
    for k in range(lo, hi):
        yield k, gen.MAKERS[maker](gen.rng(seed, prop, what, maker, k))


def jobs(what, maker, lo, hi, seed, prop):
    """jobs of a task, as they can run under either Python"""
    out = []
    for k, ep in episodes(what, maker, lo, hi, seed, prop):
        if what == 'modes':
            j = dict(ep, direct='modes')
        elif what == 'accessors':
            j = dict(ep, direct='accessors')
        elif what == 'isolation':
            r = gen.rng(seed, prop, 'other', maker, k)
            other = gen.MAKERS[r.choice(['storm', 'edge', 'ephemeral',
                                         'burst'])](r)
            n = max(len(ep['forc']), len(other['forc']))
            order = [0] * len(ep['forc']) + [1] * len(other['forc']) + [2] * \
                len(ep['forc'])
            how = r.randrange(3)
            if how == 0:
                order = [i for _ in range(n) for i in (0, 1, 2)]
            elif how == 1:
                r.shuffle(order)
            cut = r.randrange(1, len(ep['forc']))
            j = dict(ep, direct='isolation', other=other, order=order,
                     cut=cut)
        else:
            j = dict(ep, direct=True)
        out.append(j)
    return out


def run_job(j):
    """under either Python"""
    how = j['direct']
    ep = {k: v for k, v in j.items() if k not in (
        'direct', 'other', 'order', 'cut')}
    if how == 'modes':
        a = drive.direct(files.mode(ep, 'all'))
        b = drive.direct(files.mode(ep, 'normal'))
        return dict(parts=[a, b], error=None, records=[])
    if how == 'accessors':
        return drive.accessors(ep)
    if how == 'isolation':
        base = drive.direct(ep)
        tog = drive.together([ep, j['other'], ep], j['order'])
        two = drive.shared(ep)
        pre = copy.deepcopy(ep)
        pre['forc'] = pre['forc'][:j['cut'] + 1]
        # other weather after the cut
        new = copy.deepcopy(ep)
        for i, row in enumerate(new['forc']):
            if i > j['cut']:
                o = j['other']['forc'][i % len(j['other']['forc'])]
                new['forc'][i] = list(o)
        return dict(parts=[base, tog[0], tog[2], two[0], two[1],
                           drive.direct(pre), drive.direct(new),
                           drive.direct(ep)], error=None, records=[])
    return drive.direct(ep)


NAMES = ('base', 'next to other models', 'next to other models, the third',
         'first of two from the same configuration objects',
         'second of two from the same configuration objects',
         'prefix of the records', 'other records later on', 'once more')


def judge_job(j, res, out):
    if (res.get('error') or {}).get('type') == 'Watchdog':
        for p in set(['P23', out.prime or 'P23']):
            out.count(p, 'watchdog', True)
            out.violation(p, 'the run does not finish', j,
                          detail=res['error']['msg'])
        return
    how = j['direct']
    if how == 'gold':
        gold.judge(j, res, out)
    elif how == 'modes':
        files.aggregate(files.mode(j, 'all'), res['parts'][0],
                        res['parts'][1], out)
        if res['parts'][0]['error']:
            mon.watch(dict(j), res['parts'][0], out)
    elif how == 'accessors':
        mon.watch(dict(j), res, out)
        a = res.get('accessors')
        if a:
            n = sum(a['n'].values())
            for k, v in a['n'].items():
                out.tag('reads of ' + k, v)
            for x in a['seen']:
                out.count('P12', x, True, dict(read=x, kind=j['kind']))
            out.n['P12'] = out.n.get('P12', 0) + max(0, n - len(a['seen']))
            for b in a['bad'][:3]:
                out.violation('P12', '%s is not that of the current state' %
                              b['name'], j, **b)
    elif how == 'isolation':
        judge_isolation(j, res, out)
    else:
        mon.watch(dict(j), res, out)
        initial(j, res, out)


def same(a, b):
    return a == b or (a != a and b != b)


def judge_isolation(j, res, out):
    parts = res['parts']
    base = parts[0]
    if base['error']:
        mon.watch(dict(j), base, out)
    for name, x in zip(NAMES[1:], parts[1:]):
        want = base['records']
        err = base['error']
        if name in ('prefix of the records', 'other records later on'):
            # everything up to the cut
            DS = j['cfg']['data_step'] * 60.0
            lim = j['cut'] * DS + 1e-6
            want = [r for r in want if r['t'] <= lim]
            got = [r for r in x['records'] if r['t'] <= lim]
            err = got_err = None
        else:
            got = x['records']
            got_err = x['error']
        out.count('P21', (name, j['kind'], len(want),
                          want[-1]['m_s'] if want else 0), bool(want),
                  lambda: dict(variant=name, kind=j['kind'], cut=j['cut'],
                               records=len(want)))
        out.tag('variant ' + name)
        if (err is None) != (got_err is None):
            out.violation('P21', '%s: error %s, alone %s' % (
                name, got_err, err), j)
        elif got != want:
            k = 0
            while k < min(len(got), len(want)) and got[k] == want[k]:
                k += 1
            d = {}
            if k < min(len(got), len(want)):
                d = {f: (want[k][f], got[k].get(f)) for f in want[k]
                     if want[k][f] != got[k].get(f)}
            if not d and len(got) == len(want):
                continue
            out.violation('P21', '%s: other records' % name, j, record=k,
                          differences=d, n=(len(want), len(got)))


def initial(j, res, out):
    """P26: the snowcover of a new model object"""
    s = res.get('initial')
    if not s or 'm_s' not in s:
        return
    c = mon.ref_cfg(j['cfg'])
    w = mon.first_state(j, c)
    bad = []
    for n in mon.STATE_FIELDS:
        if n not in s:
            continue
        tol = 1e-9 * max(abs(w[n]), 1.0 if n.startswith('cc') else 1e-3)
        if n.startswith('t_s'):
            tol = 1e-7
            # without a layer there is no temperature
        if not abs(s[n] - w[n]) <= tol:
            bad.append(n)
    out.count('P26', tuple(round(w[n], 9) for n in ('m_s', 't_s_0', 't_s_l',
                                                     'h2o')),
              w['layer_count'] > 0, lambda: dict(
                  init=j['init'], max_active=c.max_active, state=s))
    out.tag('initial layers %d' % w['layer_count'])
    if bad:
        # rounding may decide the number of layers
        th = c.thr[2]
        m = w['rho'] * w['z_s'] if w['z_s'] else j['init']['rho'] * j[
            'init']['z_s']
        ml = (j['init']['z_s'] - c.max_active) * j['init']['rho']
        if abs(m - th) < 1e-9 or abs(ml - th) < 1e-9:
            return
        out.violation('P26', 'initial snowcover: %s' % ', '.join(bad), j,
                      got=s, want=w)


def work(task):
    what, maker, lo, hi, seed, prop = task
    out = mon.Out([prop], prime=prop)
    bad = []
    signal.signal(signal.SIGALRM, bark)
    if what == 'units':
        # lo: seed, hi: number
        signal.alarm(300)
        try:
            o = units.run(maker, lo, hi, [prop], prop)
        except drive.Watchdog:
            o = out
            o.tag('units took too long')
        signal.alarm(0)
        for v in o.viol[:2]:
            bad.append(('units', v, dict(suite=maker, seed=lo, n=hi)))
        o.tag('units ' + maker, hi)
        return task, clean(o), bad
    if what == 'gold':
        js = [gold.job(lo)]
        limit = 600
    else:
        js = jobs(what, maker, lo, hi, seed, prop)
        limit = LIMIT
    for j in js:
        sub = mon.Out([prop], prime=prop)
        signal.alarm(limit)
        try:
            res = gold.run(j) if what == 'gold' else run_job(j)
        except drive.Watchdog as e:
            res = dict(error=dict(type='Watchdog', msg=str(e)), records=[])
        signal.alarm(0)
        judge_job(j, res, sub)
        out.tag('episodes ' + what + ' ' + maker)
        for v in sub.viol[:1]:
            bad.append((what, v, dict(job=j)))
        out.merge_kept(clean(sub))
        if len(bad) > 8 or (res.get('error') or {}).get('type') == 'Watchdog':
            break
    return task, clean(out), bad


def clean(o):
    """suspicions are confirmed elsewhere"""
    o.viol = []
    o.nviol = {}
    return o


# ---------------------------------------------------------------------------
# histories of the known findings

def reproducer(key):
    if key == 'first-wet-snow':
        c = dict(gen.BASE)
        f = [[0.0, 280.0, 0.0, 500.0, 2.0, 0.0, 0.0, 0.0, 0.0, 0.0]
             for _ in range(5)]
        f[1][6:] = [10.0, 0.8, 150.0, 0.5]
        return dict(kind='first-wet-snow', cfg=c, init=dict(
            z_s=0.0, rho=0.0, t_s_0=0.0, t_s=0.0, h2o_sat=0.0), forc=f)
    if key == 'limited-vapor-pressure':
        c = dict(gen.BASE, mode='all')
        f = [[0.0, 300.0, ta, ea, 2.0, 0.0, 0.0, 0.0, 0.0, ta]
             for ta, ea in ((16.0, 1810.0), (-12.0, 30.0), (-12.0, 30.0))]
        return dict(kind='limited-vapor-pressure', cfg=c, init=dict(
            z_s=0.02, rho=250.0, t_s_0=0.0, t_s=0.0, h2o_sat=0.0), forc=f)
    if key == 'shrinking-lower-layer':
        for k in range(1, 40):
            ep = shrinking(gen.rng('shr', k))
            res = drive.direct(ep)
            if res['error'] and 'tk < 0' in res['error']['msg']:
                return ep
    return None


def shrinking(r):
    """rain and warmth on a cold and light snowcover of two layers"""
    c = gen.cfg(r, 0.5)
    c.update(mode='all', steps=[60, 15, 1], data_step=60, thr=[60, 10, 1])
    ma = c['max_active']
    rho = r.uniform(60, 250)
    t0 = -r.uniform(15, 38)
    m = rho * (ma + r.uniform(.02, .5))
    init = dict(z_s=m / rho, rho=rho, t_s_0=t0, t_s=t0, h2o_sat=0.0)
    warm = r.uniform(-5, 5)
    f = []
    for i in range(13):
        ta = t0 if i < 2 else warm
        f.append([0.0, 250.0, round(ta, 2),
                  round(.9 * gen.sat_limit(ta), 2), 3.0, 0.0,
                  0.0 if i < 2 else round(r.uniform(0, 8), 2),
                  r.choice([0.0, 0.5]), 200.0, max(ta, 0.0)])
    gen.heights(c, init, f)
    return dict(kind='shrinking', cfg=c, init=init, forc=f)
