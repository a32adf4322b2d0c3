"""Workloads that go through the files (PyPy, pandas, inicheck) and their
judges.  A case is dict(kind, jobs=[episode with io...], ...); `judge` gets
the results of the jobs in the same order."""
import copy
import csv
import datetime
import io
import json
import re

import gen
import gold
import mon
import ref
import zones

COLUMNS = ['R_n', 'H', 'L_v_E', 'G', 'M', 'delta_Q', 'G_0', 'delta_Q_0',
           'cc_s_0', 'cc_s_l', 'cc_s', 'E_s', 'melt', 'swi', 'z_s_0', 'z_s_l',
           'z_s', 'rho', 'm_s_0', 'm_s_l', 'm_s', 'h2o', 't_s_0', 't_s_l',
           't_s']
FIELD = dict(R_n='R_n_bar', H='H_bar', L_v_E='L_v_E_bar', G='G_bar',
             M='M_bar', delta_Q='delta_Q_bar', G_0='G_0_bar',
             delta_Q_0='delta_Q_0_bar', E_s='E_s_sum', melt='melt_sum',
             swi='swi_sum')
DIGITS = dict.fromkeys(('R_n', 'H', 'L_v_E', 'G', 'M', 'delta_Q', 'G_0',
                        'delta_Q_0', 'rho', 'm_s_0', 'm_s_l', 'm_s', 'h2o'),
                       '%.3f')
DIGITS.update(dict.fromkeys(('cc_s_0', 'cc_s_l', 'cc_s'), '%.9e'))
DIGITS.update(dict.fromkeys(('E_s', 'melt', 'swi'), '%.8f'))
DIGITS.update(dict.fromkeys(('z_s_0', 'z_s_l', 'z_s'), '%.6f'))
DIGITS.update(dict.fromkeys(('t_s_0', 't_s_l', 't_s'), '%.5f'))
FREEZE = ref.FREEZE
KELVIN = ('t_s_0', 't_s_l', 't_s')
SEED = 0


def r_of(*key):
    return gen.rng('files', SEED, *key)


def with_io(ep, **o):
    e = copy.deepcopy(ep)
    e['io'] = dict(e.get('io', {}), **o)
    return e


def mode(ep, m):
    e = copy.deepcopy(ep)
    e['cfg']['mode'] = m
    return e


def plain(ep):
    """with what a configuration file can say"""
    ep['init'].pop('t_s_l', None)
    return ep


def small(r, makers=None, hours=None, **kw):
    """an episode whose recording is not long"""
    name = r.choice(makers or ['season', 'ephemeral', 'storm', 'edge',
                               'burst', 'window'])
    if name == 'burst':
        return plain(gen.burst(r, n=r.choice([2, 3, 4]), **kw))
    if name == 'window':
        kw.pop('wild', None)
        return gen.window(r, days=1, **kw)
    kw.setdefault('wild', 0.6)
    return gen.MAKERS[name](r, n_hours=hours or r.choice([6, 12, 20]), **kw)


def tame(r, **kw):
    """an episode that does not fail"""
    import drive
    for k in range(50):
        ep = small(r, **kw)
        if drive.direct(ep)['error'] is None:
            return ep
    return gen.episode(r, n_hours=6, wild=0.0, climates=['cold'],
                       inits=['two'])


# ---------------------------------------------------------------------------
# the output file

def parse(text):
    """[(time, {column: text})], header"""
    rd = csv.reader(io.StringIO(text))
    head = next(rd)
    return head, [x for x in rd]


def csv_check(ep, res, out):
    """P20: does the file say what the model reported?"""
    c = ep['cfg']
    o = ep.get('io', {})
    fmt = o.get('format', False)
    text = res.get('csv')
    n = 0

    def bad(what, **d):
        out.violation('P20', what, ep, **d)

    if text is None:
        bad('there is no output file')
        out.count('P20')
        return
    head, rows = parse(text)
    if head != ['date_time'] + COLUMNS:
        bad('columns of the output file', got=head)
        out.count('P20')
        return
    if res.get('from_csv') or not res.get('have_list', True):
        # nothing to compare with
        out.count('P20', (ep['kind'], text), len(rows) > 1)
        out.tag('no list of output records')
        return
    recs = sorted(res['records'], key=lambda x: x['t'])
    if res.get('bad_times'):
        bad('times without a time zone', error=res['bad_times'])
    if len(rows) != len(recs):
        bad('%d lines for %d output records' % (len(rows), len(recs)))
        out.count('P20')
        return
    start = zones.instant(c['tz'], zones.time(c['start']))
    for row, rec in zip(rows, recs):
        utc = start + datetime.timedelta(seconds=rec['t'])
        want = zones.wall(c['tz'], utc).replace(tzinfo=datetime.timezone(
            datetime.timedelta(minutes=zones.minutes(c['tz'], utc))))
        try:
            got = datetime.datetime.fromisoformat(row[0])
        except ValueError:
            bad('time %r' % row[0])
            break
        if got.tzinfo is None or got != want or \
                got.utcoffset() != want.utcoffset():
            bad('time of a line', got=row[0], want=str(want))
            break
        for name, v in zip(COLUMNS, row[1:]):
            n += 1
            x = rec[FIELD.get(name, name)]
            if name in KELVIN:
                x = x - ref.FREEZE
            try:
                y = float(v)
            except ValueError:
                bad('%s is %r' % (name, v), time=row[0])
                continue
            if fmt:
                f = DIGITS[name]
                d = int(f[2])
                if v != f % x:
                    # the last digit may be decided by rounding
                    pat = (r'^-?\d\.\d{%d}e[+-]\d\d$' if f[3] == 'e' else
                           r'^-?\d+\.\d{%d}$') % d
                    scale = abs(x) if f[3] == 'e' else 1.0
                    if not re.match(pat, v) or abs(y - x) > 0.5000001 * \
                            10 ** -d * scale * (10 if f[3] == 'e' else 1) + \
                            1e-12 * abs(x):
                        bad('%s: %r is not %r in the format %s' % (
                            name, v, x, f), time=row[0])
            elif abs(y - x) > 4e-15 * (abs(x) + (
                    300.0 if name in KELVIN else 0.0)):
                bad('%s: %r is not %r' % (name, v, x), time=row[0])
    out.count('P20', (ep['kind'], fmt, c['mode'], len(rows), text[-200:]),
              len(rows) > 1, lambda: dict(
                  kind=ep['kind'], formatted=fmt, mode=c['mode'],
                  tz=c['tz'], lines=len(rows), values=n,
                  first=dict(zip(head, rows[0])) if rows else None))


# ---------------------------------------------------------------------------
# normal output against divided output

MEANS = ref.ENERGY
SUMS = ('E_s_sum', 'melt_sum', 'swi_sum')
STATES = mon.STATE_FIELDS + ('cc_s',)


def aggregate(ep, all_, norm, out):
    """P08"""
    DS = ep['cfg']['data_step'] * 60.0
    if (all_['error'] is None) != (norm['error'] is None):
        out.violation('P08', 'the output mode changes whether a run fails',
                      ep, divided=all_['error'], normal=norm['error'])
        out.count('P08')
        return
    t = 0.0
    i = 0
    recs = all_['records']
    for k, w in enumerate(norm['records']):
        part = []
        while i < len(recs) and recs[i]['t'] <= w['t'] + 1e-6:
            part.append(recs[i])
            i += 1
        if abs(w['t'] - t - DS) > 1e-6:
            out.violation('P08', 'time of a record of the normal output', ep,
                          got=w['t'], want=t + DS)
            out.count('P08')
            return
        if not part or abs(part[-1]['t'] - w['t']) > 1e-6:
            out.violation('P08', 'no divided time step ends with the record',
                          ep, t=w['t'])
            out.count('P08')
            return
        bad = []
        b = t
        tot = dict.fromkeys(MEANS, 0.0)
        mag = dict.fromkeys(MEANS, 0.0)
        for x in part:
            d = x['t'] - b
            b = x['t']
            for n in MEANS:
                tot[n] += x[n + '_bar'] * d
                mag[n] += abs(x[n + '_bar']) * d
        for n in MEANS:
            if abs(w[n + '_bar'] - tot[n] / DS) > 1e-9 * mag[n] / DS + 1e-9:
                bad.append((n, w[n + '_bar'], tot[n] / DS))
        for n in SUMS:
            v = sum(x[n] for x in part)
            m = sum(abs(x[n]) for x in part)
            if abs(w[n] - v) > 1e-9 * m + 1e-15:
                bad.append((n, w[n], v))
        for n in STATES:
            if n in w and w[n] != part[-1][n] and not (
                    abs(w[n] - part[-1][n]) <= 1e-12 * abs(w[n])):
                bad.append((n, w[n], part[-1][n]))
        lv = sorted(set(round(y['t'] - x, 3) for x, y in zip(
            [t] + [z['t'] for z in part], part)))
        out.count('P08', (ep['kind'], k, w['m_s'], w['R_n_bar']),
                  len(part) > 1, lambda: dict(
                      t=w['t'], divided_steps=len(part), lengths=lv,
                      R_n=w['R_n_bar'], melt=w['melt_sum'],
                      swi=w['swi_sum']))
        out.tag('lengths %s' % (lv,))
        if bad:
            out.violation('P08', 'not the aggregate of the divided steps: '
                          '%s' % [x[0] for x in bad], ep, t=w['t'],
                          differences=bad, steps=len(part))
        t = w['t']
    if i != len(recs):
        if norm['error'] is None:
            out.violation('P08', 'divided steps that are in no normal record',
                          ep, n=len(recs) - i)


# ---------------------------------------------------------------------------

def traj(prop, k, makers=None):
    """whole runs, judged by the monitors of mon.py"""
    r = r_of(prop, 'traj', k)
    ep = small(r, makers)
    ep['cfg']['tz'] = r.choice(['UTC', 'MST'])
    io_ = {}
    if r.random() < 0.3:
        io_['user_config'] = True
    if r.random() < 0.3:
        io_['shuffle'] = k
    ep['io'] = io_
    return dict(kind='traj', jobs=[ep])


def judge_traj(case, res, out):
    ep, x = case['jobs'][0], res[0]
    if x['error'] is None and not x.get('have_list'):
        out.tag('no list of output records')
        return
    mon.watch(ep, x, out)
    if x['error'] is None:
        csv_check(ep, x, out)


def initial(prop, k):
    """P26: one interval from an initial snowcover"""
    r = r_of(prop, 'initial', k)
    # (the configuration does not accept an end that is the start)
    ep = plain(gen.burst(r, n=2))
    ep['io'] = dict(user_config=k % 2 == 0)
    return dict(kind='traj', jobs=[ep])


# ---------------------------------------------------------------------------

def modes(prop, k):
    r = r_of(prop, 'modes', k)
    ep = small(r)
    return dict(kind='modes', jobs=[mode(ep, 'all'), mode(ep, 'normal')])


def judge_modes(case, res, out):
    a, n = res
    aggregate(case['jobs'][0], a, n, out)
    for ep, x in zip(case['jobs'], res):
        if x['error'] is None:
            csv_check(ep, x, out)
    unexpected(case, res, out)


def unexpected(case, res, out):
    """errors that the monitors do not explain"""
    for ep, x in zip(case['jobs'], res):
        if x['error'] is not None:
            e = dict(ep, cfg=dict(ep['cfg'], mode='all'))
            if ep['cfg']['mode'] == 'all':
                mon.watch(e, x, out)


# ---------------------------------------------------------------------------

def prepare(prop, k):
    """P18: the same records in differently laid out files"""
    r = r_of(prop, 'prepare', k)
    if k % 12 == 5:
        ep = gen.outlier(r)
        ep['cfg']['mode'] = 'all'
        ep['cfg']['tz'] = 'UTC'
        return dict(kind='prepare', jobs=[ep, with_io(ep, shuffle=k)],
                    names=['base', 'long and shuffled'])
    if k % 12 == 9:
        ep = plain(gen.values(r))
        ep['cfg']['mode'] = 'all'
        ep['cfg']['tz'] = 'UTC'
        return dict(kind='prepare', jobs=[ep, with_io(ep, ints=True)],
                    names=['base', 'short numbers'])
    ep = tame(r, hours=6, makers=['season', 'storm', 'edge'])
    c = ep['cfg']
    c['tz'] = r.choice(sorted(zones.FIXED))
    c['mode'] = r.choice(['all', 'all', 'normal'])
    step = c['data_step']
    if r.random() < 0.4:
        zones.across(r, c, len(ep['forc']))
    if r.random() < 0.5:
        # rain that is recorded as colder than freezing
        for f in ep['forc']:
            if f[6] > 0 and f[7] < 1:
                f[9] = -abs(f[9])
    if r.random() < 0.4:
        # integers
        for f in ep['forc']:
            for j in (0, 1, 2, 5, 9):
                f[j] = float(round(f[j]))
            f[3] = max(1.0, min(f[3], gen.q(gen.sat_limit(f[2]), 0) - 1))
    wild = [[900.0, 400.0, 20.0, 2000.0, 15.0, 10.0, 30.0, 0.0, 0.0, 20.0],
            [0.0, 150.0, -30.0, 20.0, 1.0, -5.0, 30.0, 1.0, 50.0, -30.0]]
    half = step // 2 if step > 1 else 0
    # short headings, so that it can be told what is wrong
    v = [('base', {}),
         ('shuffled lines', dict(shuffle=k)),
         ('reversed lines', dict(reverse=True)),
         ('permuted columns', dict(permute=k)),
         ('additional column', dict(extra=True)),
         ('short numbers', dict(ints=True)),
         ('records before', dict(before=[r.choice(wild) for _ in range(
             r.randrange(1, 5))])),
         ('records after', dict(after=[r.choice(wild) for _ in range(
             r.randrange(1, 5))])),
         ('records before and after, shuffled',
          dict(before=wild, after=wild, shuffle=k + 1)),
         ('start between records', dict(start_shift_min=-half,
                                        before=wild[:1])),
         ('end between records', dict(end_shift_min=half, after=wild)),
         ('start before the first record',
          dict(start_shift_min=-step * r.randrange(1, 30))),
         ('records long before', dict(long_before=wild + wild)),
         ('no precipitation values without precipitation',
          dict(blank=True)),
         ('other date format', dict(date_format=r.choice(
             ['%Y-%m-%dT%H:%M:%S', '%m/%d/%Y %H:%M', '%Y-%m-%d %H:%M']))),
         ('other date format of the configuration',
          dict(ini_date_format='%Y-%m-%d %H:%M:%S')),
         ('time step of the configuration',
          dict(override=dict(time_step=60))),
         ('no time step in the configuration', dict(omit=['time_step'])),
         ]
    if c['tz'] in zones.DST:
        # there the clocks show other times, which may be there twice
        v = [x for x in v if 'long_before' not in x[1]]
    pick = [v[0]] + [x for x in v[1:] if r.random() < 0.6]
    m = len(ep['forc'])
    if m > 3:
        pick.append(('rejected: a record is missing',
                     dict(gap=r.randrange(1, m - 1))))
    pick.append(('rejected: a record is there twice',
                 dict(twice=r.randrange(0, m))))
    jobs = [with_io(ep, **o) for _, o in pick]
    return dict(kind='prepare', jobs=jobs, names=[n for n, _ in pick])


def judge_prepare(case, res, out):
    base = res[0]
    ep = case['jobs'][0]
    if base['error'] is not None:
        if ep['cfg']['mode'] == 'all':
            mon.watch(ep, base, out)
        else:
            out.count('P18')
            out.violation('P18', 'raised %(type)s: %(msg)s' % base['error'],
                          ep)
        return
    # the simulation of the records themselves
    if ep['cfg']['mode'] == 'all' and base.get('have_list'):
        sub = mon.Out()
        mon.watch(ep, base, sub)
        if sub.nviol:
            out.violation('P18', 'the simulated records are not those of the '
                          'file: %s' % sorted(sub.nviol), ep,
                          first=sub.viol[0]['what'])
        out.merge_kept(sub)
    csv_check(ep, base, out)
    n = len(ep['forc']) - 1
    recs = base['records']
    if recs and recs[-1]['t'] != n * ep['cfg']['data_step'] * 60.0:
        out.violation('P18', 'not all the records were simulated', ep,
                      got=recs[-1]['t'])
    for name, e, x in zip(case['names'], case['jobs'], res):
        out.count('P18', (name, x.get('csv')), True, lambda: dict(
            variant=name, start=e['cfg']['start'], tz=e['cfg']['tz'],
            records=len(e['forc']),
            io={a: b for a, b in e.get('io', {}).items()
                if a not in ('before', 'after')}))
        out.tag('variant ' + name)
        if name.startswith('rejected'):
            if x['error'] is None:
                out.violation('P18', 'not ' + name, e)
        elif x['error'] is not None:
            out.violation('P18', '%s: raised %s: %s' % (
                name, x['error']['type'], x['error']['msg']), e)
        elif not same_values(x['csv'], base['csv']):
            out.violation('P18', '%s: other output' % name, e,
                          **first_difference(base['csv'], x['csv']))


def same_values(a, b):
    """the same output, where a whole number may be written as 0 or 0.0"""
    if a == b:
        return True
    if a is None or b is None:
        return False
    a, b = a.splitlines(), b.splitlines()
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        x, y = x.split(','), y.split(',')
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if p != q:
                try:
                    if float(p) != float(q):
                        return False
                except ValueError:
                    return False
    return True


def first_difference(a, b):
    a, b = (a or '').splitlines(), (b or '').splitlines()
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return dict(line=k, want=x[:300], got=y[:300])
    return dict(lines=len(b), want_lines=len(a))


# ---------------------------------------------------------------------------

DEFAULTS = dict(z_u=('z_u', 5.0), z_T=('z_t', 5.0), z_g=('z_g', 0.5),
                relative_heights=('relative', False), max_h2o=('max_h2o',
                                                               0.01),
                max_active=('max_active', 0.25), z_0=('z_0', 0.005))


def items(prop, k):
    """P19: items left out, odd values"""
    r = r_of(prop, 'items', k)
    ep = small(r, wild=1.0)
    c = ep['cfg']
    if r.random() < 0.3:
        c['thr'] = list(r.choice(gen.THRESHOLDS))
    omit = []
    drop = []
    kind = r.randrange(4)
    if kind == 0:
        # all the items of a section
        drop = [r.choice(['measurement_heights', 'model',
                          'initial_snow_properties'])]
    for item, (name, v) in DEFAULTS.items():
        sec = ('model' if item.startswith('max') else
               'initial_snow_properties' if item == 'z_0' else
               'measurement_heights')
        if sec in drop or kind in (1, 2) and r.random() < 0.4:
            c[name] = v
            omit.append(item)
    if 'model' in drop or kind == 1 and r.random() < 0.5:
        c['steps'], c['thr'] = [60, 15, 1], [60, 10, 1]
        omit += ['norm_time_step', 'medium_time_step', 'small_time_step',
                 'norm_threshold', 'medium_threshold', 'small_threshold']
        c['data_step'] = 60
    if 'initial_snow_properties' in drop:
        ep['init'] = dict(z_s=0.0, rho=0.0, t_s_0=0.0, t_s=0.0, h2o_sat=0.0)
    elif kind == 2:
        for n in ('t_s_0', 't_s', 'h2o_sat'):
            if r.random() < 0.5:
                ep['init'][n] = 0.0
                omit.append(n)
    if not ep['init']['z_s'] and r.random() < 0.5:
        ep['init'] = dict.fromkeys(ep['init'], 0.0)
        omit += ['z_s', 'rho', 't_s_0', 't_s', 'h2o_sat']
    top = max([ep['init']['z_s']] + [0])
    for f in ep['forc']:
        if f[6] > 0 and f[7] > 0:
            top += f[6] * f[7] / f[8]
    if not c['relative'] and top > min(c['z_t'], c['z_u']) - 1.0:
        if 'relative_heights' in omit:
            omit.remove('relative_heights')
        c['relative'] = True
        if 'measurement_heights' in drop:
            drop = []
    if r.random() < 0.3:
        c['tz'] = 'UTC'
        omit.append('time_zone')
    if 'initial_snow_properties' in drop:
        omit += ['z_s', 'rho', 't_s_0', 't_s', 'h2o_sat']
    ep['io'] = dict(omit=omit, empty=drop, ints=r.random() < 0.3,
                    user_config=r.random() < 0.3)
    if r.random() < 0.3:
        ep['io']['override'] = {n: int(c[m]) for n, m in (
            ('z_u', 'z_u'), ('elevation', 'elevation')) if c[m] == int(
                c[m]) and n not in omit}
    jobs = [ep]
    if k % 2:
        # the output items
        e = mode(ep, 'normal')
        e['io']['omit'] = e['io']['omit'] + ['output_mode', 'format_output']
        e['io']['format'] = True        # the default
        jobs.append(e)
    return dict(kind='items', jobs=jobs)


def judge_items(case, res, out):
    ep, x = case['jobs'][0], res[0]
    out.count('P19', json.dumps([ep['cfg'], ep['init'], ep['io']],
                                sort_keys=True), True, lambda: dict(
        cfg=ep['cfg'], init=ep['init'], omitted=ep['io'].get('omit'),
        empty=ep['io'].get('empty')))
    for n in ep['io'].get('omit', []):
        out.tag('left out ' + n)
    if x['error'] is None and not x.get('have_list'):
        return
    sub = mon.Out()
    mon.watch(ep, x, sub)
    if sub.nviol:
        out.violation('P19', 'the simulation is not that of the '
                      'configuration: %s: %s' % (
                          sorted(sub.nviol), sub.viol[0]['what']), ep,
                      detail=sub.viol[0]['detail'])
    out.merge_kept(sub)
    if len(res) > 1 and res[1]['error'] is None:
        e, y = case['jobs'][1], res[1]
        sub = mon.Out()
        csv_check(e, y, sub)
        if sub.nviol:
            out.violation('P19', 'default output mode and format: ' +
                          sub.viol[0]['what'], e)
        n = len(e['forc']) - 1
        if y.get('have_list') and len(y['records']) != n:
            out.violation('P19', 'the default is not one output record per '
                          'data record', e, records=len(y['records']))


# ---------------------------------------------------------------------------

def output(prop, k):
    """P20"""
    r = r_of(prop, 'output', k)
    ep = small(r, makers=['season', 'storm', 'ephemeral', 'edge'])
    ep['cfg']['tz'] = r.choice(sorted(zones.FIXED))
    if r.random() < 0.25:
        zones.across(r, ep['cfg'], len(ep['forc']))
    ep['cfg']['mode'] = r.choice(['all', 'normal'])
    if k % 4 in (1, 2):
        # hardly any water, melt, rain
        ep['init']['h2o_sat'] = r.choice([1e-4, 1e-6, 1e-8, 1e-12])
        ep['init']['t_s_0'] = ep['init']['t_s'] = 0.0
        if k % 8 > 4:
            ep['cfg']['max_h2o'] = 10 ** -r.uniform(5, 12)
        for f in ep['forc']:
            if f[6]:
                f[6] *= r.choice([1e-3, 1e-5, 1e-7])
    ep['io'] = dict(format=k % 2 == 0, user_config=r.random() < 0.3)
    return dict(kind='output', jobs=[ep])


def judge_output(case, res, out):
    if res[0]['error'] is None:
        csv_check(case['jobs'][0], res[0], out)
    else:
        unexpected(case, res, out)


# ---------------------------------------------------------------------------

def isolated(prop, k):
    """P21"""
    r = r_of(prop, 'isolated', k)
    if k % 9 == 4:
        ep = gen.outlier(r)
        ep['cfg']['mode'] = 'normal'
        jobs = [ep]
        for n in (2, 14):
            jobs.append(copy.deepcopy(ep))
            jobs[-1]['forc'] = ep['forc'][:ep['outlier'] + n]
        jobs.append(copy.deepcopy(ep))
        jobs[-1]['forc'] = ep['forc'][:ep['outlier'] - 3]
        return dict(kind='isolated', jobs=jobs,
                    names=['base'] + ['prefix'] * 3)
    ep = tame(r, hours=8, makers=['season', 'storm', 'ephemeral'])
    ep['cfg']['mode'] = r.choice(['all', 'normal'])
    other = tame(r, hours=4, makers=['season', 'storm'])
    # hardly anything is other here
    twin = copy.deepcopy(ep)
    e = 10 ** -r.uniform(5, 12)
    twin['init']['t_s_0'] -= e
    twin['init']['t_s'] -= e
    for f in twin['forc']:
        for j in (2, 5):
            f[j] -= e
        f[4] *= 1 + e
        f[0] *= 1 - e
    n = r.randrange(3, len(ep['forc']))
    pre = copy.deepcopy(ep)
    pre['forc'] = pre['forc'][:n]
    # alone in its process, then after others in one
    jobs = [with_io(ep, alone=True),
            with_io(ep, second=twin, second_first=True),
            with_io(ep, second=other),
            with_io(ep, second=other, second_first=True, again=True),
            with_io(ep, user_config=True, again=True),
            with_io(ep, rerun=True), pre]
    return dict(kind='isolated', jobs=jobs, names=[
        'base', 'after a model of almost the same', 'next to another model',
        'after another model, twice',
        'the same configuration object twice', 'the same model object twice',
        'prefix'])


def judge_isolated(case, res, out):
    base = res[0]
    if base['error'] is not None:
        unexpected(dict(jobs=case['jobs'][:1]), res[:1], out)
        return
    for name, e, x in zip(case['names'], case['jobs'], res):
        out.count('P21', (name, x.get('csv')), name != 'base', lambda: dict(
            variant=name, kind=e['kind'], lines=len((
                x.get('csv') or '').splitlines())))
        out.tag('variant ' + name)
        if x['error'] is not None:
            out.violation('P21', '%s: raised %s: %s' % (
                name, x['error']['type'], x['error']['msg']), e)
            continue
        texts = [x['csv']]
        if 'again_first' in x:
            texts.append(x['again_first'])
        for t in texts:
            want = base['csv']
            if name == 'prefix':
                want = ''.join(want.splitlines(True)[
                    :len((t or '').splitlines())])
                if len((t or '').splitlines()) < 2:
                    out.violation('P21', 'no output for a prefix', e)
                # (a column without a fraction so far has integers)
                if [[number(x) for x in y] for y in csv.reader(
                        io.StringIO(t or ''))] == [
                        [number(x) for x in y] for y in csv.reader(
                            io.StringIO(want))]:
                    continue
            if t != want:
                out.violation('P21', '%s: other output' % name, e,
                              **first_difference(want, t))


def number(x):
    try:
        return float(x)
    except ValueError:
        return x


# ---------------------------------------------------------------------------

JUNK = ''.join('%d,left over from an earlier run,1,2,3\n' % i
               for i in range(3000))


def kept(prop, k):
    """P28 and P23: runs that fail or not, and the files"""
    r = r_of(prop, 'kept', k)
    ep = tame(r, hours=5, makers=['season', 'storm', 'edge'])
    c = ep['cfg']
    c['mode'] = r.choice(['all', 'normal'])
    n = len(ep['forc'])
    v = [('complete', {}, True)]
    i = r.randrange(0, n - 1)
    fails = []

    def forc(name, j, **vals):
        e = copy.deepcopy(ep)
        for a, b in vals.items():
            e['forc'][j][gen.SHORT.index(a)] = b
        return name, e

    fails.append(forc('snow without density', i, m_pp=5.0, percent_snow=1.0,
                      rho_snow=0.0, t_pp=-3.0))
    fails.append(forc('snow of negative density', n - 1, m_pp=5.0,
                      percent_snow=0.5, rho_snow=-5.0))
    deep = copy.deepcopy(ep)
    deep['cfg']['relative'] = False
    deep['init'] = dict(z_s=6.0, rho=300.0, t_s_0=-5.0, t_s=-5.0,
                        h2o_sat=0.0)
    deep['cfg']['z_t'] = deep['cfg']['z_u'] = 5.0
    both = r.random() < 0.3
    if not both:
        deep['cfg'][r.choice(['z_t', 'z_u'])] = 12.0
    fails.append(('sensors buried by the snowcover' if both else
                  'a sensor buried by the snowcover', deep))
    deep = copy.deepcopy(ep)
    deep['cfg'].update(relative=False, z_t=r.choice([3.0, 50.0]), z_u=3.0)
    for j in range(i, n):
        deep['forc'][j][6:] = [300.0, 1.0, 50.0, -5.0]
        deep['forc'][j][2] = -5.0
        deep['forc'][j][3] = 200.0
    deep['forc'] = deep['forc'] + deep['forc'][-1:] * 3
    fails.append(('sensors buried by a snowfall', deep))
    fails.append(('a missing column', with_io(
        ep, drop_column=r.choice(['air_temp', 'precip_mass', 'wind_speed',
                                  'net_solar', 'vapor_pressure', 'soil_temp',
                                  'percent_snow', 'rho_snow', 'precip_temp',
                                  'incoming_thermal']))))
    fails.append(('no configuration file', with_io(ep, no_config=True)))
    fails.append(('end before start', with_io(
        ep, end_shift_min=-60 * 24 * 400)))
    fails.append(('an unknown output mode', with_io(
        ep, override=dict(output_mode='sometimes'))))
    fails.append(('text for a number', with_io(
        ep, override={r.choice(['elevation', 'z_u', 'max_h2o', 'rho']):
                      'many'})))
    e = copy.deepcopy(ep)
    s = e['cfg']['steps']
    e['cfg']['steps'] = r.choice([[s[0], 7, 1], [60, 25, 5], [60, 15, 4],
                                  [45, 15, 1]])
    e['cfg']['data_step'] = 60
    fails.append(('time steps that do not divide', e))
    fails.append(('no input file', with_io(ep, override=dict(
        input_csv='/nonexistent/in.csv'))))
    fails.append(('a section missing', with_io(
        ep, drop_sections=[r.choice(['topo', 'time', 'files'])])))
    fails.append(('temperatures in Kelvin instead of Celsius, wet', forc(
        '', i, t_a=-300.0)[1]))
    cover = copy.deepcopy(ep)
    cover['init'] = dict(z_s=1.0, rho=300.0, t_s_0=-5.0, t_s=-5.0,
                         h2o_sat=0.0)
    gen.heights(cover['cfg'], cover['init'], cover['forc'])
    cover['forc'][i][2] = -280.0
    fails[-1] = ('air temperature below absolute zero', cover)
    cover = copy.deepcopy(cover)
    cover['forc'][i] = list(ep['forc'][i])
    cover['forc'][i][3] = -5.0
    fails.append(('negative vapor pressure', cover))
    # missing values
    for j, col in ((0, r.randrange(0, 7)), (n - 1, r.randrange(0, 7)),
                   (i, 5), (i, r.choice([7, 8, 9]))):
        gone = copy.deepcopy(cover)
        gone['forc'] = [list(x) for x in ep['forc']]
        gen.heights(gone['cfg'], gone['init'], gone['forc'])
        if col > 6:
            gone['forc'][j][6:] = [4.0, 1.0, 120.0, -2.0]
        gone['forc'][j][col] = None
        fails.append(('a value of %s is missing' % gen.SHORT[col], gone))
    if n > 3:
        fails.append(('a record is missing', with_io(
            ep, gap=r.randrange(1, n - 1))))
    fails.append(('a record is there twice', with_io(
        ep, twice=r.randrange(0, n))))
    if k == 0:
        # a long run without snow, and then a record that can not be
        long = copy.deepcopy(ep)
        long['cfg'].update(data_step=60, steps=[60, 15, 1], mode='normal')
        long['init'] = gen.initial(r, 'bare', long['cfg'])
        dry = list(ep['forc'][0])
        dry[6:] = [0.0, 0.0, 0.0, 0.0]
        long['forc'] = [list(dry) for _ in range(9000)]
        long['forc'][8990][6:] = [5.0, 1.0, 0.0, -3.0]
        fails[:0] = [('a long run with snow without density', long)]
    jobs, names, ok = [], [], []
    jobs.append(with_io(ep, pre_out=JUNK))
    names.append('complete')
    ok.append(True)
    jobs.append(with_io(ep, readonly=True))
    names.append('complete, no earlier output')
    ok.append(True)
    jobs.append(with_io(ep, shuffle=k, permute=k))
    names.append('complete, lines and columns in another order')
    ok.append(True)
    jobs.append(with_io(ep, blank=True, ints=True))
    names.append('complete, no values where there is no precipitation')
    ok.append(True)
    first, rest = fails[:k == 0], fails[k == 0:]
    r.shuffle(rest)
    for name, e in (first + rest)[:9]:
        for pre in (JUNK, None):
            jobs.append(with_io(e, pre_out=pre))
            names.append(name)
            ok.append(False)
    return dict(kind='kept', jobs=jobs, names=names, ok=ok)


def judge_kept(case, res, out):
    base = res[1].get('csv')
    for name, e, x, ok in zip(case['names'], case['jobs'], res, case['ok']):
        pre = e['io'].get('pre_out')
        for p in ('P28', 'P23'):
            out.count(p, (name, pre is None, e['kind'], x.get('csv')), True,
                      lambda: dict(case=name, earlier_output=pre is not None,
                                   error=(x['error'] or {}).get('type'),
                                   files=x.get('files')))
        out.tag('run: ' + name)
        if ok and x['error'] is not None:
            if 'Watchdog' == x['error']['type']:
                continue
            for p in ('P28', 'P23'):
                out.violation(p, '%s: raised %s: %s' % (
                    name, x['error']['type'], x['error']['msg']), e)
            continue
        if not ok and x['error'] is None:
            out.violation('P23', '%s: the run was not rejected' % name, e,
                          csv=(x.get('csv') or '')[:300])
            out.violation('P28', '%s: the run did not fail' % name, e)
            continue
        if ok:
            if x['csv'] is None or not same_values(x['csv'], base) or 'left over' in \
                    x['csv']:
                out.violation('P28', '%s: the output file is not that of '
                              'the run' % name, e,
                              **first_difference(base, x['csv']))
        elif x.get('csv') != pre:
            for p in ('P28', 'P23'):
                out.violation(p, '%s: the run failed, but %s' % (
                    name, 'the output file changed' if pre else
                    'there is an output file'), e, got=(
                        x.get('csv') or 'removed')[:300])
        if not x.get('inputs_kept', True):
            out.violation('P28', '%s: the input files changed' % name, e)
        if 'files' in x:
            new = set(x['files']) - set(x.get('files_before', x['files']))
            gone = set(x.get('files_before', [])) - set(x['files'])
            new.discard('out.csv')
            if new or gone:
                out.violation('P28', '%s: other files made or removed' %
                              name, e, made=sorted(new), removed=sorted(gone))


def years(prop, k):
    """P22: a recorded year, through the files"""
    r = gen.rng(SEED, prop, 'years')
    ys = list(gen.YEARS)
    r.shuffle(ys)
    y = ys[k % len(ys)]
    ep = gold.episode(y)
    ep['cfg'].update(start=gen.year(y)[1][0][:16], mode='normal')
    ep['io'] = dict(user_config=k % 2 == 0)
    n = 1
    if k == 0:          # several years in one go
        while n < 2 and y + n in ys:
            ep['forc'] = ep['forc'] + gen.year(y + n)[0]
            n += 1
    return dict(kind='years', jobs=[ep], year=y, n=n)


def judge_years(case, res, out):
    """the lines of the output file against the recorded output"""
    x = res[0]
    recs = []
    step = case['jobs'][0]['cfg']['data_step'] * 60.0
    if x['error'] is None and x.get('csv'):
        back = {k: v for k, v in FIELD.items()}
        for row in csv.DictReader(io.StringIO(x['csv'])):
            recs.append({back.get(n, n): float(v) + (
                FREEZE if n in KELVIN else 0.0)
                for n, v in row.items() if n != 'date_time'})
    elif x['error'] is None:
        out.tag('no output file')
        return
    lo = 0
    for y in range(case['year'], case['year'] + case['n']):
        rows = len(gen.year(y)[0])
        part = [dict(r, t=(k + 1) * step)
                for k, r in enumerate(recs[lo:lo + rows])]
        lo += rows
        sub = mon.Out(['P22'], prime='P22')
        gold.judge(gold.job(y), dict(x, records=part), sub)
        for k in list(sub.tags):
            if k.startswith('year '):
                del sub.tags[k]
        sub.tag('years through files')
        if case['n'] > 1:
            sub.tag('years in one run')
        out.merge(sub)


BUILD = dict(traj=traj, initial=initial, modes=modes, prepare=prepare,
             items=items, output=output, isolated=isolated, kept=kept,
             years=years)
JUDGE = dict(traj=judge_traj, modes=judge_modes, prepare=judge_prepare,
             items=judge_items, output=judge_output, isolated=judge_isolated,
             kept=judge_kept, years=judge_years)


def build(suite, prop, n, seed, **kw):
    global SEED
    SEED = seed
    return [BUILD[suite](prop, k, **kw) for k in range(n)]


def judge(case, res, out):
    dogs = [x for x in res if (x['error'] or {}).get('type') == 'Watchdog']
    if dogs:
        out.tag('took too long')
        return
    JUDGE[case['kind']](case, res, out)
