"""P22: 25 water years of the original model's output (reference data in the
repository) against this model."""
import drive
import gen
import ref

FREEZE = ref.FREEZE
COLS = {
    'R_n': 'R_n_bar', 'H': 'H_bar', 'L_v_E': 'L_v_E_bar', 'G': 'G_bar',
    'M': 'M_bar', 'delta_Q': 'delta_Q_bar', 'G_0': 'G_0_bar',
    'delta_Q_0': 'delta_Q_0_bar', 'cc_s_0': 'cc_s_0', 'cc_s_l': 'cc_s_l',
    'E_s': 'E_s_sum', 'melt': 'melt_sum', 'ro_predict': 'swi_sum',
    'z_s_0': 'z_s_0', 'z_s_l': 'z_s_l', 'z_s': 'z_s', 'rho': 'rho',
    'm_s_0': 'm_s_0', 'm_s_l': 'm_s_l', 'm_s': 'm_s', 'h2o': 'h2o'}
TEMPS = {'T_s_0': 't_s_0', 'T_s_l': 't_s_l', 'T_s': 't_s'}


def job(y):
    return dict(kind='gold/%d' % y, direct='gold', year=y, forc=[])


def episode(y):
    rows, dates = gen.year(y)
    c = dict(gen.BASE, z_g=0.1, mode='normal', tz='MST')
    return dict(kind='gold/%d' % y, cfg=c, init=dict(
        z_s=0.0, rho=0.0, t_s_0=0.0, t_s=0.0, h2o_sat=0.0), forc=rows)


def run(j):
    return drive.direct(episode(j['year']))


# an hour and column differ when the difference is above this
TOL = dict(cc_s_0=200.0, cc_s_l=200.0, z_s=1e-3, z_s_0=1e-3, z_s_l=1e-3)
# mean differences over a year: about five times of the largest that comes
# from comparisons which rounding decides the other way
MEAN = {'R_n': .25, 'H': .25, 'L_v_E': .2, 'G': .75, 'M': .01,
        'delta_Q': .7, 'G_0': .13, 'delta_Q_0': .7, 'cc_s_0': 6400.0,
        'cc_s_l': 1200.0, 'E_s': 3e-4, 'melt': .01, 'ro_predict': 1e-3,
        'z_s_0': 1e-4, 'z_s_l': 2e-3, 'z_s': 2e-3, 'rho': .9, 'm_s_0': .25,
        'm_s_l': .35, 'm_s': .12, 'h2o': 1.2e-3, 'T_s_0': .045,
        'T_s': .04}
EXACT_VALUES = 60       # so many values of a year (of 190000) may differ
EXACT_YEARS = 14        # so many years (of 25) have to agree value by value


def judge(j, res, out):
    y = j['year']
    if res['error']:
        out.count('P22', ('error', y))
        out.violation('P22', 'year %d: raised %s: %s' % (
            y, res['error']['type'], res['error']['msg'][:200]), j)
        return
    ref_rows = gen.year_output(y)
    recs = res['records']
    if len(recs) < len(ref_rows):
        out.violation('P22', 'year %d: %d records for %d' % (
            y, len(recs), len(ref_rows)), j)
        return
    n = min(len(recs), len(ref_rows))
    differ = {}
    mean = {}
    cols = dict(COLS, T_s_0='t_s_0', T_s='t_s')
    for a, b in cols.items():
        name = a
        if a not in ref_rows[0]:
            name = 'swi' if a == 'ro_predict' else a.replace('T_', 't_')
        off = FREEZE if b.startswith('t_s') else 0.0
        tol = TOL.get(a, 1e-2)
        k = 0
        s = 0.0
        for x, r in zip(ref_rows, recs):
            d = abs(float(x[name]) - (r[b] - off))
            s += d
            if d > tol:
                k += 1
        if a != 'T_s' and k:
            differ[a] = k
        mean[a] = s / n
    for x, r in zip(ref_rows[:n], recs):
        out.count('P22', (y, r['t'], r['m_s'], r['R_n_bar']), r['m_s'] > 0,
                  lambda: dict(time=x['date_time'], m_s=[
                      float(x['m_s']), r['m_s']], R_n=[
                      float(x['R_n']), r['R_n_bar']], rho=[
                      float(x['rho']), r['rho']]))
    exact = sum(differ.values()) <= EXACT_VALUES
    out.tag('year agrees value by value' if exact else
            'year differs: %d' % y)
    out.tag('values that differ', sum(differ.values()))
    if not exact and j.get('strict'):
        out.violation('P22', 'year %d differs' % y, j, values=differ)
    bad = {a: (mean[a], MEAN[a]) for a in mean if not mean[a] <= MEAN[a]}
    if bad:
        out.violation('P22', 'year %d: mean difference of %s' % (
            y, ', '.join(sorted(bad))), j, means=bad)
    pk = [max(float(x['m_s']) for x in ref_rows[:n]),
          max(r['m_s'] for r in recs[:n])]
    if not abs(pk[0] - pk[1]) <= 1.0:
        out.violation('P22', 'year %d: peak mass' % y, j, got=pk[1],
                      want=pk[0])
    for a, b in (('melt', 'melt_sum'), ('ro_predict', 'swi_sum'),
                 ('E_s', 'E_s_sum')):
        name = a if a in ref_rows[0] else 'swi'
        w = sum(float(x[name]) for x in ref_rows[:n])
        g = sum(r[b] for r in recs[:n])
        if not abs(w - g) <= 0.005 * abs(w) + 0.5:
            out.violation('P22', 'year %d: total of %s' % (y, a), j, got=g,
                          want=w)
