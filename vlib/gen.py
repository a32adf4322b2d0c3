"""Workload generator: episodes (configuration + initial snow + forcing).

An episode is a JSON-able dict.  Temperatures are in Celsius (as in the input
file of the model), rows of `forc` are

    S_n I_lw t_a e_a u t_g m_pp percent_snow rho_snow t_pp
"""
import csv
import math
import os
import random

import ref

REPO = os.environ.get('VERIF_REPO', '/repo')
GOLD = os.path.join(REPO, 'pysnobal/tests/test_data_point/gold_csv/25year')
YEARS = list(range(1984, 2009))
COLS = ('net_solar', 'incoming_thermal', 'air_temp', 'vapor_pressure',
        'wind_speed', 'soil_temp', 'precip_mass', 'percent_snow', 'rho_snow',
        'precip_temp')

SHORT = ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'm_pp', 'percent_snow',
         'rho_snow', 't_pp')

BASE = dict(elevation=2061.0, z_u=5.0, z_t=5.0, z_g=0.5, relative=False,
            max_h2o=0.01, max_active=0.25, z_0=0.005, steps=[60, 15, 1],
            thr=[60, 10, 1], data_step=60, mode='all',
            start='2000-01-01 00:00', tz='UTC')

STEPS = [([60, 15, 1], 60), ([60, 15, 1], 60), ([60, 15, 1], 60),
         ([60, 30, 10], 60), ([30, 10, 5], 60), ([60, 15, 1], 180),
         ([60, 20, 2], 180), ([20, 10, 1], 60), ([15, 5, 1], 15),
         ([60, 12, 3], 120), ([30, 15, 5], 30), ([60, 60, 60], 60),
         ([60, 15, 15], 60), ([30, 30, 2], 60), ([60, 15, 1], 360),
         ([120, 30, 2], 120), ([180, 60, 5], 180)]

THRESHOLDS = [[0, 0, 1], [60, 0, 1], [5, 0, 1], [1, 1, 1], [60, 1, 2],
              [1000, 1000, 1], [100000, 10, 1], [60, 20, 15], [20, 20, 20],
              [60, 10, 0], [0, 10, 1], [2, 1, 3]]


def q(x, n=4):
    return round(x, n)


def sat_limit(t_c):
    """largest vapor pressure that is neither clipped nor rejected"""
    return ref.sati(t_c + ref.FREEZE)


def cfg(r, wild=0.5, **kw):
    c = dict(BASE)
    if r.random() < wild:
        c['elevation'] = q(r.choice([0.0, 500.0, 1500.0, 2061.0, 3400.0,
                                     r.uniform(-400, -5),
                                     r.uniform(-100, 5500)]), 1)
        c['z_g'] = r.choice([0.1, 0.5, 0.5, 1.0, q(r.uniform(0.05, 1.0), 3)])
        c['max_h2o'] = r.choice([0.01, 0.01, 0.02, 0.05,
                                 q(r.uniform(0.001, 0.1), 4)])
        c['max_active'] = r.choice([0.25, 0.25, 0.1, 0.5,
                                    q(r.uniform(0.05, 0.6), 3)])
        c['z_0'] = r.choice([0.005, 0.001, 0.0001, 0.01,
                             q(r.uniform(0.0001, 0.01), 5),
                             q(r.uniform(0.01, 0.06), 4)])
        c['z_t'] = r.choice([5.0, 3.0, 10.0, 20.0])
        c['z_u'] = r.choice([c['z_t'], 5.0, 10.0, 20.0])
        c['relative'] = r.random() < 0.35
        if r.random() < 0.08:
            c['max_h2o'] = r.choice([0.0, q(r.uniform(1e-6, 1e-4), 7)])
        # (the point model may be made without naming them)
        c['implied'] = r.random() < 0.2
        c['steps'], c['data_step'] = r.choice(STEPS)
        dt = c['steps']
        thr = r.choice([[60, 10, 1], [60, 10, 1], [100, 20, 2], [60, 13, 1],
                        [90, 30, 5], [61, 11, 1]])
        if dt[1] > 15:
            thr = [max(thr[0], 60), max(thr[1], 20), max(thr[2], 2)]
        if dt[2] > 2:
            thr = [thr[0], thr[1], max(thr[2], 2)]
        if r.random() < 0.08:
            # hardly ever or always divided, no least mass, in any order
            thr = list(r.choice(THRESHOLDS))
        c['thr'] = thr
        y, m = r.randrange(1984, 2030), r.randrange(1, 13)
        c['start'] = '%04d-%02d-%02d %02d:00' % (
            y, m, r.randrange(1, 28), r.randrange(24))
        c['tz'] = r.choice(['UTC', 'MST', 'UTC'])
    c.update(kw)
    return c


CLIMATES = {
    # t0 mean start, trend per day, amplitude, rain chance etc.
    'cold': dict(t0=(-18, -6), trend=0.0, amp=(2, 8), wet=0.08, big=4.0),
    'mixed': dict(t0=(-5, 3), trend=0.0, amp=(3, 9), wet=0.15, big=5.0),
    'maritime': dict(t0=(-2, 4), trend=0.05, amp=(1, 4), wet=0.35, big=8.0),
    'melt': dict(t0=(1, 10), trend=0.4, amp=(4, 10), wet=0.05, big=3.0),
    'arctic': dict(t0=(-32, -20), trend=0.0, amp=(1, 4), wet=0.05, big=1.5),
    'swing': dict(t0=(-3, 3), trend=0.0, amp=(8, 14), wet=0.2, big=6.0),
}


def weather(r, n, dt_min, climate, wind=None):
    c = CLIMATES[climate]
    t0 = r.uniform(*c['t0'])
    amp = r.uniform(*c['amp'])
    alb = r.uniform(0.4, 0.85)
    tg0 = r.choice([0.0, 0.0, r.uniform(-6, 0), r.uniform(0, 6)])
    hour = r.uniform(0, 24)
    syn = cloud = 0.0
    lw = math.log(wind or r.uniform(1.0, 5.0))
    wn = 0.0
    event = 0
    ewet = c['wet'] / 6.0
    # what a radiometer measures at night
    offset = r.choice([0.0] * 9 + [q(-r.uniform(0, 4), 2)])
    rows = []
    for i in range(n):
        hour = (hour + dt_min / 60.0)
        a = math.exp(-dt_min / 60.0 / 18.0)
        b = math.sqrt(1 - a * a)
        syn = a * syn + b * r.gauss(0, 3.0)
        cloud = a * cloud + b * r.gauss(0, 1.0)
        wn = 0.8 * wn + 0.6 * r.gauss(0, 0.5)
        sun = math.sin(2 * math.pi * (hour % 24 - 6) / 24.0)
        ta = t0 + c['trend'] * hour / 24.0 + syn + amp * math.sin(
            2 * math.pi * (hour % 24 - 8) / 24.0)
        ta = q(max(-42.0, min(24.0, ta)), 2)
        if event > 0:
            event -= 1
        elif r.random() < ewet:
            event = r.randrange(1, 13)
        cl = 1.0 / (1.0 + math.exp(-cloud)) if not event else 1.0
        sn = q(max(0.0, sun) * 900.0 * (1 - 0.7 * cl) * (1 - alb) +
               (offset if sun < 0 else 0.0), 2)
        ilw = q((0.68 + 0.3 * cl) * ref.SIGMA * (ta + 273.16) ** 4, 1)
        sat = sat_limit(ta)
        rh = min(1.0, max(0.15, 0.55 + 0.4 * cl + 0.1 * r.gauss(0, 1)))
        ea = rh * sat
        if r.random() < 0.02:
            ea = sat + r.uniform(0, 12.0)       # slightly over saturation
        ea = max(q(ea, 2), 1.0)
        u = q(min(18.0, max(0.35, math.exp(lw + wn))), 2)
        tg = q(tg0 + 0.3 * r.gauss(0, 1) if r.random() < 0.5 else tg0, 2)
        mpp, pct, rs, tp = 0.0, r.choice([0.0, 1.0]), r.choice(
            [0.0, 100.0]), q(ta, 2)
        if event and r.random() < 0.85:
            mpp = q(min(40.0, r.expovariate(1.0 / c['big'])) *
                    dt_min / 60.0, 3)
            tp = q(ta - r.uniform(0, 2.0), 2)
            if tp < -1.0:
                pct = 1.0
            elif tp > 2.5:
                pct = 0.0
            else:
                pct = r.choice([0.0, 0.25, 0.5, 0.75, 1.0,
                                q(r.random(), 3)])
            rs = q(r.choice([50.0, 80.0, 100.0, 150.0, 200.0,
                             r.uniform(40, 350)]), 1) if pct > 0 else \
                r.choice([0.0, 100.0])
        rows.append([sn, ilw, ta, ea, u, tg, mpp, pct, rs, tp])
    return rows


def initial(r, kind, c):
    """Initial snow properties."""
    if kind == 'bare':
        return dict(z_s=0.0, rho=0.0, t_s_0=0.0, t_s=0.0, h2o_sat=0.0)
    thr = c['thr']
    ma = c['max_active']
    rho = q(r.uniform(80, 480), 2)
    if kind == 'one':
        m = r.uniform(thr[2] * 1.05, rho * ma * 1.02)
    elif kind == 'thin':
        m = thr[2] * r.choice([1.0001, 1.01, 1.5, 3.0, r.uniform(1.001, 15)])
    elif kind == 'border':
        m = rho * ma + thr[2] * r.choice([0.9, 0.999, 1.001, 1.1,
                                          r.uniform(0.5, 12)])
    elif kind == 'step':            # close to one of the step thresholds
        m = r.choice(thr[:2]) * r.choice([0.99, 0.9999, 1.0001, 1.01])
    elif kind == 'even':            # two layers with the same mass
        rho = q(r.choice([rho, r.choice(thr[:2]) * r.uniform(0.5, 1.0) / ma]),
                2)
        rho = min(max(rho, 1.1 * thr[2] / ma, 40.0), 600.0)
        m = 2 * rho * ma
    elif kind == 'dense':
        rho = q(r.choice([540.0, 549.9, 550.0, 551.0, 590.0, 599.9, 600.0,
                          r.uniform(500, 600)]), 3)
        m = rho * r.uniform(0.1, 2.0)
    elif kind == 'deep':
        rho = q(r.uniform(250, 550), 2)
        m = r.choice([1999.0, 2000.0, 2001.0, r.uniform(1200, 3500)])
    elif kind == 'light':
        rho = q(r.choice([30.0, 99.9, 100.0, 100.1, r.uniform(25, 130)]), 3)
        m = rho * r.uniform(0.1, 1.2)
    else:                           # two
        m = rho * (ma + r.uniform(0.02, 1.8))
    z = m / rho
    wet = r.random()
    if wet < 0.35:
        t0 = t1 = 0.0
        sat = r.choice([0.0, 1.0, 0.5, q(r.random(), 4)])
    else:
        t0 = q(-r.expovariate(1 / 5.0), 3)
        t1 = q(r.choice([t0, -r.expovariate(1 / 5.0), 0.0]), 3)
        sat = 0.0 if wet < 0.85 else q(r.random(), 4)
    t0, t1 = max(t0, -38.0), max(t1, -38.0)
    return dict(z_s=q(z, 6), rho=rho, t_s_0=t0, t_s=t1, h2o_sat=sat)


def heights(c, init, forc):
    """Make the measurement heights fit the depth the pack can reach, and wet
    snow heavier than the water in it."""
    least = q(1.25 * c['max_h2o'] * ref.RHO_W0, 1)
    if init['z_s'] and init['h2o_sat'] and init['rho'] < least:
        init['h2o_sat'] = 0.0
    for f in forc:
        if f[6] > 0 and f[7] > 0 and f[8] < least and (
                f[7] < 1 or f[9] >= 0):
            f[8] = least
    if c['relative']:
        return c
    z = init['z_s']
    for f in forc:
        if f[6] > 0 and f[7] > 0:
            z += f[6] * f[7] / f[8]
    if z > min(c['z_t'], c['z_u']) - 1.0:
        if z + 1.0 < 25.0 and z > 4.0:
            c['z_t'] = c['z_u'] = 30.0
        else:
            c['relative'] = True
    return c


def episode(r, n_hours=96, climates=None, inits=None, wild=0.5, wind=None,
            **kw):
    c = cfg(r, wild, **kw)
    n = max(4, int(n_hours * 60 / c['data_step']))
    cl = r.choice(climates or list(CLIMATES))
    ik = r.choice(inits or ['bare', 'one', 'thin', 'border', 'step', 'dense',
                            'deep', 'light', 'two', 'two'])
    init = initial(r, ik, c)
    f = weather(r, n + 1, c['data_step'], cl, wind)
    heights(c, init, f)
    return dict(kind='season/%s/%s' % (cl, ik), cfg=c, init=init, forc=f)


def ephemeral(r, n_hours=96, **kw):
    """Snow that comes and goes: little snow, warm spells."""
    kw.setdefault('wild', 0.3)
    c = cfg(r, **kw)
    n = max(4, int(n_hours * 60 / c['data_step']))
    f = weather(r, n + 1, c['data_step'], r.choice(['mixed', 'swing',
                                                    'maritime', 'melt']))
    k = 0
    while k < n:
        k += r.randrange(2, 14)
        for j in range(k, min(k + r.randrange(1, 3), n)):
            tp = q(r.choice([-4.0, -1.0, 0.0, 0.5, 1.5]), 2)
            pct = r.choice([1.0, 1.0, 0.5, 0.9])
            small = c['thr'][2]
            f[j][6:] = [q(small * r.choice([0.5, 0.99, 1.0, 1.01, 1.2, 2.0,
                                            4.0, 8.0]), 4), pct,
                        q(r.choice([60.0, 100.0, 150.0, 250.0]), 1), tp]
    init = initial(r, r.choice(['bare', 'thin', 'one']), c)
    heights(c, init, f)
    return dict(kind='ephemeral', cfg=c, init=init, forc=f)


def storm(r, n_hours=60, **kw):
    """Precipitation of all kinds on all kinds of ground."""
    c = cfg(r, kw.pop('wild', 0.5), **kw)
    n = max(4, int(n_hours * 60 / c['data_step']))
    f = weather(r, n + 1, c['data_step'], r.choice(list(CLIMATES)))
    for row in f:
        if r.random() < 0.45:
            tp = q(r.choice([-12.0, -3.0, -0.5, 0.0, 0.0, 0.5, 3.0, 8.0,
                             r.uniform(-15, 12)]), 2)
            pct = r.choice([0.0, 0.1, 0.5, 0.9, 1.0, 1.0, q(r.random(), 3)])
            row[6:] = [q(r.choice([0.01, 0.2, 1.0, 5.0, 20.0,
                                   r.uniform(0.01, 15)]), 3), pct,
                       q(r.uniform(40, 400), 1), tp]
            if row[2] < -12.0:      # no rain into deep cold
                row[7] = 1.0
    init = initial(r, r.choice(['bare', 'one', 'thin', 'two', 'dense',
                                'border', 'light']), c)
    heights(c, init, f)
    return dict(kind='storm', cfg=c, init=init, forc=f)


def edge(r, n_hours=30, **kw):
    """Exact special values: freezing point, calm, neutral, no humidity
    difference, all or no snow, threshold masses."""
    c = cfg(r, kw.pop('wild', 0.3), **kw)
    n = max(4, int(n_hours * 60 / c['data_step']))
    f = weather(r, n + 1, c['data_step'], r.choice(['mixed', 'cold',
                                                    'swing']))
    for row in f:
        if r.random() < 0.3:
            row[4] = 0.0 if r.random() < 0.5 else 0.5
        if r.random() < 0.3:
            row[2] = 0.0
            row[3] = min(row[3], q(sat_limit(0.0), 2))
        if r.random() < 0.3:
            row[5] = 0.0
        if r.random() < 0.3:
            row[0] = 0.0
        if r.random() < 0.3:
            row[6:] = [r.choice([1.0, 2.0, 5.0, 10.0, 60.0, 0.5]),
                       r.choice([0.0, 0.5, 1.0]), r.choice([100.0, 50.0,
                                                            200.0]),
                       r.choice([0.0, -5.0, 5.0])]
            if row[7] == 0.0:
                row[8] = 0.0
    init = initial(r, r.choice(['bare', 'one', 'two', 'step', 'thin']), c)
    if r.random() < 0.5 and init['z_s']:
        init['t_s'] = init['t_s_0']
    if r.random() < 0.3:
        balance(r, c, init, f)
    heights(c, init, f)
    return dict(kind='edge', cfg=c, init=init, forc=f)


def balance(r, c, init, f):
    """Melting snow on which at times nothing acts at all: the radiation in
    balance, calm, the soil at freezing."""
    black = ref.SIGMA * 273.16 ** 4
    black = r.choice([black, black, black, math.nextafter(black, 0),
                      math.nextafter(black, 1e9)])
    on = r.random() < 0.5
    for row in f:
        if r.random() < 0.4:
            on = not on
        row[5] = 0.0
        if on:
            row[:2] = [0.0, black]
            row[4] = 0.0
            row[6:] = [0.0, 0.0, 0.0, 0.0]
        else:
            row[0] = q(r.uniform(50, 600), 1)
            row[1] = max(row[1], 280.0)
            row[2] = max(row[2], q(r.uniform(0, 5), 2))
    rho = q(r.uniform(150, 400), 1)
    init.update(z_s=q(r.uniform(0.2, 1.5), 3), rho=rho, t_s_0=0.0, t_s=0.0,
                h2o_sat=q(r.random(), 3))


_year = {}


def year(y):
    """input rows of a water year of the repository's reference data"""
    if y not in _year:
        with open(os.path.join(GOLD, 'wy%d.input.csv' % y)) as fh:
            rows = list(csv.DictReader(fh))
        _year.clear()
        _year[y] = ([[float(x[k]) for k in COLS] for x in rows],
                    [x['date_time'] for x in rows])
    return _year[y]


def year_output(y):
    with open(os.path.join(GOLD, 'wy%d.output.csv' % y)) as fh:
        rows = list(csv.DictReader(fh))
    if y == 1997:
        rows = rows[:-1]            # its last line is truncated
    return rows


def window(r, days=6, y=None, **kw):
    """A piece of a real year, with mutations, from a plausible state."""
    y = y or r.choice(YEARS)
    f, dates = year(y)
    n = int(days * 24)
    k = r.randrange(0, min(len(f) - n - 2, 7000))
    kw.setdefault('z_g', 0.1)
    kw.setdefault('data_step', 60)
    kw.setdefault('steps', r.choice([[60, 15, 1], [60, 15, 1], [60, 30, 10],
                                     [30, 10, 5], [20, 5, 1]]))
    kw.setdefault('thr', [60, 20, 2])
    c = cfg(r, r.choice([0.0, 0.5]), **kw)
    rows = [list(x) for x in f[k:k + n + 1]]
    dt, dm = r.choice([0.0, 0.0, -4.0, 3.0]), r.choice([1.0, 1.0, 2.5])
    for x in rows:
        if dt:
            rh = x[3] / sat_limit(x[2])
            x[2] = q(x[2] + dt, 2)
            x[3] = max(1.0, q(min(rh, 1.0) * sat_limit(x[2]), 2))
        x[6] = q(x[6] * dm, 4)
    init = initial(r, r.choice(['bare', 'one', 'two', 'two', 'thin']), c)
    heights(c, init, rows)
    return dict(kind='window/%d' % y, cfg=c, init=init, forc=rows)


def extreme(r, f):
    """Rare weather, which is valid all the same."""
    kind = r.choice(['hot', 'hot', 'gale', 'polar', 'deluge', 'soil', 'dark'])
    base = r.uniform(24, 42) if kind == 'hot' else r.uniform(-62, -40)
    for row in f:
        if kind in ('hot', 'polar'):
            shift = row[9] - row[2]
            row[2] = q(base + r.uniform(-2, 2), 2)
            row[9] = q(row[2] + shift, 2) if row[6] else row[2]
            sat = sat_limit(row[2])
            row[3] = q(sat * r.choice([0.1, 0.5, 0.9, r.random()]), 2) or 1.0
        if kind == 'hot':
            row[0] = q(r.uniform(300, 1300), 2)
            row[1] = q(r.uniform(350, 540), 1)
            row[5] = q(r.uniform(0, 30), 2)
            if row[6]:
                # snow does not fall at such a temperature
                row[7:9] = [0.0, 0.0]
        elif kind == 'polar':
            row[0] = 0.0
            row[1] = q(r.uniform(60, 140), 1)
            row[3] = min(row[3], sat)
            row[5] = q(r.uniform(-30, 0), 2)
            if row[6]:
                row[7:9] = [1.0, q(r.uniform(30, 300), 1)]
        elif kind == 'gale':
            row[4] = q(r.uniform(18, 60), 2)
        elif kind == 'deluge':
            row[6] = q(r.uniform(40, 200), 2)
            if row[7] and not row[8]:
                row[8] = q(r.uniform(60, 300), 1)
        elif kind == 'soil':
            row[5] = q(r.choice([r.uniform(8, 35), r.uniform(-35, -8)]), 2)
        else:
            row[0] = q(r.uniform(-6, 0), 2)


def burst(r, n=None, **kw):
    """A few time steps from any state under any weather: wide coverage of
    single steps."""
    c = cfg(r, kw.pop('wild', 0.6), **kw)
    n = r.choice([1, 1, 2, 3]) if n is None else n
    tb = r.choice([0.0, -2.0, 2.0, 6.0, -8.0, -15.0, r.uniform(-30, 15)])
    f = []
    for i in range(n + 1):
        ta = q(max(-40.0, tb + r.gauss(0, 1.5)), 2)
        sat = sat_limit(ta)
        ea = max(1.0, q(sat * r.choice([0.2, 0.6, 0.9, 1.0, r.random()]), 2))
        row = [q(r.choice([0.0, 50.0, 300.0, r.uniform(0, 800)]), 2),
               q(r.uniform(0.6, 1.05) * ref.SIGMA * (ta + FRZ) ** 4, 1),
               ta, ea, q(r.choice([0.0, 0.4, 2.0, 6.0, 15.0,
                                   r.uniform(0.3, 12)]), 2),
               q(r.choice([0.0, 0.0, -3.0, 4.0, r.uniform(-8, 8)]), 2),
               0.0, 0.0, 0.0, ta]
        if r.random() < 0.6:
            pct = r.choice([0.0, 1.0, 1.0, 0.5, q(r.random(), 3),
                            r.choice([1e-5, 5e-5, 1e-3, 1 - 1e-5])])
            tp = q(r.choice([ta, ta - 1, 0.0, 0.5, -4.0, 6.0]), 2)
            if ta < -12.0:
                pct = 1.0
            row[6:] = [q(r.choice([0.05, 0.5, 3.0, 12.0, 40.0,
                                   r.uniform(0, 25)]), 4), pct,
                       q(r.uniform(30, 550), 1) if pct else 0.0, tp]
        f.append(row)
    if r.random() < 0.15:
        extreme(r, f)
    init = initial(r, r.choice(['bare', 'one', 'thin', 'thin', 'border',
                                'step', 'dense', 'deep', 'light', 'two',
                                'two', 'even']), c)
    heights(c, init, f)
    if r.random() < 0.15:
        # the lower layer's temperature, which has no place in the
        # configuration file
        init['t_s_l'] = q(r.choice([0.0, init['t_s'], r.uniform(-25, 0)]), 2)
    return dict(kind='burst', cfg=c, init=init, forc=f)


FRZ = 273.16


def outlier(r, n=None, **kw):
    """A long time of the same weather, with one record that stands out."""
    n = n or r.randrange(180, 260)
    c = cfg(r, kw.pop('wild', 0.3), **kw)
    c['data_step'], c['steps'] = 60, [60, 15, 1]
    ta = r.choice([-12.0, -5.0, -1.0, 3.0])
    f = []
    for i in range(n):
        t = q(ta + r.gauss(0, 0.3), 2)
        f.append([q(abs(r.gauss(0, 1)), 2),
                  q(0.8 * ref.SIGMA * (t + FRZ) ** 4, 1), t,
                  q(0.7 * sat_limit(t), 2), q(r.uniform(1.5, 2.0), 2), -1.0,
                  0.0, 0.0, 0.0, t])
    i = r.randrange(n // 2, n - 20)
    f[i][0] = q(r.uniform(700, 950), 1)
    f[i][4] = q(r.uniform(18, 24), 1)
    f[i][1] = q(1.15 * f[i][1], 1)
    f[i][6:] = [q(r.uniform(20, 40), 2), 1.0, q(r.uniform(80, 200), 1),
                min(-0.5, f[i][2])]
    init = initial(r, r.choice(['bare', 'deep', 'two', 'two']), c)
    heights(c, init, f)
    return dict(kind='outlier', cfg=c, init=init, forc=f, outlier=i)


def sublime(r, c, init, f):
    """A thin active layer on hardly more than the least lower layer: dry wind
    takes the snowcover at once, both layers of it, as cold as they are."""
    c['max_active'] = q(r.uniform(0.001, 0.004), 4)
    c['thr'] = list(r.choice([[60, 10, 1], [6, 4, 2], [5, 4, 3]]))
    c['steps'] = [60, 30, 15]
    t = q(r.uniform(-6, 1), 2)
    for row in f:
        row[2] = q(t + r.uniform(-0.5, 0.5), 2)
        row[1] = q(0.9 * ref.SIGMA * (row[2] + FRZ) ** 4, 1)
        row[0] = q(r.uniform(0, 200), 1)
        row[3] = q(0.05 * sat_limit(row[2]), 2)
        row[4] = q(r.uniform(8, 20), 1)
        row[6:] = [0.0, 0.0, 0.0, 0.0]
    rho = q(r.uniform(60, 300), 2)
    m = c['thr'][2] * r.uniform(1.0005, 1.02) + rho * c['max_active']
    t0 = q(r.uniform(-8, -0.5), 2)
    init.update(z_s=q(m / rho, 7), rho=rho, t_s_0=t0, t_s=t0, h2o_sat=0.0)
    if r.random() < 0.5:
        # less than can evaporate in a step
        c['thr'] = [6, 4, 0]
        init['z_s'] = q(r.uniform(0.005, 0.3) / rho, 7)


def values(r, **kw):
    """Whole numbers of all kinds, among them those that mark missing values
    elsewhere."""
    c = cfg(r, kw.pop('wild', 0.3), **kw)
    c['data_step'], c['steps'], c['thr'] = 60, [60, 15, 1], [60, 10, 1]
    f = []
    lo = r.choice([-50, -50, -45])
    n = 90
    for i in range(n + 1):
        ta = float(min(lo + i, 40))
        sun = float(r.choice([0, -1, -6, -9, 999, 99, 100, 1, 255, 7 * i]))
        row = [min(sun, 999.0), float(r.choice([150, 200, 250, 300, 350, 400,
                                               100 + i])),
               ta, max(1.0, float(int(sat_limit(ta) * r.uniform(0.3, 0.95)))),
               float(r.choice([0, 1, 2, 3, 9, 10, i % 20])),
               float(r.choice([0, -1, -9, 1, -10, 5, i % 20 - 10])),
               0.0, 0.0, 0.0, ta]
        if r.random() < 0.4:
            pct = 1.0 if ta < 0 else 0.0 if ta > 3 else 0.5
            row[6:] = [float(r.choice([1, 2, 5, 9, 10, i % 15 + 1])), pct,
                       float(r.choice([100, 99, 250, 60 + i]))
                       if pct else 0.0, min(ta, 30.0)]
        f.append(row)
    init = initial(r, 'deep', c)
    heights(c, init, f)
    return dict(kind='values', cfg=c, init=init, forc=f)


def vanish(r, n=None, **kw):
    """Small packs, often of two layers, under strong melt (or evaporation):
    layers and whole snowcovers that go in a single step, and come again."""
    c = cfg(r, kw.pop('wild', 0.3), **kw)
    c['max_active'] = q(r.uniform(0.01, 0.08), 3)
    c['thr'] = list(r.choice([[6, 4, 2], [3, 2, 1], [8, 3, 0.5], [5, 4, 3],
                              [60, 10, 1]]))
    c['steps'] = list(r.choice([[60, 30, 15], [60, 30, 10], [60, 20, 10],
                                [60, 15, 1]]))
    c['data_step'] = 60
    n = n or r.randrange(2, 9)
    f = []
    rho = q(r.uniform(60, 450), 2)
    for i in range(n + 1):
        ta = q(r.uniform(2, 24) if r.random() < 0.8 else r.uniform(-15, 2), 2)
        sat = sat_limit(ta)
        row = [q(r.uniform(0, 950), 2),
               q(r.uniform(0.8, 1.05) * ref.SIGMA * (ta + FRZ) ** 4, 1),
               ta, max(1.0, q(sat * r.choice([0.05, 0.9, 1.0, r.random()]),
                              2)),
               q(r.uniform(0.3, 16), 2), q(r.choice([0.0, r.uniform(-6, 8)]),
                                           2), 0.0, 0.0, 0.0, ta]
        if r.random() < 0.3:
            pct = r.choice([0.0, 1.0, 1.0, 0.5])
            row[6:] = [q(r.choice([0.5, 2.0, 5.0, 9.0, 14.0]) *
                         r.uniform(0.7, 1.3), 3), pct,
                       q(r.uniform(50, 300), 1) if pct else 0.0,
                       q(r.choice([-4.0, 0.0, 0.5, 4.0]), 2)]
        f.append(row)
    if r.random() < 0.15:
        init = initial(r, 'bare', c)
    else:
        m = rho * c['max_active'] + c['thr'][2] * r.choice(
            [-0.5, 0.5, 1.0, 1.01, 1.2, 1.5, 2.0, r.uniform(1, 8)])
        m = max(m, c['thr'][2] * 1.01)
        t0 = r.choice([0.0, 0.0, q(-r.uniform(0, 6), 3)])
        t1 = r.choice([t0, 0.0, q(-r.uniform(0, 25), 3)])
        init = dict(z_s=q(m / rho, 7), rho=rho, t_s_0=t0, t_s=t1,
                    h2o_sat=q(r.random(), 3) if t0 == t1 == 0 else 0.0)
    if r.random() < 0.2:
        sublime(r, c, init, f)
    heights(c, init, f)
    return dict(kind='vanish', cfg=c, init=init, forc=f)


def rng(*key):
    return random.Random('/'.join(str(k) for k in key))


MAKERS = dict(season=episode, ephemeral=ephemeral, storm=storm, edge=edge,
              window=window, burst=burst, vanish=vanish)
