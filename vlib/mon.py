"""Online monitors over the per-step recordings of the model.

`watch(ep, res, out)` walks over the records of an episode in the order the
model emitted them.  For each run time step it rebuilds what went in (state
at the start as last reported, forcing interpolated between the two input
records, share of the precipitation), asks the reference model what has to
come out and compares.  The walk continues from the REPORTED state, so each
step is judged on its own.  What does not agree is attributed to properties.
"""
import math

import ref
from ref import FREEZE

RT = 1e-9
ENERGY = ref.ENERGY
STATE_FIELDS = ('rho', 'z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l',
                't_s', 't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'h2o',
                'h2o_sat', 'h2o_max', 'h2o_vol', 'layer_count')
OUT_FIELDS = ('melt', 'E_s', 'swi')
T_NONE = ref.MIN_TEMP


class Out(object):
    """Collects what the monitors saw."""

    def __init__(self, keep=None, max_viol=20, prime=None):
        self.keep = keep            # properties of interest, None for all
        self.prime = prime          # the one property being checked
        self.viol = []
        self.nviol = {}
        self.known = {}
        self.tags = {}
        self.n = {}
        self.distinct = {}
        self.samples = {}
        self.max_viol = max_viol

    def tag(self, t, k=1):
        self.tags[t] = self.tags.get(t, 0) + k

    def count(self, prop, key=None, nontrivial=True, sample=None):
        if self.keep and prop not in self.keep:
            return
        self.n[prop] = self.n.get(prop, 0) + 1
        if nontrivial and key is not None:
            d = self.distinct.setdefault(prop, set())
            h = hash(key)
            if h not in d:
                d.add(h)
                s = self.samples.setdefault(prop, [])
                if sample is not None and len(s) < 3:
                    s.append(sample() if callable(sample) else sample)

    def violation(self, prop, what, ep=None, **detail):
        if self.keep and prop not in self.keep:
            return
        self.nviol[prop] = self.nviol.get(prop, 0) + 1
        if sum(1 for v in self.viol if v['property'] == prop) < \
                self.max_viol:
            self.viol.append(dict(property=prop, what=what, detail=detail,
                                  episode=ep))

    def known_finding(self, prop, key, sample=None):
        if self.keep and prop not in self.keep:
            return
        k = self.known.setdefault(prop + ' ' + key, [0, sample])
        k[0] += 1

    def merge_kept(self, o):
        """merge what concerns the properties of interest"""
        if self.keep:
            o.viol = [v for v in o.viol if v['property'] in self.keep]
            for a in ('nviol', 'n', 'distinct', 'samples'):
                setattr(o, a, {k: v for k, v in getattr(o, a).items()
                               if k in self.keep})
            o.known = {k: v for k, v in o.known.items()
                       if k.split()[0] in self.keep}
        self.merge(o)

    def merge(self, o):
        self.viol += o.viol
        for a in ('nviol', 'tags', 'n'):
            m, mo = getattr(self, a), getattr(o, a)
            for k, v in mo.items():
                m[k] = m.get(k, 0) + v
        for k, v in o.known.items():
            m = self.known.setdefault(k, [0, v[1]])
            m[0] += v[0]
        for k, v in o.distinct.items():
            self.distinct.setdefault(k, set()).update(v)
        for k, v in o.samples.items():
            s = self.samples.setdefault(k, [])
            s += v[:max(0, 3 - len(s))]


class Step(object):
    __slots__ = ('ep', 'c', 'k', 'i', 't0', 'dt', 'level', 's0', 'rec', 'f',
                 'f1', 'f2', 'p', 'pd', 'frac', 'now', 'x', 'exact',
                 'approx_tg')

    def brief(self):
        return dict(step=self.k, t=self.t0, dt=self.dt, kind=self.ep['kind'],
                    forcing=self.f, start=self.s0,
                    end={k: v for k, v in self.rec.items() if k != 't'})


def ref_cfg(c):
    return ref.Cfg(c['elevation'], c['z_u'], c['z_t'], c['z_g'],
                   c['relative'], c['max_h2o'], c['max_active'], c['z_0'],
                   c['steps'], c['thr'], c['data_step'])


def kelvin(row):
    return dict(S_n=row[0], I_lw=row[1], t_a=row[2] + FREEZE, e_a=row[3],
                u=row[4], t_g=row[5] + FREEZE, m_pp=row[6], pct=row[7],
                rho_snow=row[8], t_pp=row[9] + FREEZE)


def first_state(ep, c):
    i = ep['init']
    return ref.initial_state(i['z_s'], i['rho'], i['t_s_0'] + FREEZE,
                             i['t_s'] + FREEZE, i['h2o_sat'], c,
                             i['t_s_l'] + FREEZE if 't_s_l' in i else None)


def share(p, w):
    q = dict(p)
    for k in ('m_pp', 'm_snow', 'm_rain', 'z_snow'):
        q[k] = p[k] * w
    return q


def close(a, b, tol):
    return abs(a - b) <= tol


def watch(ep, res, out):
    """Judge one recording ('all' mode)."""
    if res.get('blind'):
        # it failed and what happened before can not be seen
        out.tag('failed, with nothing to see')
        import drive
        try:
            fails = drive.direct(ep)['error'] is not None
        except Exception:       # noqa
            fails = True
        if not fails:
            # what the file says can be simulated
            for pr in set(['P23', out.prime or 'P23']):
                out.count(pr)
                out.violation(pr, 'raised %(type)s: %(msg)s' % res['error'],
                              ep, tb=res['error'].get('tb'))
        return
    c = ref_cfg(ep['cfg'])
    DS = ep['cfg']['data_step'] * 60.0
    dts = [s * 60.0 for s in ep['cfg']['steps']]
    forc = [kelvin(x) for x in ep['forc']]
    pcache = {}
    s = first_state(ep, c)
    t = 0.0
    ea = None
    warm = None
    cur = -1
    stack = None
    for k, rec in enumerate(res['records']):
        vals = [v for v in rec.values()]
        bad = [n for n, v in rec.items() if v != v or v in (
            float('inf'), float('-inf'))]
        dt = rec['t'] - t
        i = int(t // DS)
        if dt not in dts or i + 1 >= len(forc):
            out.violation('P06', 'output time does not continue the last '
                          'one by a run time step', ep, step=k, t=t, dt=dt)
            out.count('P06')
            return
        if i != cur:
            cur = i
            ea = forc[i]['e_a']
            f1, f2 = forc[i], forc[i + 1]
            if i not in pcache:
                pcache[i] = ref.classify_precip(
                    f1['m_pp'], f1['pct'], f1['rho_snow'], f1['t_pp'])
        w0 = (t - i * DS) / DS
        st = Step()
        st.ep, st.c, st.k, st.i, st.t0, st.dt = ep, c, k, i, t, dt
        st.level = dts.index(dt)
        st.s0, st.rec, st.f1, st.f2, st.frac = s, rec, f1, f2, w0
        f = {n: f1[n] + w0 * (f2[n] - f1[n])
             for n in ('S_n', 'I_lw', 't_a', 'u', 't_g')}
        f['e_a'] = ea
        st.f = f
        st.pd = pcache[i]
        st.p = share(pcache[i], dt / DS)
        st.exact = w0 == 0.0
        if bad:
            out.violation('P04', 'not finite: %s' % bad, ep, **st.brief())
            out.violation('P23', 'not finite: %s' % bad, ep, **st.brief())
            return
        key = (k, round(rec['m_s'], 9), round(s['m_s'], 9),
               round(rec['R_n_bar'], 6), dt)
        levels(st, out, t, DS, key)
        warm, clipped = energy(st, out, key, warm)
        mass(st, out, key)
        invariants(st, out, key)
        # next
        ea = clipped + (f2['e_a'] - f1['e_a']) * dt / DS
        s = {n: rec[n] for n in STATE_FIELDS}
        t = rec['t']
    ending(ep, res, out, c, s, t, DS, forc, ea, warm)


# ---------------------------------------------------------------------------

def levels(st, out, t, DS, key):
    """Is the step of the right length?"""
    c, s = st.c, st.s0
    off = t - st.i * DS
    # the intervals a step of each level may start at, and the decision to
    # divide each of them, taken from the state at the start of the longer
    # step, is remembered in the episode walk
    mem = st.ep.setdefault('_walk', {})
    if off == 0.0:
        mem.clear()
    want = None
    d = ref.Dec()
    near = False
    for lv in range(3):
        if lv == 2:
            want = 2
            break
        start = math.floor(off / c.dt[lv]) * c.dt[lv]
        if off == start and (lv not in mem or mem[lv][0] != start):
            b = ref.below(s, c.thr[lv], d)
            mem[lv] = (start, b)
        if lv not in mem or mem[lv][0] != start:
            want = None
            break
        if not mem[lv][1]:
            want = lv
            break
    out.count('P06', key, st.s0['layer_count'] > 0,
              lambda: dict(t=st.t0, dt=st.dt, level=st.level,
                           m_s_0=s['m_s_0'], m_s_l=s['m_s_l']))
    out.tag('level%d' % st.level)
    # (levels may be of the same length)
    if want != st.level and (want is None or c.dt[want] != c.dt[st.level]):
        out.violation('P06', 'time step of level %s, expected level %s' % (
            st.level, want), st.ep, **st.brief())
        # resynchronise on what was done
        for lv in range(3):
            start = math.floor(off / c.dt[lv]) * c.dt[lv]
            mem[lv] = (start, lv < st.level)
    out.tag('layers%d->%d' % (s['layer_count'], st.rec['layer_count']))


# ---------------------------------------------------------------------------

def variants(t, exact):
    """values of a temperature that rounding can not tell apart"""
    if abs(t - FREEZE) > 1e-9 or (exact and t != FREEZE):
        return (t,)
    if exact:
        return (t,)
    return (t, FREEZE, FREEZE + 1e-10, FREEZE - 1e-10)


def energy(st, out, key, warm):
    r, s, f, c, p, ep = st.rec, st.s0, st.f, st.c, st.p, st.ep
    o = {n: r[n + '_bar'] for n in ENERGY}
    ea = f['e_a']
    if s['layer_count'] == 0:
        z = [n for n in ENERGY if o[n] != 0]
        out.count('P02', key, False)
        if z:
            out.violation('P02', 'no snow, but %s not 0' % z, ep,
                          **st.brief())
        return warm, ea
    # closure
    terms = ('R_n', 'H', 'L_v_E', 'M')
    tol = RT * (sum(abs(o[n]) for n in terms) + abs(o['G']) + abs(o['G_0'])
                ) + 1e-9
    b = sum(o[n] for n in terms)
    out.count('P02', key, True, lambda: dict(o, t=st.t0, dt=st.dt))
    if not close(o['delta_Q_0'], b + o['G_0'], tol):
        out.violation('P02', 'delta_Q_0 is not the sum of its terms', ep,
                      got=o['delta_Q_0'], want=b + o['G_0'], **st.brief())
    if not close(o['delta_Q'], b + o['G'], tol):
        out.violation('P02', 'delta_Q is not the sum of its terms', ep,
                      got=o['delta_Q'], want=b + o['G'], **st.brief())
    if s['layer_count'] == 1 and o['G'] != o['G_0']:
        if not close(o['G'], o['G_0'], tol):
            out.violation('P02', 'one layer, but G_0 is not G', ep,
                          **st.brief())
    # radiation, conduction, advection
    f_ = dict(f)
    ok_g = False
    for tg in variants(f['t_g'], st.exact):
        f_['t_g'] = tg
        e = ref.energy(s, f_, p, st.dt, c)
        tg_ = abs(e['G']) * RT + 1e-7
        tg0 = abs(e['G_0']) * RT + 1e-7
        if close(o['G'], e['G'], tg_) and close(o['G_0'], e['G_0'], tg0):
            ok_g = True
            break
    out.count('P13', key, True, lambda: dict(
        G=o['G'], G_0=o['G_0'], t_g=f['t_g'], t_s_0=s['t_s_0'],
        t_s_l=s['t_s_l'], layers=s['layer_count']))
    if not ok_g:
        out.violation('P13', 'conduction', ep, want_G=e['G'],
                      want_G_0=e['G_0'], **st.brief())
        if not st.exact:
            out.violation('P07', 'conduction does not fit the interpolated '
                          'soil temperature', ep, want_G=e['G'],
                          **st.brief())
    sc = abs(f['S_n']) + abs(f['I_lw']) + 400.0
    out.count('P14', key, f['S_n'] > 0 or p['now'], lambda: dict(
        R_n=o['R_n'], M=o['M'], S_n=f['S_n'], I_lw=f['I_lw'],
        t_s_0=s['t_s_0'], precip=p if p['now'] else 0))
    bad_r = not close(o['R_n'], e['R_n'], sc * RT)
    bad_m = not close(o['M'], e['M'], abs(e['M']) * 1e-7 + sc * RT)
    if bad_r:
        out.violation('P14', 'net radiation', ep, want=e['R_n'],
                      **st.brief())
    if bad_m:
        out.violation('P14', 'advected heat', ep, want=e['M'], **st.brief())
        out.violation('P09', 'advected heat', ep, want=e['M'], **st.brief())
    out.count('P07', key, st.frac > 0, lambda: dict(
        t=st.t0, frac=st.frac, forcing=f, R_n=o['R_n'], M=o['M']))
    if (bad_r and not st.exact) or (bad_m and st.dt < DSof(st)):
        out.violation('P07', 'radiation or advected heat do not fit the '
                      'interpolated forcing', ep, want=e, **st.brief())
    if p['now']:
        out.tag('M rain' if p['m_rain'] else 'M snow')
    # turbulent transfer, with the vapor pressure limited to saturation (which
    # is not continuous at freezing)
    best = None
    for ta in variants(f['t_a'], st.exact):
        sat = ref.sati(ta)
        clip = ea > sat and abs(ea - sat) >= 1e-9 * sat
        e_in = sat if clip else ea
        got = turbulent(st, key, warm, ta, e_in, o)
        if best is None or (got[1] and not best[0][1]):
            best = got, e_in, clip
        if got[1]:
            break
    (w, ok, tags, bad), e_in, clip = best
    for x in tags:
        out.tag(x)
    if clip:
        out.tag('e_a clipped')
    hz = 0.0 if c.relative else s['z_s']
    out.count('P11', key, f['u'] > 0, lambda: dict(
        H=o['H'], L_v_E=o['L_v_E'], t_a=f['t_a'], t_s_0=s['t_s_0'],
        e_a=e_in, u=f['u'], z_t=c.z_t - hz))
    if not ok:
        what, detail = bad
        detail.update(st.brief())
        out.violation('P11', what, ep, **detail)
        if not st.exact:
            out.violation('P07', what + ' (for the interpolated forcing)',
                          ep, **detail)
    return w, e_in


def DSof(st):
    return st.ep['cfg']['data_step'] * 60.0


def turbulent(st, key, warm, ta, e_in, o):
    """warm start values, agrees, tags, what is wrong"""
    s, f, c = st.s0, st.f, st.c
    ts = s['t_s_0']
    hz = 0.0 if c.relative else s['z_s']
    a = (c.p, ta, ts, c.z_t - hz, e_in, ref.sati(ts), c.z_t - hz,
         f['u'], c.z_u - hz, c.z_0)
    tags = ['stable' if f['t_a'] > ts else 'unstable']
    if f['u'] == 0:
        tags.append('calm')
    try:
        H, LE, E, ok, w, resid, nit = ref.turbulent(*a, warm=warm)
    except ref.BadInput as e:
        return warm, False, tags, (
            'inputs of the turbulent transfer should have been rejected: '
            '%s' % e, {})
    if close(o['H'], H, 1e-6 * abs(H) + 1e-6) and close(
            o['L_v_E'], LE, 1e-6 * abs(LE) + 1e-6):
        if not ok and resid > 1e-4:
            return w, False, tags, ('no convergence, but a flux',
                                    dict(resid=resid))
        return w, True, tags, None
    # another start of the iteration may end at another solution, which is
    # fine as long as it is one
    for w2 in (None, (w[0] * 3, w[1] * 3), (w[0] / 3, w[1] / 3)):
        H2, LE2, E2, ok2, w2, res2, _ = ref.turbulent(*a, warm=w2)
        if ok2 and close(o['H'], H2, 2e-4 * abs(H2) + 1e-3) and close(
                o['L_v_E'], LE2, 2e-4 * abs(LE2) + 1e-3):
            return w2, True, tags + ['other solution'], None
    return w, False, tags, ('turbulent fluxes are not a solution',
                            dict(want_H=H, want_L_v_E=LE))


# ---------------------------------------------------------------------------

def compare(s1, o, x, st, obs):
    """names of the fields that differ from the reference"""
    r, s0, p = st.rec, st.s0, st.p
    m = abs(s0['m_s']) + p['m_pp'] + abs(s1['m_s']) + 1e-3
    z = abs(s0['z_s']) + p['z_snow'] + abs(s1['z_s']) + 1e-6
    water = abs(s0['h2o']) + p['m_pp'] + o['melt'] + abs(o['swi'])
    q = (abs(obs['delta_Q_0']) + abs(obs['G']) + abs(obs['G_0'])) * st.dt + \
        abs(s0['cc_s_0']) + abs(s0['cc_s_l']) + ref.LF0 * water + 1.0
    tq = RT * q
    diff = []
    for k, tol in (('m_s', m), ('m_s_0', m), ('m_s_l', m), ('h2o', m),
                   ('h2o_max', m), ('z_s', z), ('z_s_0', z), ('z_s_l', z),
                   ('rho', 600.0)):
        if abs(r[k] - s1[k]) > RT * tol:
            diff.append(k)
    for k in ('cc_s_0', 'cc_s_l'):
        if abs(r[k] - s1[k]) > tq:
            diff.append(k)
    if s1['layer_count'] != r['layer_count']:
        diff.append('layer_count')
    tt = 1e-7
    for k, mk in (('t_s_0', 'm_s_0'), ('t_s_l', 'm_s_l'), ('t_s', 'm_s')):
        if abs(r[k] - s1[k]) > tt + tq / (1500.0 * max(s1[mk], 0.1)):
            diff.append(k)
    hm = max(abs(s1['h2o_max']), 1e-3)
    if abs(r['h2o_sat'] - s1['h2o_sat']) > RT * 10 * m / hm:
        diff.append('h2o_sat')
    if abs(r['h2o_vol'] - s1['h2o_vol']) > RT * 10 * m / hm:
        diff.append('h2o_vol')
    if abs(r['melt_sum'] - o['melt']) > tq / ref.LF0 + 1e-12:
        diff.append('melt')
    if abs(r['E_s_sum'] - o['E_s']) > RT * 100 * (
            abs(x.get('to_air', 0.0)) + abs(x.get('to_soil', 0.0))) + 1e-13:
        diff.append('E_s')
    if abs(r['swi_sum'] - o['swi']) > RT * m:
        diff.append('swi')
    return diff


def attempt(st, obs):
    """Reference result of the step; retries with the comparisons inverted
    that rounding decides."""
    f = st.f
    best = None
    for tg in variants(f['t_g'], st.exact):
        f_ = dict(f, t_g=tg)
        s1, o, x, d = ref.step(st.s0, f_, st.p, st.dt, st.c, obs)
        diff = compare(s1, o, x, st, obs)
        if not diff:
            return s1, o, x, d, diff, False
        if best is None or len(diff) < len(best[4]):
            best = (s1, o, x, d, diff, False)
        tried = 0
        todo = [(n[0],) for n in d.near]
        seen = set(todo)
        while todo and tried < 24:
            flip = todo.pop(0)
            tried += 1
            try:
                s2, o2, x2, d2 = ref.step(st.s0, f_, st.p, st.dt, st.c, obs,
                                          flip)
            except ZeroDivisionError:
                continue
            df = compare(s2, o2, x2, st, obs)
            if not df:
                return s2, o2, x2, d2, df, True
            for n in d2.near:
                fl = tuple(sorted(set(flip) | set((n[0],))))
                if fl not in seen and len(fl) <= 3:
                    seen.add(fl)
                    todo.append(fl)
    return best


LAYER = ('z_s_0', 'z_s_l', 'layer_count', 'm_s_0', 'm_s_l')
WATER = ('swi', 'h2o', 'h2o_sat', 'h2o_max', 'h2o_vol')
HEAT = ('melt', 'cc_s_0', 'cc_s_l', 't_s_0', 't_s_l', 't_s')


def mass(st, out, key):
    r, s0, p, c, ep = st.rec, st.s0, st.p, st.c, st.ep
    obs = {n: r[n + '_bar'] for n in ('L_v_E', 'G', 'G_0', 'delta_Q_0',
                                      'delta_Q')}
    try:
        s1, o, x, d, diff, flipped = attempt(st, obs)
    except (ZeroDivisionError, ValueError, OverflowError) as e:
        # the reference can't follow: the state it was given is impossible
        out.violation('P04', 'state the model can not continue from: %r' % e,
                      ep, **st.brief())
        return
    st.x = x
    if flipped:
        out.tag('decided by rounding')
    want = None
    if diff:
        want = dict({k: s1[k] for k in STATE_FIELDS}, melt=o['melt'],
                    E_s=o['E_s'], swi=o['swi'])
        first = diff
        # which process: take the observed melt, then the observed
        # evaporation and see what remains
        ov = dict(obs)
        rest = diff
        if 'melt' in diff:
            ov['melt'] = r['melt_sum']
        if 'E_s' in diff:
            ov['E_s'] = r['E_s_sum']
        if len(ov) > len(obs):
            try:
                s1, o, x, d, rest, flipped = attempt(st, ov)
            except (ZeroDivisionError, ValueError, OverflowError):
                rest = diff
        props = set()
        if 'melt' in first:
            props.add('P03')
        if 'E_s' in first:
            props.add('P16')
        for k in rest:
            if k in HEAT:
                props.add('P03')
                # of a layer that formed or disappeared
                if s0['layer_count'] != r['layer_count'] or x['split'] or \
                        x['merge']:
                    props.add('P05')
            elif k in WATER:
                props.add('P17')
                # the water that evaporates, the water that is in the
                # precipitation
                if x['cover0']:
                    props.add('P16')
            elif k in LAYER:
                props.add('P05')
            elif k in ('rho', 'z_s'):
                props.add('P15')
                if x['cover0'] and r['E_s_sum'] != 0:
                    props.add('P16')
        if 'm_s' in rest:
            props.add('P16' if not p['now'] else 'P10')
        if p['now']:
            props.add('P10')
            props.add('P09')
        if x['vanish'] or (x['cover0'] and r['layer_count'] == 0):
            props.add('P25')
        if x['fresh'] or (not x['cover0'] and r['layer_count'] > 0):
            props.add('P25')
            props.add('P10')
        if st.k == 0:
            props.add('P26')
        if st.dt < DSof(st) and p['now'] and 'm_s' in first:
            props.add('P07')
        if not x['cover0'] and not x['fresh'] and p['now']:
            props.add('P07')
        for pr in props:
            out.violation(pr, 'differs from the specified step: %s' %
                          ','.join(first), ep, want=want, **st.brief())

    # what was seen
    cover = s0['layer_count'] > 0
    wet = o['h2o_total'] > 0 or s0['h2o'] > 0
    brief = lambda: dict(t=st.t0, dt=st.dt, m_s=[s0['m_s'], r['m_s']],  # noqa
                         rho=[s0['rho'], r['rho']], melt=r['melt_sum'],
                         E_s=r['E_s_sum'], swi=r['swi_sum'], h2o=r['h2o'],
                         t_s_0=[s0['t_s_0'], r['t_s_0']],
                         cc_s_0=[s0['cc_s_0'], r['cc_s_0']],
                         precip=p if p['now'] else None)
    out.count('P03', key, cover and (x['melt'] > 0 or x['refrozen'] > 0 or
                                     r['cc_s_0'] < 0), brief)
    out.count('P05', key, cover and (
        r['layer_count'] == 2 or s0['layer_count'] != r['layer_count']),
        brief)
    out.count('P10', key, p['now'], brief)
    out.count('P09', key, p['now'], brief)
    out.count('P15', key, cover, brief)
    out.count('P16', key, cover and r['E_s_sum'] != 0, brief)
    out.count('P17', key, cover and wet, brief)
    out.count('P25', key, bool(x['vanish'] or x['fresh']), brief)
    if st.k == 0:
        out.count('P26', key, cover, lambda: dict(
            init=ep['init'], start=s0, first=brief()))
    if x['melt'] > 0:
        out.tag('melt')
    if x['refrozen'] > 0:
        out.tag('refreeze')
    if r['swi_sum'] > 0:
        out.tag('runoff')
    if x['vanish']:
        out.tag('vanish in ' + x['vanish'])
    if x['fresh']:
        out.tag('fresh snow on bare ground')
    if x['gone']:
        out.tag('all evaporates')
    if x['split']:
        out.tag('split')
    if x['merge']:
        out.tag('merge')
    if x['clip']:
        out.tag('density clipped')
    if p['now']:
        out.tag('precip %s%s on %s' % (
            'snow' if p['m_snow'] else '', 'rain' if p['m_rain'] else '',
            'snow' if cover else 'bare'))
    if s0['m_s'] >= ref.SWE_MAX:
        out.tag('SWE above SWE_MAX')
    if s0['rho'] >= 550:
        out.tag('rho above 550')

    # conservation of mass, from the observations alone
    balance = r['m_s'] - s0['m_s'] - p['m_pp'] - r['E_s_sum'] + r['swi_sum']
    tol = RT * (s0['m_s'] + p['m_pp'] + r['m_s'] + 1e-3)
    out.count('P01', key, cover or p['now'], lambda: dict(
        t=st.t0, m_s=[s0['m_s'], r['m_s']], precip=p['m_pp'],
        E_s=r['E_s_sum'], swi=r['swi_sum'], residual=balance))
    if not close(balance, 0.0, tol):
        # snow that falls on bare ground (bare at the start of the step, or
        # since earlier in the step)
        fresh = r['layer_count'] > 0 and p['m_snow'] > 0 and p['sat'] > 0 \
            and (not cover or x['fresh'])
        if fresh and close(balance, r['h2o'], tol) and r['h2o'] > 0:
            out.known_finding('P01', 'first-wet-snow', dict(
                t=st.t0, precip=p, m_s=r['m_s'], h2o=r['h2o'],
                swi=r['swi_sum'], excess=balance))
        else:
            out.violation('P01', 'mass is not conserved', ep,
                          residual=balance, **st.brief())
    # energy of phase change, from the observations alone
    if cover and r['layer_count'] > 0 and not x['split'] and not x['merge'] \
            and not x['vanish'] and not x['fresh']:
        dQ = obs['delta_Q'] if s0['layer_count'] == 2 else obs['delta_Q_0']
        cc0 = s0['cc_s_0'] + s0['cc_s_l']
        cc1 = r['cc_s_0'] + r['cc_s_l']
        # heat that was not stored as cold content melted snow, what was
        # refrozen released heat
        refrozen = (cc1 - cc0 - dQ * st.dt) / ref.LF0 + r['melt_sum']
        avail = s0['h2o'] + (p['m_rain'] if p['now'] else 0.0) + \
            r['melt_sum'] + (r['h2o'] + r['swi_sum'] if p['now'] else 0.0)
        tol = RT * (abs(dQ) * st.dt + abs(cc0) + abs(cc1)) / ref.LF0 + \
            RT * (avail + 1e-3)
        if refrozen < -tol or (not p['now'] and refrozen > avail + tol):
            out.violation('P03', 'heat is not conserved', ep,
                          refrozen=refrozen, available=avail, **st.brief())


# ---------------------------------------------------------------------------

def invariants(st, out, key):
    """What must hold in every reported state."""
    r, c, ep = st.rec, st.c, st.ep
    bad = []
    z = RT * (abs(r['z_s']) + 1e-6)
    m = RT * (abs(r['m_s']) + 1e-3)
    n = r['layer_count']
    if not close(r['z_s'], r['z_s_0'] + r['z_s_l'], z):
        bad.append('z_s is not z_s_0 + z_s_l')
    if not close(r['m_s'], r['m_s_0'] + r['m_s_l'], m):
        bad.append('m_s is not m_s_0 + m_s_l')
    if not close(r['m_s'], r['rho'] * r['z_s'], m):
        bad.append('m_s is not rho * z_s')
    if not close(r['m_s_0'], r['rho'] * r['z_s_0'], m):
        bad.append('m_s_0 is not rho * z_s_0')
    if not close(r['m_s_l'], r['rho'] * r['z_s_l'], m):
        bad.append('m_s_l is not rho * z_s_l')
    if not close(r['cc_s'], r['cc_s_0'] + r['cc_s_l'],
                 RT * (abs(r['cc_s']) + 1)):
        bad.append('cc_s is not cc_s_0 + cc_s_l')
    for k in ('z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l', 'rho',
              'h2o', 'h2o_max', 'melt_sum', 'swi_sum',
              'h2o_vol', 'h2o_sat'):
        if r[k] < 0:
            bad.append(k + ' < 0')
    if r['rho'] > ref.MAX_RHO * (1 + RT):
        bad.append('rho above the maximum')
    if r['cc_s_0'] > 0 or r['cc_s_l'] > 0:
        bad.append('cold content > 0')
    if r['h2o_sat'] > 1 + RT:
        bad.append('saturation > 1')
    if r['h2o_vol'] > c.max_h2o * (1 + RT):
        bad.append('h2o_vol above the maximum')
    if n not in (0, 1, 2) or n != (r['z_s_0'] > 0) + (r['z_s_l'] > 0):
        bad.append('layer_count does not fit the layers')
    elif n == 0:
        for k in ('z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l', 'rho',
                  'cc_s_0', 'cc_s_l', 'cc_s', 'h2o', 'h2o_max', 'h2o_sat',
                  'h2o_vol'):
            if r[k] != 0:
                bad.append('no snow, but ' + k)
        for k in ('t_s', 't_s_0', 't_s_l'):
            if not close(r[k], T_NONE, 1e-6):
                bad.append('no snow, but ' + k)
    else:
        for k in ('t_s', 't_s_0'):
            if not r[k] <= FREEZE + 1e-9:
                bad.append(k + ' above freezing')
        if r['m_s'] <= 0 or r['z_s'] <= 0 or r['rho'] <= 0:
            bad.append('a layer without mass')
        if n == 1:
            if r['z_s_l'] != 0 or r['m_s_l'] != 0 or r['cc_s_l'] != 0:
                bad.append('one layer, but something in the lower one')
            if not close(r['t_s_l'], T_NONE, 1e-6):
                bad.append('one layer, but t_s_l')
            if not close(r['t_s'], r['t_s_0'], 1e-9):
                bad.append('one layer, but t_s is not t_s_0')
        else:
            if not r['t_s_l'] <= FREEZE + 1e-9:
                bad.append('t_s_l above freezing')
            if not close(r['z_s_0'], c.max_active, 1e-9):
                bad.append('two layers, but the active one is not of the '
                           'maximum depth')
        if not close(r['h2o_vol'], r['h2o_sat'] * c.max_h2o,
                     RT * (c.max_h2o + 1e-6)):
            # a pack that was initialised in this step reports its own
            bad.append('h2o_vol is not h2o_sat of the maximum')
        if r['h2o'] > r['h2o_max'] * (1 + RT) + 1e-9:
            bad.append('more water than the snow holds')
    out.count('P04', key, n > 0, lambda: {k: v for k, v in r.items()})
    for b in bad:
        out.violation('P04', b, ep, **st.brief())


# ---------------------------------------------------------------------------

def ending(ep, res, out, c, s, t, DS, forc, ea, warm):
    """How did the episode end?"""
    n = len(forc) - 1
    err = res['error']
    if err is None:
        out.count('P23', (ep['kind'], len(res['records']), s['m_s']), True,
                  lambda: dict(kind=ep['kind'], cfg=ep['cfg'],
                               records=len(res['records'])))
        if t != n * DS:
            out.violation('P06', 'the run ended at %s s, the forcing at '
                          '%s s' % (t, n * DS), ep, records=len(
                              res['records']))
        return
    out.tag('error ' + err['msg'].split('\n')[0][:40])
    msg = err['msg']
    i = int(t // DS)
    legit = False
    why = ''
    if i + 1 < len(forc) and s['layer_count'] > 0:
        f1, f2 = forc[i], forc[i + 1]
        w = (t - i * DS) / DS
        f = {k: f1[k] + w * (f2[k] - f1[k]) for k in ('t_a', 'u')}
        if t == i * DS:
            ea = f1['e_a']
        if ea <= 0 < min(f1['e_a'], f2['e_a']) and 'press < 0' in msg:
            # an earlier step limited it to saturation, and it continued from
            # there to the next record, past zero
            out.known_finding('P23', 'limited-vapor-pressure', dict(
                t=t, e_a=ea, records=[f1['e_a'], f2['e_a']], error=msg))
            return
        ea = min(ea, ref.sati(f['t_a']))
        hz = 0.0 if c.relative else s['z_s']
        try:
            x = ref.turbulent(c.p, f['t_a'], s['t_s_0'], c.z_t - hz, ea,
                              ref.sati(s['t_s_0']), c.z_t - hz, f['u'],
                              c.z_u - hz, c.z_0, warm=warm)
            legit = (not x[3] or x[5] > 1e-7) and 'converge' in msg
            why = 'ok=%s resid=%g' % (x[3], x[5])
        except ref.BadInput as e:
            legit = True
            why = str(e)
        except (ValueError, OverflowError, ZeroDivisionError) as e:
            legit = True
            why = repr(e)
    if legit:
        out.tag('rejected: ' + why.split(' ')[0])
        out.count('P23', (ep['kind'], msg[:30], t), True)
        return
    if s['layer_count'] == 2 and s['t_s_l'] < 0 and 'tk < 0' in msg and \
            not out.nviol.get('P03'):
        # the lower layer shrank, but kept its cold content
        out.known_finding('P23', 'shrinking-lower-layer', dict(
            t=t, t_s_l=s['t_s_l'], m_s_l=s['m_s_l'], cc_s_l=s['cc_s_l'],
            error=msg))
        return
    # there is no result where one is specified, which is against whatever
    # property this run is for
    for pr in set(['P23', out.prime or 'P23']):
        out.count(pr)
        out.violation(pr, 'raised %s: %s' % (err['type'], msg), ep, why=why,
                      t=t, state=s, tb=err.get('tb'))
