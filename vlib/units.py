"""Workloads on the building blocks of the model, judged by the formulas of
the reference.  Python 3.9 compatible, standard library only, so that a
violation can be confirmed under the Python of the repository:

    units.py SUITE SEED N RESULT.json
"""
import json
import math
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import drive            # noqa
import gen              # noqa
import mon              # noqa
import ref              # noqa
from ref import FREEZE  # noqa


class Missing(Exception):
    """the interface is not there, nothing can be said"""


def need(module, *names):
    import importlib
    try:
        m = importlib.import_module(module)
    except ImportError as e:
        raise Missing(str(e))
    out = []
    for n in names:
        if not hasattr(m, n):
            raise Missing('%s.%s' % (module, n))
        out.append(getattr(m, n))
    return out if len(out) > 1 else out[0]


def rel(a, b, tol=1e-9, floor=0.0):
    return abs(a - b) <= tol * max(abs(a), abs(b), floor)


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except TypeError as e:
        if 'argument' in str(e):
            # called in another way now: nothing can be said
            raise Missing('%s: %s' % (getattr(f, '__name__', f), e))
        return None, e
    except Exception as e:          # noqa
        return None, e


# ---------------------------------------------------------------------------

def layers(out, r, n):
    """P05: SnowState.calc_layers, with exact (dyadic) numbers"""
    SnowState = need('pysnobal.point', 'SnowState')
    for k in range(n):
        ma = r.choice([0.25, 0.125, 0.5, 0.0625, r.randrange(1, 64) / 64.0])
        thr = r.choice([1, 1, 2, 4, 0.5, 10])
        rho = float(r.choice([64, 128, 256, 512, 32, 100, 300]))
        how = r.randrange(8)
        if how == 0:
            z = 0.0
        elif how == 1:
            z = thr / rho                       # exactly the threshold
        elif how == 2:
            z = thr / rho * r.choice([0.5, 0.9375, 1.0625, 2])
        elif how == 3:
            z = ma
        elif how == 4:
            z = ma + thr / rho                  # lower layer: threshold
        elif how == 5:
            z = ma + thr / rho * r.choice([0.5, 0.9375, 1.0625, 2])
        elif how == 6:
            z = ma * r.choice([0.5, 0.96875, 1.03125, 2])
        else:
            z = r.uniform(0, 3)
        m = rho * z
        s = SnowState(max_z_s_0=ma, small_threshold=thr)
        s.rho, s.z_s, s.m_s = rho, z, m
        # whatever it was before must not matter
        prev = r.choice([(0, 0), (0.1, 0), (ma, 0.3)])
        s.z_s_0, s.z_s_l = prev
        if r.random() < 0.5:
            s.layer_count
        s.calc_layers()
        if m <= thr:
            want = (0.0, 0.0)
        elif z > ma and not (z - ma) * rho < thr:
            want = (ma, z - ma)
        else:
            want = (z, 0.0)
        near = z != 0 and (abs(m - thr) < 1e-9 * thr or abs(
            (z - ma) * rho - thr) < 1e-9 * thr * (1 + rho)) and (
                math.log(rho, 2) % 1 != 0)
        got = (float(s.z_s_0), float(s.z_s_l))
        nl = (want[0] > 0) + (want[1] > 0)
        case = dict(max_z_s_0=ma, small_threshold=thr, rho=rho, z_s=z,
                    previous=prev, got=got, want=want,
                    layer_count=int(s.layer_count))
        out.count('P05', ('calc', ma, thr, rho, z), nl > 0, case)
        if near:
            continue
        ok = all(rel(a, b, 1e-12) for a, b in zip(got, want)) and \
            s.layer_count == nl and rel(float(s.z_s), sum(want), 1e-12)
        if not ok:
            out.violation('P05', 'layers of a snowcover', None, **case)
        s.layer_mass()
        if not (rel(s.m_s_0, rho * want[0], 1e-12) and
                rel(s.m_s_l, rho * want[1], 1e-12)):
            out.violation('P05', 'masses of the layers', None, m_s_0=s.m_s_0,
                          m_s_l=s.m_s_l, **case)


# ---------------------------------------------------------------------------

PNUM = ('m_pp', 'm_snow', 'm_rain', 'z_snow', 't_rain', 't_snow')


def precip(out, r, n):
    """P09"""
    InputData = need('pysnobal.point', 'InputData')
    eps = 2.0 ** -36
    for k in range(n):
        m = r.choice([0.0, 0.0, 1e-6, 0.5, 1.0, 20.0, r.uniform(0, 40)])
        pct = r.choice([0.0, 1.0, 0.5, 1e-6, 1 - 1e-6, 0.25, r.random()])
        rho = r.choice([0.0, 50.0, 100.0, 300.0, r.uniform(20, 500), -1.0])
        t = r.choice([FREEZE, FREEZE - eps, FREEZE + eps, FREEZE - 0.01,
                      FREEZE + 0.01, FREEZE + 5, FREEZE - 12,
                      r.uniform(235, 290)])
        d = dict(S_n=100.0, I_lw=250.0, t_a=270.0, e_a=300.0, u=2.0,
                 t_g=273.16, m_pp=m, percent_snow=pct, rho_snow=rho, t_pp=t)
        before = dict(d)
        x, err = attempt(InputData, d)
        try:
            w = ref.classify_precip(m, pct, rho, t)
        except ref.BadInput:
            w = None
        case = dict(m_pp=m, percent_snow=pct, rho_snow=rho, t_pp=t)
        out.count('P09', ('p', m, pct, rho, t), m > 0, case)
        if d != before:
            out.violation('P09', 'the record that was passed was changed',
                          None, **case)
        if w is None:
            if err is None:
                out.violation('P09', 'snow without density was not rejected',
                              None, **case)
            continue
        if err is not None:
            out.violation('P09', 'valid precipitation raised %r' % err, None,
                          **case)
            continue
        if not m > 0 and (x.precip_now or x.m_pp != m):
            out.violation('P09', 'precipitation without an amount', None,
                          **case)
        if not m > 0:
            continue
        bad = [f for f in PNUM if not rel(getattr(x, f), w[f], 1e-12, 1e-12)]
        if not rel(x.h2o_sat_snow, w['sat'], 1e-12):
            bad.append('h2o_sat_snow')
        if bool(x.precip_now) != w['now']:
            bad.append('precip_now')
        if bad:
            out.violation('P09', 'classification: %s' % bad, None,
                          want=w, got={f: getattr(x, f) for f in PNUM},
                          **case)


def precip_shares(out, r, n):
    """P07: the shares of a record over its time steps"""
    InputData, InputDeltas = need('pysnobal.point', 'InputData',
                                  'InputDeltas')
    names = ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g')
    for k in range(n):
        def rec():
            ta = r.uniform(240, 290)
            pct = r.choice([0.0, 1.0, 0.5, r.random()])
            return dict(S_n=r.uniform(0, 800), I_lw=r.uniform(100, 400),
                        t_a=ta, e_a=r.uniform(10, 900), u=r.uniform(0, 15),
                        t_g=r.uniform(260, 280), m_pp=r.choice(
                            [0.0, 1.0, r.uniform(0, 20)]),
                        percent_snow=pct, rho_snow=r.uniform(50, 400),
                        t_pp=r.uniform(260, 280))
        a, b = rec(), rec()
        per = [r.choice([1, 1, 2, 3]), 0, 0]
        per[1] = per[0] * r.choice([2, 4, 5])
        per[2] = per[1] * r.choice([2, 3, 15])
        info = [dict(level=i, intervals_per_timestep=p)
                for i, p in enumerate(per)]
        x1, x2 = InputData(dict(a)), InputData(dict(b))
        try:
            d = InputDeltas(x1, x2, info).calculate()
        except Exception as e:      # noqa
            raise Missing('InputDeltas: %r' % e)
        w = ref.classify_precip(a['m_pp'], a['percent_snow'], a['rho_snow'],
                                a['t_pp'])
        bad = []
        for i, p in enumerate(per):
            for f in names:
                if not rel(getattr(d[i], f), (b[f] - a[f]) / p, 1e-9, 1e-9):
                    bad.append((i, f))
            for f in ('m_pp', 'm_snow', 'm_rain', 'z_snow'):
                if not rel(getattr(d[i], f), w[f] / p, 1e-9, 1e-12):
                    bad.append((i, f))
        case = dict(first=a, second=b, intervals=per)
        out.count('P07', ('d', k, a['S_n'], b['S_n']), True, case)
        if bad:
            out.violation('P07', 'deltas between two records: %s' % bad[:6],
                          None, **case)


# ---------------------------------------------------------------------------

def turb_case(r):
    ts = r.choice([FREEZE, FREEZE, FREEZE - r.expovariate(0.2),
                   FREEZE - 1e-9, FREEZE + r.uniform(0, 8),
                   r.uniform(235, 273)])
    elev = r.choice([0.0, 2061.0, 3400.0, r.uniform(-400, 5500)])
    p = ref.pressure(elev)
    za = r.choice([5.0, 3.0, 10.0, 20.0, 1.0, r.uniform(0.5, 30)])
    zu = r.choice([za, 5.0, 10.0, r.uniform(0.5, 30)])
    zq = r.choice([za, za, r.uniform(0.5, 30)])
    z0 = r.choice([0.005, 0.001, 0.0001, 0.01, r.uniform(1e-4, 1e-2),
                   r.uniform(0.01, 0.08)])
    ta = ts + r.choice([0.0, -5.0, 5.0, 0.01, -0.01, r.gauss(0, 6),
                        -ref.DALR * za])
    u = r.choice([0.0, 0.3, 1.0, 3.0, 8.0, 20.0, r.uniform(0, 15)])
    es = ref.sati(ts)
    ea = r.choice([ref.satw(ta) * r.uniform(0.1, 1.0), es,
                   ref.satw(ta) + r.uniform(0, 24.9), ref.sati(ta),
                   ref.satw(ta) * r.uniform(0.5, 1.0)])
    return [p, ta, ts, za, max(ea, 0.5), es, zq, u, zu, z0]


NAMES = ('press', 'air_temp', 'surface_temp', 'za', 'ea', 'es', 'zq',
         'wind_speed', 'zu', 'z0')


def fluxes(out, r, n):
    """P11: hle1"""
    hle1 = need('pysnobal.point.libsnobal', 'hle1')
    warm = None
    for k in range(n):
        a = turb_case(r)
        kw, w0 = {}, None
        how = r.random()
        if how < 0.3 and warm:
            w0 = warm
        elif how < 0.45:
            w0 = (r.uniform(0.01, 2), r.uniform(0.005, 1.0))
        elif how < 0.5 and warm:
            w0 = (0.0, 0.0)
        if w0:
            kw = dict(init_ustar=w0[0], init_factor=w0[1])
        case = dict(zip(NAMES, a), start=w0)
        out.count('P11', tuple(a), a[7] > 0, case)
        got, err = attempt(hle1, *a, **kw)
        try:
            H, LE, E, ok, w, resid, nit = ref.turbulent(*a, warm=w0)
        except (ZeroDivisionError, OverflowError):
            continue
        except ref.BadInput as e:
            if err is None:
                out.violation('P11', 'input out of the domain was not '
                              'rejected: %s' % e, None, **case)
            continue
        if err is not None:
            out.violation('P11', 'raised %r' % err, None, **case)
            continue
        h, le, e, status, us, fac = [float(v) for v in got]
        warm = (us, fac)
        out.tag('hle1 ' + ('calm' if a[7] == 0 else 'neutral' if
                           a[1] + ref.DALR * a[3] == a[2] else
                           'stable' if a[1] + ref.DALR * a[3] > a[2] else
                           'unstable'))
        if status != 0:
            if ok and resid < 1e-7:
                out.violation('P11', 'converged, but the status is %s' %
                              status, None, resid=resid, **case)
            out.tag('hle1 no convergence')
            continue
        tol = 1e-6
        agree = rel(h, H, tol, 1e-3) and rel(le, LE, tol, 1e-3) and \
            rel(e, E, tol, 1e-9)
        if not agree:
            for w1 in (None, (w[0] * 3, w[1] * 3), (w[0] / 3, w[1] / 3)):
                H2, LE2, E2, ok2, w2, _, _ = ref.turbulent(*a, warm=w1)
                if ok2 and rel(h, H2, 2e-4, 5.0) and rel(le, LE2, 2e-4, 5.0):
                    agree = True
                    ok = True
                    break
        if not agree:
            out.violation('P11', 'not a solution of the flux equations',
                          None, got=[h, le, e], want=[H, LE, E], **case)
        elif not ok and resid > 1e-4:
            out.violation('P11', 'no convergence, but status 0', None,
                          resid=resid, **case)


BADS = [('z0', 0.0), ('z0', -0.1), ('za', 0.004), ('zq', 0.004),
        ('zu', 0.004), ('air_temp', 0.0), ('air_temp', -5.0),
        ('surface_temp', 0.0), ('surface_temp', -1.0), ('ea', 0.0),
        ('ea', -3.0), ('es', 0.0), ('es', -1.0), ('press', 0.0),
        ('press', -10.0), ('ea', 'press'), ('es', 'press'),
        ('ea', 'oversat'), ('ea', 'thin'), ('es', 'thin'), ('za', 'z0'), ('zu', 'z0'), ('zq', 'z0'),
        ('za', 'd0'), ('zu', 'd0'), ('zq', 'd0')]


def rejects(out, r, n):
    """P11, P23: inputs out of the domain"""
    hle1 = need('pysnobal.point.libsnobal', 'hle1')
    for k in range(n):
        a = dict(zip(NAMES, turb_case(r)))
        a['z0'] = 0.005
        name, v = BADS[k % len(BADS)] if k < 2 * len(BADS) else r.choice(BADS)
        if v == 'thin':
            # so little air that saturation is above its pressure
            a['air_temp'] = r.uniform(275.0, 300.0)
            a['press'] = ref.satw(a['air_temp']) * r.uniform(0.5, 0.999)
            a['es'] = a['ea'] = 0.5 * a['press']
            v = a['press'] * r.choice([1.0, 1.0, 1.0001])
        elif v == 'press':
            v = a['press'] * r.choice([1.0, 1.1])
        elif v == 'z0':
            v = a['z0'] * r.choice([1.0, 0.5])
        elif v == 'd0':
            # above the roughness length, below the origin of the profile
            v = a['z0'] * (2.0 * ref.PAESCHKE / 3.0 + r.uniform(-3.0, 0.99))
        elif v == 'oversat':
            v = ref.satw(a['air_temp']) + 25.0 + r.choice([1.0, 0.5, 100.0])
        a[name] = v
        got, err = attempt(hle1, *[a[x] for x in NAMES])
        for p in ('P11', 'P23'):
            out.count(p, ('bad', name, v), True, dict(a, bad=name))
            if err is None:
                out.violation(p, 'input out of the domain was not rejected: '
                              '%s=%r' % (name, v), None, got=got, **a)


# ---------------------------------------------------------------------------

def caches(out, r, n):
    """P12: sequences of writes and reads"""
    SnowState, InputData = need('pysnobal.point', 'SnowState', 'InputData')
    special = [FREEZE, FREEZE - 1e-6, FREEZE + 1e-6, 0.0, 198.16, 250.0]

    def temp():
        return r.choice(special[:3] + special[4:] + [r.uniform(220, 290)] * 3)

    for k in range(n):
        ma, thr = 0.25, 1
        s = SnowState(max_z_s_0=ma, small_threshold=thr)
        s.t_s_0 = s.t_s_l = s.t_s = 260.0
        d = InputData(dict(
            S_n=1.0, I_lw=1.0, t_a=270.0, e_a=1.0, u=1.0, t_g=272.0,
            m_pp=0.0, percent_snow=0.0, rho_snow=0.0, t_pp=270.0))
        shadow = dict(t_s_0=260.0, t_s_l=260.0, t_a=270.0, t_g=272.0)
        hist = []
        for j in range(r.randrange(2, 12)):
            op = r.choice(['t_s_0', 't_s_l', 't_a', 't_g', 'read', 'layers',
                           'deltas', 'dict', 'temps', 'read'])
            if op in ('t_s_0', 't_s_l'):
                shadow[op] = temp()
                setattr(s, op, shadow[op])
            elif op in ('t_a', 't_g'):
                shadow[op] = temp()
                setattr(d, op, shadow[op])
            elif op == 'dict':
                v = {'t_s_0': temp(), 't_s_l': temp()}
                s.set_from_dict(v)
                shadow.update(v)
            elif op == 'deltas':
                inc = dict(S_n=0.1, I_lw=0.1, t_a=r.uniform(-2, 2), e_a=0.1,
                           u=0.1, t_g=r.uniform(-2, 2), m_pp=0.0,
                           percent_snow=0.0, rho_snow=0.0, t_pp=0.0,
                           t_rain=0.0, t_snow=0.0)
                d.add_deltas(InputData(inc))
                shadow['t_a'] = shadow['t_a'] + inc['t_a']
                shadow['t_g'] = shadow['t_g'] + inc['t_g']
            elif op == 'layers':
                rho = r.choice([100.0, 300.0])
                z = r.choice([0.0, 0.1, 0.2, 0.5, 2.0, 0.001])
                s.rho, s.z_s, s.m_s = rho, z, rho * z
                s.calc_layers()
                nl = 0 if rho * z <= thr else 1 + (
                    (z - ma) * rho >= thr)
                if s.layer_count != nl:
                    out.violation('P12', 'number of layers is stale', None,
                                  history=hist, got=s.layer_count, want=nl)
                s.layer_mass()
            elif op == 'temps':
                if s.layer_count:
                    s.cc_s_0 = -r.choice([0.0, 1e4, 1e5, 3e5])
                    s.cc_s_l = -r.choice([0.0, 1e4]) if s.layer_count == 2 \
                        else 0.0
                    s.adjust_layer_temps()
                    shadow['t_s_0'] = float(s.t_s_0)
                    shadow['t_s_l'] = float(s.t_s_l)
            hist.append(op)
            if op == 'read' or r.random() < 0.5:
                for obj, name, t in ((s, 'e_s_0', 't_s_0'),
                                     (s, 'e_s_l', 't_s_l'),
                                     (d, 'sat_vp', 't_a'),
                                     (d, 'e_g', 't_g')):
                    if r.random() < 0.3:
                        continue
                    if not shadow[t] > 0:
                        continue
                    got = getattr(obj, name)
                    want = ref.sati(shadow[t])
                    out.count('P12', (name, shadow[t], tuple(hist)), True,
                              dict(name=name, temp=shadow[t], history=hist))
                    if not rel(got, want, 1e-9):
                        out.violation(
                            'P12', '%s is not that of %s' % (name, t), None,
                            temperature=shadow[t], got=got, want=want,
                            history=hist)


def saturation(out, r, n):
    """P12, P24: sati, satw and their array forms"""
    sati, satw = need('pysnobal.point.libsnobal', 'sati', 'satw')
    ts = []
    for k in range(n):
        ts.append(r.choice([FREEZE, math.nextafter(FREEZE, 0) if hasattr(
            math, 'nextafter') else FREEZE - 1e-12, FREEZE + 1e-10,
            373.15, 198.16, r.uniform(190, 320), r.uniform(260, 285),
            r.uniform(200, 274)]))
    for t in ts:
        for f, g, name in ((sati, ref.sati, 'sati'), (satw, ref.satw,
                                                      'satw')):
            v, err = attempt(f, t)
            want = g(t)
            for p in ('P12', 'P24'):
                out.count(p, (name, t), True, dict(f=name, t=t, want=want))
                if err is not None or not rel(v, want, 1e-9):
                    out.violation(p, '%s(%r)' % (name, t), None,
                                  got=repr(err or v), want=want)
    for t in (-1.0, -0.001, -300.0):
        for f, name in ((sati, 'sati'), (satw, 'satw')):
            v, err = attempt(f, t)
            out.count('P24', (name, t), True)
            if err is None:
                out.violation('P24', '%s(%r) was not rejected' % (name, t),
                              None, got=v)
    try:
        import numpy as np
        sati_np, satw_np = need('pysnobal.point.libsnobal', 'sati_np',
                                'satw_np')
    except (ImportError, Missing):
        return
    for f, g, name in ((sati_np, ref.sati, 'sati_np'),
                       (satw_np, ref.satw, 'satw_np')):
        for shape in ((len(ts),), (len(ts) // 4, 4)):
            t = np.array(ts[:len(ts) // 4 * 4] if len(shape) == 2 else ts)
            x, err = attempt(f, t.reshape(shape).copy())
            if err is not None:
                out.violation('P24', '%s raised %r' % (name, err), None)
                continue
            out.count('P24', (name, shape), True, dict(f=name, n=len(t)))
            if x.shape != shape:
                out.violation('P24', '%s: shape of the result' % name, None)
                continue
            for a, b in zip(t.ravel(), x.ravel()):
                out.count('P24', (name, float(a)), True)
                if not rel(float(b), g(float(a)), 1e-9):
                    out.violation('P24', '%s is not the scalar function' %
                                  name, None, t=float(a), got=float(b),
                                  want=g(float(a)))


# ---------------------------------------------------------------------------

def conduction(out, r, n):
    """P13: efcon, ssxfr"""
    efcon, ssxfr = need('pysnobal.point.libsnobal', 'efcon', 'ssxfr')
    for k in range(n):
        rho = r.uniform(20, 600)
        kk = r.choice([1.65, ref.CAL_TO_J * 0.0077 * (rho / 1000.0) ** 2])
        t = r.choice([FREEZE, FREEZE - 1e-9, FREEZE + 1e-9, 270.0,
                      r.uniform(220, 290)])
        p = ref.pressure(r.uniform(-400, 5500))
        want = ref.eff_conductivity(kk, t, p)
        for arg in (None, ref.sati(t)):
            kw = {} if arg is None else dict(es_layer=arg)
            v, err = attempt(efcon, kk, t, p, **kw)
            out.count('P13', ('efcon', kk, t, p), True,
                      dict(k=kk, t=t, p=p, want=want))
            if err is not None or not rel(v, want, 1e-9):
                out.violation('P13', 'effective conductivity', None, k=kk,
                              t=t, p=p, got=repr(err or v), want=want)
        k1, k2 = r.uniform(0.01, 3), r.uniform(0.01, 3)
        t1, t2 = r.uniform(230, 285), r.choice([FREEZE, r.uniform(230, 285)])
        d1, d2 = r.choice([0.25, r.uniform(0.001, 5)]), r.uniform(0.01, 3)
        want = ref.steady_flux(k1, k2, t1, t2, d1, d2)
        v, err = attempt(ssxfr, k1, k2, t1, t2, d1, d2)
        out.count('P13', ('ssxfr', k1, k2, t1, t2), True,
                  dict(k1=k1, k2=k2, t1=t1, t2=t2, d1=d1, d2=d2))
        if err is not None or not rel(v, want, 1e-9, 1e-9):
            out.violation('P13', 'heat flux between layers', None, k1=k1,
                          k2=k2, t1=t1, t2=t2, d1=d1, d2=d2,
                          got=repr(err or v), want=want)


# ---------------------------------------------------------------------------

def formulas(out, r, n):
    """P24: scalar and array arguments"""
    try:
        import numpy as np
    except ImportError:
        np = None
    T = lambda: r.choice([FREEZE, FREEZE - 1e-6, r.uniform(200, 300),
                          r.uniform(255, 290)])  # noqa
    PR = lambda: r.uniform(55000, 103000)                               # noqa
    E = lambda: r.uniform(5, 3000)                                      # noqa
    U = lambda a, b: (lambda: r.uniform(a, b))                          # noqa
    R = ref
    table = [
        ('pysnobal.core.functions', 'hysat',
         lambda pb, tb, L, h, g, m: pb * math.exp(
             -g * m * h * 1e3 / (R.RGAS * tb)) if L == 0 else
         pb * (tb / (tb + L * h)) ** (g * m / (R.RGAS * L * 1e-3)),
         [PR, U(250, 300), lambda: r.choice([0, -6.5, -6.5, -9.0, 3.0,
                                                     r.choice([-0.5, 0.25])]),
          U(-0.2, 5.0), lambda: R.GRAVITY, lambda: R.MOL_AIR]),
        ('pysnobal.core.functions', 'k_to_c', lambda x: x - FREEZE, [T]),
        ('pysnobal.core.functions', 'cp_ice', R.cp_ice, [T]),
        ('pysnobal.core.functions', 'cp_water', R.cp_water, [T]),
        ('pysnobal.core.functions', 'time_average',
         lambda a, t, v, i: (a * t + v * i) / (t + i),
         [U(-500, 500), U(0, 7200), U(-500, 500), U(60, 3600)]),
        ('pysnobal.core.functions', 'gas_density',
         lambda p, m, t: p * m / (R.RGAS * t), [PR, lambda: R.MOL_AIR, T]),
        ('pysnobal.core.functions', 'virtual_temperature',
         lambda t, e, p: t / (1 - (1 - R.MOL_H2O / R.MOL_AIR) * (e / p)),
         [T, E, PR]),
        ('pysnobal.core.functions', 'lh_vap', R.lh_vap, [T]),
        ('pysnobal.core.functions', 'lh_fus', R.lh_fus, [T]),
        ('pysnobal.core.functions', 'lh_sub',
         lambda t: R.lh_vap(t) + R.lh_fus(t), [T]),
        ('pysnobal.core.functions', 'mix_ratio',
         lambda e, p: R.MOL_H2O / R.MOL_AIR * e / (p - e), [E, PR]),
        ('pysnobal.core.functions', 'diffusion_coef', R.diffusion, [PR, T]),
        ('pysnobal.core.functions', 'vapor_flux',
         lambda d, k, q, z: d * k * q / z,
         [U(0.5, 1.5), U(1e-6, 1e-4), U(-0.01, 0.01), U(0.05, 1)]),
        ('pysnobal.core.snow', 'h2o_left', R.water_capacity,
         [U(0, 5), U(20, 600), U(0, 0.1)]),
        ('pysnobal.core.snow', 'melt', lambda q: q / R.LF0, [U(0, 1e7)]),
        ('pysnobal.core.snow', 'new_tsno', R.new_temp,
         [U(0.5, 1000), T, U(-1e6, 0)]),
        ('pysnobal.core.snow', 'heat_stor', lambda c, m, d: c * m * d,
         [U(1500, 4300), U(0, 1000), U(-30, 10)]),
        ('pysnobal.point.libsnobal', 'spec_hum', R.spec_hum, [E, PR]),
        ('pysnobal.utils', 'hrs2min', lambda x: x * 60, [U(0, 24)]),
        ('pysnobal.utils', 'min2sec', lambda x: x * 60, [U(0, 600)]),
        ('pysnobal.utils', 'SEC_TO_HR', lambda x: x / 3600.0, [U(0, 1e5)]),
    ]
    try:
        f = need('pysnobal.utils', 'check_range')
    except Missing:
        out.tag('missing check_range')
    else:
        for k in range(n):
            a, b = sorted([r.uniform(-50, 50), r.uniform(-50, 50)])
            x = r.choice([a, b, a - 1e-6, b + 1e-6, r.uniform(a, b),
                          r.uniform(-60, 60)])
            v, err = attempt(f, x, a, b, 'a value')
            inside = a <= x <= b
            out.count('P24', ('check_range', x, a, b), True)
            if inside and (err is not None or v is not True) or \
                    not inside and err is None:
                out.violation('P24', 'check_range(%r, %r, %r)' % (x, a, b),
                              None, got=repr(err or v))
    done = 0
    for mod, name, want, gens in table:
        try:
            f = need(mod, name)
        except Missing:
            out.tag('missing ' + name)
            continue
        done += 1
        rows = []
        for k in range(n):
            a = [g() for g in gens]
            rows.append(a)
            v, err = attempt(f, *a)
            w = want(*a)
            out.count('P24', (name, tuple(a)), True,
                      dict(f=name, args=a, want=w))
            if err is not None or not rel(v, w, 1e-9, 1e-12):
                out.violation('P24', '%s(%s)' % (name, a), None,
                              got=repr(err or v), want=w)
        if np is None or name in ('hysat',):
            continue
        cols = [np.array(c) for c in zip(*rows)]
        v, err = attempt(f, *[c.copy() for c in cols])
        out.count('P24', (name, 'array', len(rows)), True)
        if err is not None or np.shape(v) != (len(rows),):
            out.violation('P24', '%s does not take arrays' % name, None,
                          got=repr(err or np.shape(v)))
            continue
        for a, b in zip(rows, v):
            if not rel(float(b), want(*a), 1e-9, 1e-12):
                out.violation('P24', '%s of an array is not that of its '
                              'elements' % name, None, args=a,
                              got=float(b), want=want(*a))
    if not done:
        raise Missing('no function')
    # snow state: dry density and conductivity
    try:
        SnowState = need('pysnobal.point', 'SnowState')
    except Missing:
        return
    for k in range(n):
        s = SnowState()
        s.rho, s.h2o_vol = r.uniform(20, 600), r.uniform(0, 0.05)
        for name, w in (('dry_snow_density', ref.dry_rho(s.rho, s.h2o_vol)),
                        ('kts', ref.CAL_TO_J * 0.0077 * (s.rho / 1e3) ** 2)):
            v = getattr(s, name, None)
            if v is None:
                continue
            out.count('P24', (name, s.rho, s.h2o_vol), True)
            if not rel(v, w, 1e-9):
                out.violation('P24', name, None, rho=s.rho,
                              h2o_vol=s.h2o_vol, got=v, want=w)


def psis(out, r, n):
    """P11: stability functions"""
    psi = need('pysnobal.point.libsnobal', 'psi')
    for k in range(n):
        z = r.choice([0.0, 1.0, 1.0 + 1e-9, -1e-9, 1e-9, 5.0, -5.0,
                      r.uniform(-20, 0), r.uniform(0, 3)])
        for code, w in (('SM', ref.psi_m(z)), ('SH', ref.psi_h(z)),
                        ('SV', ref.psi_h(z))):
            v, err = attempt(psi, z, code)
            out.count('P11', ('psi', code, z), z != 0, dict(z=z, code=code))
            if err is not None or not rel(v, w, 1e-9, 1e-9):
                out.violation('P11', 'psi(%r, %s)' % (z, code), None,
                              got=repr(err or v), want=w)


def grid(out, r, n):
    """P29: the snow state of the spatial model (needs xarray)"""
    import numpy as np
    Spatial = need('pysnobal.spatial', 'SpatialSnowState')
    try:
        import xarray as xr
    except ImportError:
        xr = None
    energy = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')

    def field(shape, f):
        a = np.array([f() for _ in range(shape[0] * shape[1])]).reshape(shape)
        if xr is not None and how:
            return xr.DataArray(a, dims=('y', 'x'))
        return a

    def cells(x):
        return [float(v) for v in np.asarray(x).ravel()]

    def judge(name, got, want, **args):
        got = cells(got)
        out.count('P29', (name, tuple(want)), True, lambda: dict(
            name=name, cells=len(want), want=want[:4]))
        out.tag('grid ' + name)
        if len(got) != len(want) or not all(
                rel(a, b, 1e-9, 1e-9) for a, b in zip(got, want)):
            out.violation('P29', '%s of a grid is not that of its cells' %
                          name, None, got=got[:12], want=want[:12], **args)

    for k in range(n):
        how = r.random() < 0.5
        shape = (r.randrange(1, 4), r.randrange(1, 5))

        def make():
            zero = field(shape, lambda: 0.0)
            return Spatial(zero)
        what = (k - 1) % 7
        if what == 6:
            # a new state
            s, err = attempt(make)
            zero = [0.0] * (shape[0] * shape[1])
            if err is not None:
                out.violation('P29', 'state of a grid: %r' % err, None)
                continue
            for f in ('rho', 'z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l',
                      't_s', 't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'h2o',
                      'h2o_sat', 'h2o_max', 'h2o_vol', 'E', 'E_s', 'melt',
                      'swi', 'E_s_sum', 'melt_sum') + energy + tuple(
                          e + '_bar' for e in energy):
                v, err = attempt(getattr, s, f)
                if err is not None:
                    out.violation('P29', 'a new state of a grid has no %s' %
                                  f, None)
                else:
                    judge('new ' + f, v, zero)
        elif what == 5:
            # nothing else in the state changes with the sums and means: not
            # this step's own values nor what was set from the same zeros
            zeros = field(shape, lambda: 0.0)
            s, err = attempt(Spatial, zeros)
            if err is not None:
                out.violation('P29', 'state of a grid: %r' % err, None)
                continue
            names = ('E_s', 'melt', 'swi') + energy
            zeroed = [f for f in names if r.random() < 0.5]
            rest = ('m_s', 'z_s', 'h2o', 'cc_s_l', 'h2o_total')
            s.set_zeros(zeroed + [rest[0]])
            other = Spatial(zeros)
            own = {}
            for f in names:
                if f not in zeroed:
                    own[f] = field(shape, lambda: r.gauss(0, 100))
                    setattr(s, f, own[f])
            before = {f: cells(getattr(s, f)) for f in names + rest}
            first, err = dict(before), None
            _, err = attempt(s.value_to_bar)
            since, dt = 3600.0, r.choice([60.0, 900.0])
            total = {f: before[f] for f in names[:3]}
            for _ in range(r.randrange(1, 3)):
                if err is None:
                    # new values for a part of them, the rest stay
                    for f in names:
                        if r.random() < 0.3:
                            setattr(s, f, field(shape, lambda: r.gauss(0, 9)))
                            before[f] = cells(getattr(s, f))
                    _, err = attempt(s.time_average, since, dt)
                    since += dt
                    total = {f: [a + b for a, b in zip(total[f], before[f])]
                             for f in total}
            if err is not None:
                out.violation('P29', 'averages of a grid: %r' % err, None)
                continue
            for f in names + rest:
                judge('unchanged ' + f, getattr(s, f), before[f],
                      zeroed=zeroed)
            for f, a in own.items():
                judge('unchanged values of ' + f, a, first[f], zeroed=zeroed)
            for f in total:
                judge(f + '_sum', getattr(s, f + '_sum'), total[f],
                      zeroed=zeroed)
            zero = [0.0] * (shape[0] * shape[1])
            for f in ('rho', 'melt'):
                judge('unchanged other ' + f, getattr(other, f), zero)
            judge('unchanged zeros', zeros, zero)
        elif what == 0:
            s, err = attempt(make)
            if err is None:
                s.rho = field(shape, lambda: r.uniform(20, 640))
                s.h2o_vol = field(shape, lambda: r.choice(
                    [0.0, 0.01, r.uniform(0, 0.1)]))
                v, err = attempt(lambda: s.dry_snow_density)
            if err is not None:
                out.violation('P29', 'dry density of a grid: %r' % err, None)
                continue
            judge('dry_snow_density', v, [
                ref.dry_rho(a, b) for a, b in zip(cells(s.rho),
                                                  cells(s.h2o_vol))])
            judge('kts', s.kts, [ref.CAL_TO_J * 0.0077 * (a / 1e3) ** 2
                                 for a in cells(s.rho)])
        elif what == 1:
            s = make()
            m = field(shape, lambda: r.uniform(1.0, 900.0))
            t = field(shape, lambda: r.uniform(230.0, FREEZE))
            c = field(shape, lambda: -r.choice([0.0, r.uniform(0, 2e6)]))
            v, err = attempt(s.new_tsno, m, t, c)
            if err is not None:
                out.violation('P29', 'new_tsno of a grid: %r' % err, None)
                continue
            judge('new_tsno', v, [ref.tsno(*x) for x in zip(
                cells(m), cells(t), cells(c))])
        elif what == 2:
            # means over the time since the last output
            s = make()
            steps = [r.choice([60.0, 900.0, 3600.0])
                     for _ in range(r.randrange(1, 7))]
            seen = {f: [] for f in energy + ('E_s', 'melt', 'swi')}
            since = 0.0
            for i, dt in enumerate(steps):
                for f in seen:
                    a = field(shape, lambda: r.gauss(0, 100))
                    setattr(s, f, a)
                    seen[f].append(cells(a))
                if i == 0:
                    _, err = attempt(s.value_to_bar)
                else:
                    _, err = attempt(s.time_average, since, dt)
                if err is not None:
                    out.violation('P29', 'averages of a grid: %r' % err, None)
                    break
                since += dt
            else:
                for f in energy:
                    judge(f + '_bar', getattr(s, f + '_bar'), [
                        sum(d * x for d, x in zip(steps, col)) / since
                        for col in zip(*seen[f])], steps=steps)
                for f in ('E_s', 'melt', 'swi'):
                    judge(f + '_sum', getattr(s, f + '_sum'), [
                        sum(col) for col in zip(*seen[f])], steps=steps)
        elif what == 3:
            s = make()
            s.rho = field(shape, lambda: r.uniform(20, 640))
            s.z_s_0 = field(shape, lambda: r.uniform(0, 0.5))
            s.z_s_l = field(shape, lambda: r.choice([0, r.uniform(0, 3)]))
            _, err = attempt(s.layer_mass)
            if err is not None:
                out.violation('P29', 'layer_mass of a grid: %r' % err, None)
                continue
            for a, b in (('m_s_0', 'z_s_0'), ('m_s_l', 'z_s_l')):
                judge(a, getattr(s, a), [x * y for x, y in zip(
                    cells(s.rho), cells(getattr(s, b)))])
            s.cc_s_0 = field(shape, lambda: -r.uniform(0, 1e6))
            s.cc_s_l = field(shape, lambda: -r.uniform(0, 1e6))
            judge('cc_s', s.cc_s, [x + y for x, y in zip(
                cells(s.cc_s_0), cells(s.cc_s_l))])
        else:
            # one cell
            s, err = attempt(Spatial, 0)
            if err is not None:
                raise Missing(repr(err))
            rho = r.choice([64.0, 128.0, 256.0, 512.0])
            z = r.choice([0.001, 0.05, 0.125, 0.5, 1.0, 4.0])
            s.rho, s.z_s, s.m_s = rho, z, rho * z
            s.calc_layers()
            s.layer_mass()
            two = s.layer_count == 2
            t0 = [r.uniform(240, FREEZE) for _ in range(3)]
            s.t_s_0, s.t_s_l, s.t_s = t0
            s.cc_s_0 = -r.choice([0.0, r.uniform(0, 2e5)])
            s.cc_s_l = -r.choice([0.0, r.uniform(0, 2e5)]) if two else 0.0
            if s.layer_count == 0:
                # nothing to adjust
                s.cc_s_0 = s.cc_s_l = 0.0
                _, err = attempt(s.adjust_layer_temps)
                if err is not None:
                    out.violation('P29', 'adjust_layer_temps: %r' % err, None)
                else:
                    for f, v in zip(('t_s_0', 't_s_l', 't_s'), t0):
                        judge('no snow ' + f, getattr(s, f), [v])
                continue
            m = (s.m_s_0, s.m_s_l, s.m_s)
            cc = (s.cc_s_0, s.cc_s_l, s.cc_s_0 + s.cc_s_l)
            # the mean is of the last cold content of the whole
            iso = cc[2] == 0
            judge('isothermal', float(bool(s.isothermal)), [float(iso)],
                  cc=cc)
            _, err = attempt(s.adjust_layer_temps)
            if err is not None:
                out.violation('P29', 'adjust_layer_temps: %r' % err, None,
                              layers=s.layer_count)
                continue
            if iso:
                w = [FREEZE] * 3
            else:
                w = [ref.tsno(a, b, c) if a else b
                     for a, b, c in zip(m, t0, cc)]
            judge('t_s_0', s.t_s_0, [w[0]], cc=cc, mass=m)
            if two:
                judge('t_s_l', s.t_s_l, [w[1]], cc=cc, mass=m)
                judge('t_s', s.t_s, [w[2]], cc=cc, mass=m)
            else:
                judge('t_s', s.t_s, [w[0]], cc=cc, mass=m)


SUITES = dict(grid=grid, layers=layers, precip=precip, precip_shares=precip_shares,
              fluxes=fluxes, rejects=rejects, caches=caches,
              saturation=saturation, conduction=conduction,
              formulas=formulas, psis=psis)


def run(suite, seed, n, keep=None, prime=None):
    out = mon.Out(keep, prime=prime)
    try:
        SUITES[suite](out, gen.rng('unit', suite, seed), n)
    except Missing as e:
        out.tag('missing: %s' % e)
    except Exception as e:          # noqa
        # what a call raises is judged where it is specified
        if suite == 'grid' and not isinstance(e, ImportError):
            out.violation('P29', 'state of a grid: raised %r' % e, None)
        out.tag('missing: %r' % e)
    return out


if __name__ == '__main__':
    drive.setup()
    o = run(sys.argv[1], sys.argv[2], int(sys.argv[3]))
    with open(sys.argv[4], 'w') as fh:
        json.dump(dict(nviol=o.nviol, n=o.n, tags=o.tags,
                       samples=o.samples, distinct={
                           k: [repr(x) for x in list(v)[:4000]]
                           for k, v in o.distinct.items()},
                       viol=[dict(property=v['property'], what=v['what'])
                             for v in o.viol]), fh)
