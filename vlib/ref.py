"""Reference model of the Snobal point model (executable specification).

Written from the published description (Marks et al. 1999, Anderson 1976, the
IPW snobal sources' documented equations), in a functional style, with plain
Python floats and its own constants.  It does not import anything of /repo.

It is used as an oracle only: given the state the real model reported at the
end of one run time step and the forcing of the next one, what must the real
model report at the end of the next one.

A `Dec` records every threshold comparison made along the way, so that a
mismatch that comes from a comparison decided by less than rounding error is
told apart from a real one.
"""
import math

FREEZE = 273.16
BOIL = 373.15
STD_LAPSE_KM = -6.5
STD_AIRTMP = 288.0
SEA_LEVEL = 101324.6
RGAS = 8314.32
GRAVITY = 9.80665
MOL_AIR = 28.9644
MOL_H2O = 18.0153
VK = 0.41
MIN_TEMP = 198.16           # -75 C
KT_MOISTSAND = 1.65
MAX_RHO = 600.0
RHO_W0 = 999.87
CP_W0 = 4217.7
RHO_ICE = 917.0
VAP_SUB = 2.501 / 2.835
CAL_TO_J = 4.186798188
EMISS = 0.98
SIGMA = 5.67032e-8
GRAV_RHO_MAX = 550.0
SWE_MAX = 2000.0
CP_AIR = 1005.0
DALR = GRAVITY / CP_AIR
PAESCHKE = 7.35
ITMAX = 50
THRESH = 1e-5
LN10 = math.log(10.0)
LOG10_SEA = math.log(SEA_LEVEL) / LN10
LOG10_6 = math.log(6.1071) / LN10

ENERGY = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')


class NoConvergence(Exception):
    pass


class BadInput(Exception):
    pass


class Dec(object):
    """Records comparisons; `flip` is a set of comparison ordinals to invert.
    """

    def __init__(self, flip=()):
        self.n = 0
        self.near = []
        self.flip = flip
        self.tags = set()

    def lt(self, a, b, tag, scale=0.0):
        r = a < b
        return self._reg(a, b, r, tag, scale)

    def le(self, a, b, tag, scale=0.0):
        r = a <= b
        return self._reg(a, b, r, tag, scale)

    def gt(self, a, b, tag, scale=0.0):
        r = a > b
        return self._reg(a, b, r, tag, scale)

    def _reg(self, a, b, r, tag, scale):
        k = self.n
        self.n += 1
        if abs(a - b) <= 1e-10 * max(abs(a), abs(b), scale):
            self.near.append((k, tag, a, b))
        if k in self.flip:
            r = not r
        self.tags.add((tag, r))
        return r


# --------------------------------------------------------------------------
# elementary physics

def pressure(elev_m):
    h = elev_m / 1000.0
    return SEA_LEVEL * (STD_AIRTMP / (STD_AIRTMP + STD_LAPSE_KM * h)) ** (
        GRAVITY * MOL_AIR / (RGAS * STD_LAPSE_KM * 1e-3))


def satw(tk):
    r = BOIL / tk
    x = (-7.90298 * (r - 1.0) + 5.02808 * math.log10(r) -
         1.3816e-7 * (10.0 ** (11.344 * (1.0 - tk / BOIL)) - 1.0) +
         8.1328e-3 * (10.0 ** (-3.49149 * (r - 1.0)) - 1.0) + LOG10_SEA)
    return 10.0 ** x


def sati(tk):
    if tk > FREEZE:
        return satw(tk)
    r = FREEZE / tk
    return 100.0 * 10.0 ** (-9.09718 * (r - 1.0) - 3.56654 * math.log10(r) +
                            0.876793 * (1.0 - tk / FREEZE) + LOG10_6)


def cp_ice(t):
    return CAL_TO_J * (0.024928 + 0.00176 * t) / 0.001


def cp_water(t):
    return CP_W0 - 2.55 * (t - FREEZE)


def lh_vap(t):
    return 2.5e6 - 2955.73 * (t - FREEZE)


def lh_fus(t):
    return 3.336e5 + 166.67 * (FREEZE - t)


LF0 = lh_fus(FREEZE)


def spec_hum(e, p):
    return e * MOL_H2O / (MOL_AIR * p + e * (MOL_H2O - MOL_AIR))


def diffusion(p, t):
    return 0.65e-4 * (SEA_LEVEL / p) * (t / FREEZE) ** 14.0


def eff_conductivity(k, t, p):
    if t > FREEZE:
        lh = lh_vap(t)
    elif t == FREEZE:
        lh = lh_vap(t) + lh_fus(t) / 2.0
    else:
        lh = lh_vap(t) + lh_fus(t)
    e = sati(t)
    q = (MOL_H2O / MOL_AIR) * e / (p - e)
    return k + lh * diffusion(p, t) * q


def steady_flux(k1, k2, t1, t2, d1, d2):
    return 2.0 * k1 * k2 * (t2 - t1) / (k2 * d1 + k1 * d2)


def water_capacity(depth, rho_dry, vol):
    return vol * depth * RHO_W0 * (RHO_ICE - rho_dry) / RHO_ICE


def cold_content(t, m):
    return cp_ice(t) * m * (t - FREEZE) if t < FREEZE else 0.0


def new_temp(m, t, cc):
    return FREEZE + cc / (m * cp_ice(t))


def psi_m(z):
    if z > 0:
        return -5.2 * min(z, 1.0)
    if z < 0:
        x = (1.0 - 16.0 * z) ** 0.25
        return (2.0 * math.log((1.0 + x) / 2.0) +
                math.log((1.0 + x * x) / 2.0) - 2.0 * math.atan(x) +
                math.pi / 2.0)
    return 0.0


def psi_h(z):
    if z > 0:
        return -5.2 * min(z, 1.0)
    if z < 0:
        x2 = math.sqrt(1.0 - 16.0 * z)
        return 2.0 * math.log((1.0 + x2) / 2.0)
    return 0.0


def turbulent(p, ta, ts, za, ea, es, zq, u, zu, z0, warm=None):
    """H, L_v_E, E, converged, (ustar, factor), residual"""
    if z0 <= 0 or zq <= z0 or zu <= z0 or za <= z0:
        raise BadInput('heights')
    if ta <= 0 or ts <= 0:
        raise BadInput('temperature')
    if ea <= 0 or es <= 0 or p <= 0 or ea >= p or es >= p:
        raise BadInput('pressure')
    eaw = satw(ta)
    if ea - 25.0 > eaw:
        raise BadInput('saturation')
    ea = min(ea, eaw)
    d0 = 2.0 * PAESCHKE * z0 / 3.0
    if min(zu, za, zq) - d0 <= z0:
        raise BadInput('heights')
    lm = math.log((zu - d0) / z0)
    lh_ = math.log((za - d0) / z0)
    lv = math.log((zq - d0) / z0)
    qd = spec_hum(ea, p) - spec_hum(es, p)
    ta = ta + DALR * za
    td = ta - ts
    tv = math.sqrt(ta * ts) / (
        1.0 - (1.0 - MOL_H2O / MOL_AIR) * (math.sqrt(ea * es) / p))
    dens = p * MOL_AIR / (RGAS * tv)
    res = 0.0
    ok = True
    if ta == ts or u == 0:
        us = VK * u / lm
        f = VK * us * dens
        e = qd * f / lv
        h = td * f * CP_AIR / lh_
        nit = 0
    else:
        us, f = warm or (None, None)
        if not us:
            us = VK * u / lm
        if not f:
            f = VK * us * dens
        e = qd * f / lv
        h = td * f * CP_AIR / lh_
        lo = float('inf')
        ok = False
        for nit in range(1, ITMAX + 1):
            last = lo
            lo = us ** 3 * dens / (
                VK * GRAVITY * (h / (ta * CP_AIR) + 0.61 * e))
            us = VK * u / (lm - psi_m(zu / lo))
            f = VK * us * dens
            e = qd * f / (lv - psi_h(zq / lo))
            h = td * f * CP_AIR / (lh_ - psi_h(za / lo))
            d = last - lo
            res = abs(d / lo)
            if abs(d) < THRESH and res < THRESH:
                ok = True
                break
        if not ok and res < THRESH:
            ok = True
    xl = lh_vap(ts)
    if ts <= FREEZE:
        xl += lh_fus(ts)
    return h, xl * e, e, ok, (us, f), res, nit


# --------------------------------------------------------------------------
# precipitation record

def classify_precip(m_pp, pct, rho_snow, t_pp):
    """Split of a precipitation record, per unit of its own amount."""
    p = dict(now=m_pp > 0, m_pp=m_pp, m_snow=m_pp * pct, rho_snow=rho_snow,
             z_snow=0.0, t_rain=0.0, t_snow=0.0, sat=0.0)
    p['m_rain'] = m_pp - p['m_snow']
    if not p['now']:
        return p
    if p['m_snow'] > 0:
        if rho_snow <= 0:
            raise BadInput('rho_snow')
        p['z_snow'] = p['m_snow'] / rho_snow
    if p['m_rain'] > 0 and t_pp < FREEZE:
        t_pp = FREEZE
    if p['m_snow'] > 0 and p['m_rain'] > 0:
        p['t_snow'], p['sat'], p['t_rain'] = FREEZE, 1.0, t_pp
    elif p['m_snow'] > 0:
        if t_pp < FREEZE:
            p['t_snow'] = t_pp
        else:
            p['t_snow'], p['sat'] = FREEZE, 1.0
    elif p['m_rain'] > 0:
        p['t_rain'] = t_pp
    return p


# --------------------------------------------------------------------------
# the model

STATE = ('z_s', 'z_s_0', 'z_s_l', 'rho', 'm_s', 'm_s_0', 'm_s_l', 't_s',
         't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_sat', 'h2o_max',
         'h2o_vol', 'layer_count')


class Cfg(object):
    def __init__(self, elev, z_u, z_t, z_g, relative, max_h2o, max_active,
                 z_0, steps, thr, data_step):
        """steps/data_step in minutes, thr in kg/m2"""
        self.p = pressure(elev)
        self.z_u, self.z_t, self.z_g = z_u, z_t, z_g
        self.relative = relative
        self.max_h2o, self.max_active, self.z_0 = max_h2o, max_active, z_0
        self.dt = [s * 60.0 for s in steps]
        self.thr = thr
        self.small = thr[2]
        # how many of each level in the next longer one / in a data step
        self.n = [int(round(data_step / float(steps[0]))),
                  steps[0] // steps[1], steps[1] // steps[2]]
        self.per = [int(round(data_step / float(s))) for s in steps]


def split_layers(s, c, d):
    if d.le(s['m_s'], c.small, 'mass<=thr'):
        z0 = zl = 0.0
    else:
        zl = s['z_s'] - c.max_active
        if d.gt(s['z_s'], c.max_active, 'depth>active'):
            z0 = c.max_active
        else:
            z0, zl = s['z_s'], 0.0
        if d.lt(zl * s['rho'], c.small, 'lower<thr'):
            z0, zl = s['z_s'], 0.0
    s['z_s'], s['z_s_0'], s['z_s_l'] = z0 + zl, z0, zl
    s['layer_count'] = int(z0 > 0) + int(zl > 0)


def masses(s):
    s['m_s_0'] = s['rho'] * s['z_s_0']
    s['m_s_l'] = s['rho'] * s['z_s_l']


def tsno(mass, t, cc):
    """temperature of a layer that was at t, of its cold content"""
    return FREEZE + cc / (mass * cp_ice(t))


def dry_rho(rho, vol):
    return (rho - vol * RHO_W0) / (1.0 - vol * RHO_W0 / RHO_ICE)


def init_pack(s, c, d):
    """Start a pack from depth, density, temperatures and saturation; returns
    the water it turns into when there is too little of it."""
    water = 0.0
    s['m_s'] = s['rho'] * s['z_s']
    split_layers(s, c, d)
    if s['layer_count'] == 0:
        water = max(s['m_s'], 0.0)
        for k in ('rho', 'm_s', 'm_s_0', 'cc_s_0', 'm_s_l', 'cc_s_l',
                  'h2o_vol', 'h2o', 'h2o_max', 'h2o_sat'):
            s[k] = 0.0
        s['t_s'] = s['t_s_0'] = s['t_s_l'] = MIN_TEMP
    else:
        masses(s)
        s['cc_s_0'] = cold_content(s['t_s_0'], s['m_s_0'])
        if s['layer_count'] == 2:
            s['cc_s_l'] = cold_content(s['t_s_l'], s['m_s_l'])
        else:
            s['t_s_l'], s['cc_s_l'] = MIN_TEMP, 0.0
        s['h2o_vol'] = s['h2o_sat'] * c.max_h2o
        s['h2o_max'] = water_capacity(
            s['z_s'], dry_rho(s['rho'], s['h2o_vol']), c.max_h2o)
        s['h2o'] = s['h2o_sat'] * s['h2o_max']
    return water


def initial_state(z_s, rho, t_s_0, t_s, h2o_sat, c, t_s_l=None):
    s = dict.fromkeys(STATE, 0.0)
    s.update(z_s=z_s, rho=rho, t_s_0=t_s_0, t_s=t_s, h2o_sat=h2o_sat)
    s['t_s_l'] = t_s if t_s_l is None else t_s_l
    init_pack(s, c, Dec())
    return s


def below(s, thr, d):
    if s['layer_count'] == 0:
        return False
    if s['layer_count'] == 1:
        return d.lt(s['m_s'], thr, 'below')
    a = d.lt(s['m_s_0'], thr, 'below0')
    b = d.lt(s['m_s_l'], thr, 'belowl')
    return a or b


def relayer(s, x, c, d):
    """Layers after a change of depth.  x: step context (water, cover)."""
    before = s['layer_count']
    split_layers(s, c, d)
    if s['layer_count'] == 0:
        x['water'] = max(s['m_s'], 0.0)
        for k in ('rho', 'h2o_vol', 'h2o', 'h2o_max', 'h2o_sat', 'm_s',
                  'm_s_0', 'cc_s_0'):
            s[k] = 0.0
        s['t_s'] = s['t_s_0'] = MIN_TEMP
        if before == 2:
            s['m_s_l'], s['cc_s_l'], s['t_s_l'] = 0.0, 0.0, MIN_TEMP
        x['cover'] = False
        x['vanish'] = x['phase']
    else:
        masses(s)
        if before == 1 and s['layer_count'] == 2:
            s['t_s_l'] = s['t_s']
            s['cc_s_l'] = cold_content(s['t_s_l'], s['m_s_l'])
            x['split'] = True
        elif before == 2 and s['layer_count'] == 1:
            s['t_s_l'], s['cc_s_l'] = MIN_TEMP, 0.0
            x['merge'] = True


def change(s, x, c, d, dz, dm):
    s['z_s'] += dz
    s['m_s'] += dm
    s['rho'] = s['m_s'] / s['z_s'] if s['z_s'] != 0.0 else 0.0
    if d.gt(s['rho'], MAX_RHO, 'rho>max'):
        s['rho'] = MAX_RHO
        s['z_s'] = s['m_s'] / s['rho']
        relayer(s, x, c, d)
        x['clip'] = True
    elif dz != 0.0:
        relayer(s, x, c, d)
    else:
        masses(s)


def compaction(rho, m_s, t_s, dt):
    """relative density increase by temperature metamorphism + overburden"""
    if m_s >= SWE_MAX:
        rate = 1.0
    else:
        rate = 23.5 * math.cos(math.pi * m_s / SWE_MAX) + 24.5
    k = 1.0 if rho < 100.0 else math.exp(-0.046 * (rho - 100.0))
    dm = 0.01 * k * math.exp(-0.04 * (FREEZE - t_s))
    dc = 0.026 * math.exp(-0.08 * (FREEZE - t_s)) * m_s * math.exp(
        -21.0 * rho / RHO_W0)
    return (dm + dc) * (dt / 3600.0) / rate


def energy(s, f, p, dt, c):
    """Energy terms of a time step from the state at its start, without the
    turbulent ones (those come from `turbulent`)."""
    o = {}
    ts = s['t_s_0']
    o['R_n'] = f['S_n'] + EMISS * (f['I_lw'] - SIGMA * ts ** 4)
    kts = CAL_TO_J * 0.0077 * (s['rho'] / 1000.0) ** 2
    kg = eff_conductivity(KT_MOISTSAND, f['t_g'], c.p)
    if s['layer_count'] == 1:
        tl, zl = ts, s['z_s_0']
    else:
        tl, zl = s['t_s_l'], s['z_s_l']
    el = min(tl, FREEZE)
    o['G'] = steady_flux(eff_conductivity(kts, el, c.p), kg, el,
                         f['t_g'], zl, c.z_g)
    if s['layer_count'] == 1:
        o['G_0'] = o['G']
    elif ts == s['t_s_l']:
        o['G_0'] = 0.0
    else:
        o['G_0'] = steady_flux(
            eff_conductivity(kts, ts, c.p),
            eff_conductivity(kts, s['t_s_l'], c.p),
            ts, s['t_s_l'], s['z_s_0'], s['z_s_l'])
    o['M'] = 0.0
    if p['now']:
        o['M'] = (cp_water(p['t_rain']) * p['m_rain'] *
                  (p['t_rain'] - ts) +
                  cp_ice(p['t_snow']) * p['m_snow'] *
                  (p['t_snow'] - ts)) / dt
    return o


def lh_surface(ts):
    return lh_vap(ts) + lh_fus(ts) if ts <= FREEZE else lh_vap(ts)


def step(s0, f, p, dt, c, obs, flip=()):
    """Mass, phase and temperature part of one run time step.

    s0: state at its start, f: the forcing (t_g is what matters here), p:
    precipitation of this step (as classify_precip, amounts of this step),
    obs: observed energy terms of the step (L_v_E, G, G_0, delta_Q_0), and
    optionally `melt` and `E_s` to take instead of the computed ones.
    Returns (state, outputs, context, decisions).
    """
    d = Dec(flip)
    s = dict(s0)
    x = dict(water=0.0, cover=s['layer_count'] > 0, vanish=None, phase='',
             split=False, merge=False, clip=False, melt=0.0, E_s=0.0,
             gone=False,
             refrozen=0.0, cover0=s['layer_count'] > 0, fresh=False)
    o = {}
    E = obs['L_v_E'] / lh_surface(s['t_s_0']) if x['cover'] else 0.0

    # ---- ageing
    x['phase'] = 'age'
    if x['cover'] and s['rho'] < GRAV_RHO_MAX:
        s['rho'] += s['rho'] * compaction(s['rho'], s['m_s'], s['t_s'], dt)
        s['z_s'] = s['m_s'] / s['rho']
        relayer(s, x, c, d)

    # ---- precipitation
    x['phase'] = 'precip'
    if p['now']:
        gone = False
        if x['cover']:
            change(s, x, c, d, p['z_snow'], p['m_pp'])
            if x['cover']:
                s['h2o'] += water_capacity(p['z_snow'], p['rho_snow'],
                                           p['sat'] * c.max_h2o)
            else:
                gone = True
        elif p['m_snow'] > 0:
            s['z_s'], s['rho'] = p['z_snow'], p['rho_snow']
            s['t_s'] = s['t_s_0'] = s['t_s_l'] = p['t_snow']
            s['h2o_sat'] = p['sat']
            x['water'] += init_pack(s, c, d)
            x['fresh'] = s['layer_count'] > 0
        if not gone:
            x['water'] += s['h2o'] + p['m_rain']
    else:
        x['water'] += s['h2o']

    # ---- melt and refreezing
    x['phase'] = 'melt'
    if x['cover']:
        q0 = obs['delta_Q_0'] * dt + s['cc_s_0']
        x['Q_0'] = q0
        m0 = max(q0, 0.0) / LF0
        s['cc_s_0'] = min(q0, 0.0)
        ml, ql = 0.0, 0.0
        if s['layer_count'] == 2:
            ql = (obs['G'] - obs['G_0']) * dt + s['cc_s_l']
            ml = max(ql, 0.0) / LF0
            s['cc_s_l'] = min(ql, 0.0)
        # no more than the ice that is left can melt, and that ends the cover
        ice = max(s['m_s'] - x['water'], 0.0)
        x['all'] = d.gt(m0 + ml, ice, 'melt>ice')
        x['melt'] = obs.get('melt', ice if x['all'] else m0 + ml)
        x['melt0'], x['meltl'] = m0, ml
        x['water'] += x['melt']
        frozen = 0.0
        w = x['water']
        if w > 0 and s['cc_s_0'] < 0:
            share = w * (s['z_s_0'] / s['z_s'])
            left = q0 + share * LF0
            if d.le(left, 0.0, 'freeze all 0', abs(q0)):
                frozen += share
                s['cc_s_0'] = left
            else:
                frozen += share - left / LF0
                s['cc_s_0'] = 0.0
        if w > 0 and s['layer_count'] == 2 and s['cc_s_l'] < 0:
            share = w * (s['z_s_l'] / s['z_s'])
            left = ql + share * LF0
            if d.le(left, 0.0, 'freeze all l', abs(ql)):
                frozen += share
                s['cc_s_l'] = left
            else:
                frozen += share - left / LF0
                s['cc_s_l'] = 0.0
        x['refrozen'] = frozen
        x['water'] = w - frozen
        if d.le(abs(x['water']), 1e-8, 'residual water', w):
            x['water'] = 0.0
        if x['all']:
            change(s, x, c, d, -s['z_s'], 0.0)
        elif x['melt'] > 0:
            change(s, x, c, d, -x['melt'] / s['rho'], 0.0)

    # ---- evaporation / condensation
    x['phase'] = 'evap'
    x['w_evap'] = x['water']
    if x['cover']:
        to_air = E * dt
        w0 = x['water']
        if x['water'] > 0:
            x['water'] = max(x['water'] + to_air * VAP_SUB, 0.0)
        tl = s['t_s_l'] if s['layer_count'] == 2 else s['t_s_0']
        tb = (f['t_g'] + tl) / 2.0
        qd = spec_hum(sati(f['t_g']), c.p) - spec_hum(sati(tl), c.p)
        rho_air = c.p * MOL_AIR / (RGAS * tb)
        to_soil = rho_air * diffusion(c.p, tb) * (qd / c.z_g) * dt
        if x['water'] > 0:
            x['water'] = max(x['water'] + to_soil * VAP_SUB, 0.0)
        # (no more than there is)
        x['E_s'] = obs.get('E_s', max(to_air + to_soil, -s['m_s']))
        x['gone'] = to_air + to_soil < -s['m_s']
        x['to_air'], x['to_soil'] = to_air, to_soil
        dz = ((x['E_s'] + w0 - x['water']) / s['rho']) / 2.0
        change(s, x, c, d, dz, x['E_s'])

    # ---- densification by added water
    x['phase'] = 'water'
    if x['cover'] and s['rho'] <= GRAV_RHO_MAX:
        added = (x['melt'] + (p['m_rain'] if p['now'] else 0.0)) / s['m_s']
        if d.gt(added, 1e-6, 'added'):
            s['rho'] += (GRAV_RHO_MAX - s['rho']) / (1.0 + 0.4 / added)
            s['z_s'] = s['m_s'] / s['rho']
            relayer(s, x, c, d)

    # ---- runoff
    x['phase'] = 'runoff'
    if not x['cover'] or s['layer_count'] == 0:
        swi = x['water']
    else:
        dry = (s['m_s'] - x['water']) / s['z_s']
        s['h2o_max'] = water_capacity(s['z_s'], dry, c.max_h2o)
        if d.gt(x['water'], s['h2o_max'], 'water>cap'):
            swi = x['water'] - s['h2o_max']
            s['h2o'], s['h2o_sat'] = s['h2o_max'], 1.0
            s['h2o_vol'] = c.max_h2o
            change(s, x, c, d, 0.0, -swi)
        else:
            swi = 0.0
            s['h2o'] = x['water']
            s['h2o_sat'] = s['h2o'] / s['h2o_max'] if s['h2o_max'] else 0.0
            s['h2o_vol'] = s['h2o_sat'] * c.max_h2o

    # ---- temperatures
    if x['cover'] and s['layer_count'] == 1:
        s['t_s_0'] = s['t_s'] = new_temp(s['m_s_0'], s['t_s_0'], s['cc_s_0'])
    elif x['cover'] and s['layer_count'] == 2:
        if s['cc_s_0'] + s['cc_s_l'] == 0.0:
            s['t_s'] = s['t_s_0'] = s['t_s_l'] = FREEZE
        else:
            s['t_s_0'] = new_temp(s['m_s_0'], s['t_s_0'], s['cc_s_0'])
            s['t_s_l'] = new_temp(s['m_s_l'], s['t_s_l'], s['cc_s_l'])
            s['t_s'] = new_temp(s['m_s'], s['t_s'],
                                s['cc_s_0'] + s['cc_s_l'])
    o['melt'], o['E_s'], o['swi'] = x['melt'], x['E_s'], swi
    o['h2o_total'] = x['water']
    return s, o, x, d
