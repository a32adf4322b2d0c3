"""Run episodes on the real code.

`direct` uses the point model classes (no files), under whatever Python runs
this module; `e2e` (see e2e.py) goes through the configuration file and the
CSV files.  Both return the same kind of recording:

    dict(records=[{field: value}], error=None or dict, warnings=[...])

with `t` in each record, the seconds since the start of the model run.
"""
import collections
import copy
import datetime
import os
import sys
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
FREEZE = 273.16
NAMES = ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'm_pp', 'percent_snow',
         'rho_snow', 't_pp')
KELVIN = (2, 5, 9)


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    try:
        import pkg_resources            # noqa
    except ImportError:
        # only used for the version string of the package
        m = types.ModuleType('pkg_resources')

        class DistributionNotFound(Exception):
            pass

        def get_distribution(name):
            raise DistributionNotFound(name)
        m.DistributionNotFound = DistributionNotFound
        m.get_distribution = get_distribution
        sys.modules['pkg_resources'] = m


def kelvin(row):
    return [v + FREEZE if i in KELVIN else v for i, v in enumerate(row)]


def as_dict(r):
    if isinstance(r, dict):
        return r
    if hasattr(r, '_asdict'):
        return r._asdict()
    if hasattr(r, '__dict__'):
        return vars(r)
    return {}


def is_record(r):
    d = as_dict(r)
    return 'm_s' in d and 'z_s_l' in d and 'date_time' in d


def find_records(model):
    """The list of the output records of a model.  None: it keeps none."""
    got = getattr(model, 'output_list', None)
    if isinstance(got, (list, tuple)):
        return got
    todo, depth = [model], 0
    seen = set()
    while todo and depth < 3:
        new = []
        for o in todo:
            if id(o) in seen:
                continue
            seen.add(id(o))
            for v in list(getattr(o, '__dict__', {}).values()):
                if isinstance(v, dict):
                    v = list(v.values())
                if isinstance(v, (list, tuple, collections.deque)):
                    if v and is_record(v[0]) and is_record(v[-1]):
                        return list(v)
                    new += [x for x in list(v)[:20] if hasattr(
                        x, '__dict__') and not isinstance(x, type)]
                elif hasattr(v, '__dict__') and not isinstance(v, type):
                    new.append(v)
        todo = new
        depth += 1
    return None


def plain(rec, start=None):
    out = {}
    rec = as_dict(rec)
    for k, v in rec.items():
        if k == 'date_time':
            if start is not None:
                out['t'] = (v - start).total_seconds()
        elif isinstance(v, (bool, int)):
            out[k] = v
        else:
            out[k] = float(v)
    return out


def make_args(ep):
    c = ep['cfg']
    td = datetime.timedelta
    s = c['steps']
    per = [c['data_step'] // x for x in s]
    inter = [c['data_step'] // s[0], s[0] // s[1], s[1] // s[2]]
    tsteps = [dict(level=i, output=True if c['mode'] == 'all' else i == 0,
                   threshold=c['thr'][i], time_step=s[i] * 60,
                   time_step_timedelta=td(minutes=s[i]),
                   intervals=inter[i], intervals_per_timestep=per[i])
              for i in range(3)]
    start = datetime.datetime.strptime(c['start'], '%Y-%m-%d %H:%M')
    params = dict(elevation=c['elevation'], start_date=start,
                  max_h2o_vol=c['max_h2o'], max_z_s_0=c['max_active'],
                  relative_heights=c['relative'])
    ic = dict(z_s=ep['init']['z_s'], rho=ep['init']['rho'],
              t_s_0=ep['init']['t_s_0'] + FREEZE,
              t_s=ep['init']['t_s'] + FREEZE,
              h2o_sat=ep['init']['h2o_sat'], z_0=c['z_0'])
    if 't_s_l' in ep['init']:
        ic['t_s_l'] = ep['init']['t_s_l'] + FREEZE
    if c.get('implied') and not c['relative']:
        del params['relative_heights']
    mh = dict(z_u=c['z_u'], z_t=c['z_t'], z_g=c['z_g'],
              relative_heights=c['relative'])
    return start, (params, tsteps, ic, mh, c['mode'])


def from_csv(text, ep, start):
    """Records from an output file (unformatted), where the model keeps no
    list of them; what the file does not have is derived."""
    import pandas as pd
    import io as _io
    df = pd.read_csv(_io.StringIO(text), float_precision='round_trip')
    times = pd.to_datetime(df['date_time'], utc=True)
    start = start.tz_convert('UTC')
    out = []
    names = {'R_n': 'R_n_bar', 'H': 'H_bar', 'L_v_E': 'L_v_E_bar',
             'G': 'G_bar', 'G_0': 'G_0_bar', 'M': 'M_bar',
             'delta_Q': 'delta_Q_bar', 'delta_Q_0': 'delta_Q_0_bar',
             'E_s': 'E_s_sum', 'melt': 'melt_sum', 'swi': 'swi_sum'}
    cap = ep['cfg']['max_h2o']
    for t, row in zip(times, df.to_dict('records')):
        r = {names.get(k, k): v for k, v in row.items() if k != 'date_time'}
        for k in ('t_s_0', 't_s_l', 't_s'):
            r[k] += FREEZE
        r['t'] = (t - start).total_seconds()
        r['layer_count'] = int(r['z_s_0'] > 0) + int(r['z_s_l'] > 0)
        r['h2o_max'] = r['h2o_vol'] = r['h2o_sat'] = 0.0
        if r['z_s'] > 0:
            dry = (r['m_s'] - r['h2o']) / r['z_s']
            r['h2o_max'] = cap * r['z_s'] * 999.87 * (917.0 - dry) / 917.0
            if r['h2o_max'] > 0:
                r['h2o_sat'] = min(r['h2o'] / r['h2o_max'], 1.0)
                if r['h2o_sat'] > 1 - 1e-9:
                    r['h2o_sat'] = 1.0
            r['h2o_vol'] = r['h2o_sat'] * cap
        out.append(r)
    return out


class Watchdog(BaseException):
    pass


STATE = ('rho', 'z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l', 't_s',
         't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_sat', 'h2o_max',
         'h2o_vol', 'layer_count', 'max_h2o_vol')


def grab(model):
    """the snowcover as it is now, as far as it can be seen"""
    s = getattr(model, 'snow_state', None)
    out = {}
    for n in STATE:
        v = getattr(s, n, None)
        if v is not None:
            try:
                out[n] = float(v)
            except (TypeError, ValueError):
                pass
    return out


class Forwarder(object):
    """Model instance that is fed one record after the other."""

    def __init__(self, ep, args=None):
        from pysnobal.point import InputData, Snobal
        self.InputData = InputData
        self.start, a = make_args(ep)
        self.model = Snobal(*(args or a))
        self.initial = grab(self.model)
        self.last = None
        self.n = 0

    def feed(self, row):
        rec = self.InputData(dict(zip(NAMES, kelvin(row))))
        if self.last is not None:
            self.model.do_data_tstep(self.last, rec)
        self.last = rec

    def new_records(self):
        out = (find_records(self.model) or [])[self.n:]
        self.n += len(out)
        return [plain(x, self.start) for x in out]


def direct(ep, stop=None, watch=None):
    res = dict(records=[], error=None, rows=0)
    try:
        fw = Forwarder(ep)
        for i, row in enumerate(ep['forc']):
            res['rows'] = i
            fw.feed(row)
            if watch is not None:
                watch(fw.model)
            if stop is not None and i >= stop:
                break
    except Watchdog as e:
        res['error'] = dict(type='Watchdog', msg=str(e), row=res['rows'])
    except Exception as e:              # noqa
        import traceback
        res['error'] = dict(type=type(e).__name__, msg=str(e)[:400],
                            row=res['rows'],
                            tb=traceback.format_exc()[-1500:])
    if 'fw' in locals():
        res['records'] = fw.new_records()
        res['initial'] = fw.initial
    return res


# ---------------------------------------------------------------------------
# monitors that sit on the accessors of the saturation vapor pressures

class Accessors(object):
    """P12: on every read, is it that of the current temperature?"""

    WATCH = (('SnowState', 'e_s_0', 't_s_0'), ('SnowState', 'e_s_l', 't_s_l'),
             ('InputData', 'sat_vp', 't_a'), ('InputData', 'e_g', 't_g'))

    def __init__(self):
        import ref
        from pysnobal import point
        self.n = {}
        self.bad = []
        self.seen = set()
        self.undo = []
        for cls, name, temp in self.WATCH:
            c = getattr(point, cls, None)
            p = None
            for k in getattr(c, '__mro__', ()):
                if name in k.__dict__:
                    c, p = k, k.__dict__[name]
                    break
            if not isinstance(p, property):
                continue
            self.undo.append((c, name, p))
            setattr(c, name, property(self.reader(p.fget, name, temp, ref),
                                      p.fset, p.fdel))
        c = getattr(point, 'SnowState', None)
        p = getattr(c, '__dict__', {}).get('layer_count')
        if isinstance(p, property):
            self.undo.append((c, 'layer_count', p))
            setattr(c, 'layer_count', property(self.layers(p.fget), p.fset,
                                               p.fdel))

    def reader(self, get, name, temp, ref):
        def read(obj):
            v = get(obj)
            t = getattr(obj, temp)
            self.n[name] = self.n.get(name, 0) + 1
            if len(self.seen) < 100000:
                self.seen.add((name, t))
            w = ref.sati(t)
            if not abs(v - w) <= 1e-9 * w and len(self.bad) < 20:
                self.bad.append(dict(name=name, temperature=float(t),
                                     got=float(v), want=w))
            return v
        return read

    def layers(self, get):
        def read(obj):
            v = get(obj)
            self.n['layer_count'] = self.n.get('layer_count', 0) + 1
            w = int(obj.z_s_0 > 0) + int(obj.z_s_l > 0)
            if v != w and len(self.bad) < 20:
                self.bad.append(dict(name='layer_count', z_s_0=float(
                    obj.z_s_0), z_s_l=float(obj.z_s_l), got=int(v), want=w))
            return v
        return read

    def peek(self, model):
        """What would a read between two data steps get?  (on copies, so
        that it does not change what later reads get)"""
        watched = set(n for c, n, p in self.undo)
        for at in ('snow_state', 'input1', 'input2'):
            o = getattr(model, at, None)
            if o is None:
                continue
            o = copy.copy(o)
            for cls, name, temp in self.WATCH:
                if name in watched and hasattr(type(o), name):
                    if getattr(o, temp, 0) > 100:
                        getattr(o, name)

    def close(self):
        for c, name, p in self.undo:
            setattr(c, name, p)


def accessors(ep):
    try:
        a = Accessors()
    except ImportError:
        return direct(ep)
    try:
        res = direct(ep, watch=a.peek)
    finally:
        a.close()
    res['accessors'] = dict(n=a.n, bad=a.bad, seen=[
        '%s %.9g' % x for x in sorted(a.seen)[:3000]])
    return res


# ---------------------------------------------------------------------------
# several model objects at once

def together(eps, order):
    """The models of the episodes, fed in turns: order is a list of indices
    of episodes; returns one recording each."""
    fws, res = [], []
    for ep in eps:
        res.append(dict(records=[], error=None))
        try:
            fws.append(Forwarder(ep))
        except Exception as e:      # noqa
            fws.append(None)
            res[-1]['error'] = dict(type=type(e).__name__, msg=str(e)[:400])
    at = [0] * len(eps)
    for k in order:
        if fws[k] is None or res[k]['error'] or at[k] >= len(eps[k]['forc']):
            continue
        try:
            fws[k].feed(eps[k]['forc'][at[k]])
        except Exception as e:      # noqa
            res[k]['error'] = dict(type=type(e).__name__, msg=str(e)[:400])
        at[k] += 1
    for fw, x in zip(fws, res):
        if fw is not None:
            x['records'] = fw.new_records()
    return res


def shared(ep, n=2):
    """n models one after the other from the same configuration objects and
    input records"""
    from pysnobal.point import InputData, Snobal
    start, args = make_args(ep)
    rows = [dict(zip(NAMES, kelvin(r))) for r in ep['forc']]
    before = repr((args, rows))
    out = []
    for k in range(n):
        x = dict(records=[], error=None)
        try:
            m = Snobal(*args)
            last = None
            for row in rows:
                rec = InputData(row)
                if last is not None:
                    m.do_data_tstep(last, rec)
                last = rec
        except Exception as e:      # noqa
            x['error'] = dict(type=type(e).__name__, msg=str(e)[:400])
        if 'm' in locals():
            x['records'] = [plain(r, start) for r in
                            find_records(m) or []]
        x['kept'] = repr((args, rows)) == before
        out.append(x)
    return out
