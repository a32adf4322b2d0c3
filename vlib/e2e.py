"""Runs episodes through the files: configuration file and CSV in, CSV out.

Runs under the Python of the repository (it needs pandas and inicheck):

    e2e.py JOBS.json RESULT.json

A job is an episode (see gen.py) plus `io`, a dict of how to lay out the
files.  Everything is written to a scratch folder.
"""
import contextlib
import io as _io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
LIMIT = 240         # seconds for one job
COLS = ['net_solar', 'incoming_thermal', 'air_temp', 'vapor_pressure',
        'wind_speed', 'soil_temp', 'precip_mass', 'percent_snow', 'rho_snow',
        'precip_temp']


def num(x):
    return repr(x) if isinstance(x, float) else str(x)


def short(x):
    return '%d' % x if x == int(x) else repr(x)


def write_inputs(ep, folder):
    import datetime
    import zones
    o = ep.get('io', {})
    c = ep['cfg']
    # in UTC, written as the clocks of the zone show it
    start = zones.instant(c['tz'], zones.time(c['start']))
    step = datetime.timedelta(minutes=c['data_step'])
    rows = []
    for i, r in enumerate(o.get('before', [])):
        k = len(o['before']) - i
        rows.append((start - k * step, r))
    for i, r in enumerate(ep['forc']):
        if i != o.get('gap'):
            rows.append((start + i * step, r))
        if i == o.get('twice'):
            rows.append((start + i * step, r))
    for i, r in enumerate(o.get('long_before', [])):
        # with other times between them
        rows.append((start - 500 * step - i * i * step, r))
    end = start + (len(ep['forc']) - 1) * step      # of the simulation
    for i, r in enumerate(o.get('after', [])):
        rows.append((end + (i + 1) * step, r))
    if o.get('shuffle') is not None:
        random.Random(o['shuffle']).shuffle(rows)
    if o.get('reverse'):
        rows.reverse()
    cols = list(COLS)
    if o.get('permute') is not None:
        random.Random(o['permute']).shuffle(cols)
    fmt = o.get('date_format', '%Y-%m-%d %H:%M:%S')
    name = os.path.join(folder, 'in.csv')
    with open(name, 'w') as fh:
        head = ['date_time'] + cols
        if o.get('extra'):
            head.insert(3, 'remark')
        fh.write(','.join(head) + '\n')
        for d, r in rows:
            v = dict(zip(COLS, r))
            if o.get('blank') and not v['precip_mass'] > 0:
                for k in COLS[7:]:
                    v[k] = None
            line = [zones.wall(c['tz'], d).strftime(fmt)] + [
                '' if v[k] is None else
                (short if o.get('ints') else num)(v[k]) for k in cols]
            if o.get('extra'):
                line.insert(3, '7')
            fh.write(','.join(line) + '\n')
    # the end date is that of the last time step's first record
    last = end - step + datetime.timedelta(
        minutes=o.get('end_shift_min', 0))
    first = start + datetime.timedelta(minutes=o.get('start_shift_min', 0))
    df = o.get('ini_date_format', '%m-%d-%Y %H:%M')
    out = os.path.join(folder, 'out.csv')
    ini = [('topo', [('elevation', c['elevation'])]),
           ('time', [('start_date', zones.wall(c['tz'], first).strftime(df)),
                     ('end_date', zones.wall(c['tz'], last).strftime(df)),
                     ('time_step', c['data_step']),
                     ('time_zone', c['tz'])]),
           ('measurement_heights', [
               ('z_u', c['z_u']), ('z_T', c['z_t']), ('z_g', c['z_g']),
               ('relative_heights', c['relative'])]),
           ('model', [
               ('norm_time_step', c['steps'][0]),
               ('medium_time_step', c['steps'][1]),
               ('small_time_step', c['steps'][2]),
               ('norm_threshold', c['thr'][0]),
               ('medium_threshold', c['thr'][1]),
               ('small_threshold', c['thr'][2]),
               ('max_h2o', c['max_h2o']), ('max_active', c['max_active'])]),
           ('files', [('input_csv', name), ('output_csv', out),
                      ('output_mode', c['mode']),
                      ('format_output', o.get('format', False))]),
           ('initial_snow_properties', [
               ('z_s', ep['init']['z_s']), ('rho', ep['init']['rho']),
               ('t_s_0', ep['init']['t_s_0']), ('t_s', ep['init']['t_s']),
               ('h2o_sat', ep['init']['h2o_sat']), ('z_0', c['z_0'])])]
    omit = set(o.get('omit', []))
    if o.get('drop_sections'):
        ini = [x for x in ini if x[0] not in o['drop_sections']]
    if o.get('add_items'):
        for sec, k, v in o['add_items']:
            [x for x in ini if x[0] == sec][0][1].append((k, v))
    if o.get('pre_out') is not None:
        with open(out, 'w') as fh:
            fh.write(o['pre_out'])
    override = o.get('override', {})
    cfg = os.path.join(folder, 'config.ini')
    with open(cfg, 'w') as fh:
        for sec, items in ini:
            fh.write('[%s]\n\n' % sec)
            for k, v in items:
                if k in omit:
                    continue
                v = override.get(k, v)
                if v is None:
                    continue
                fh.write('%s:    %s\n' % (k, num(v)))
            fh.write('\n')
    return cfg, name, out


def load_config(cfg):
    from inicheck.config import MasterConfig
    from inicheck.tools import get_user_config
    mcfg = MasterConfig(path=os.path.join(
        REPO, 'pysnobal', 'pysnobal_core_config.ini'))
    return get_user_config(cfg, mcfg=mcfg)


def read_text(path):
    try:
        with open(path) as fh:
            return fh.read()
    except IOError:
        return None


class Watchdog(BaseException):
    pass


def bark(*a):
    raise Watchdog('took too long')


def listing(folder):
    out = []
    for d, _, names in os.walk(folder):
        for n in names:
            out.append(os.path.relpath(os.path.join(d, n), folder))
    return sorted(out)


def run(ep, folder, want_csv=True):
    import pandas as pd
    import drive
    res = dict(records=[], error=None, csv=None)
    o = ep.get('io', {})
    cwd = os.getcwd()
    here = os.path.join(folder, 'cwd')
    os.makedirs(here)
    os.chdir(here)
    sink = _io.StringIO()
    p = None
    try:
        from pysnobal.pysnobal import PySnobal
        cfg, name, out = write_inputs(ep, folder)
        if o.get('drop_column'):
            with open(name) as fh:
                lines = fh.read().splitlines()
            k = lines[0].split(',').index(o['drop_column'])
            with open(name, 'w') as fh:
                for x in lines:
                    y = x.split(',')
                    del y[k]
                    fh.write(','.join(y) + '\n')
        if o.get('no_config'):
            cfg = os.path.join(folder, 'not-there.ini')
        before = read_text(name), read_text(cfg)
        res['files_before'] = listing(folder)
        if o.get('readonly'):
            os.chmod(name, 0o444)
            os.chmod(cfg, 0o444)
        with contextlib.redirect_stdout(sink):
            arg = load_config(cfg) if o.get('user_config') else cfg
            p = PySnobal(arg)
            if o.get('second'):
                # another model object lives next to this one
                f2 = os.path.join(folder, 'second')
                os.makedirs(f2)
                cfg2 = write_inputs(o['second'], f2)[0]
                p2 = PySnobal(cfg2)
                if o.get('second_first'):
                    p2.run()
            res['status'] = p.run()
            if o.get('rerun'):
                # the same model object once more
                res['again_first'] = read_text(out)
                os.remove(out)
                p.run()
            if o.get('again'):
                # the same configuration object or file once more
                res['again_first'] = read_text(out)
                os.remove(out)
                p = PySnobal(arg)
                p.run()
    except BaseException as e:              # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        res['error'] = dict(type=type(e).__name__, msg=str(e)[:400],
                            row=None, tb=traceback.format_exc()[-1500:])
    finally:
        os.chdir(cwd)
    if 'before' in locals():
        res['inputs_kept'] = (read_text(name), read_text(cfg)) == before
        res['files'] = listing(folder)
    res['printed'] = sink.getvalue()[-2000:]
    start = pd.to_datetime(ep['cfg']['start']).tz_localize(ep['cfg']['tz'])
    snobal = getattr(p, 'snobal', None)
    recs = drive.find_records(snobal)
    if recs is None and p is not None:
        recs = drive.find_records(p)
    res['have_list'] = recs is not None
    res['blind'] = recs is None and res['error'] is not None
    try:
        for r in recs or []:
            res['records'].append(drive.plain(r, start))
    except TypeError as e:
        res['records'] = []
        res['bad_times'] = str(e)
    if want_csv:
        res['csv'] = read_text(os.path.join(folder, 'out.csv'))
    if not res['have_list'] and res['error'] is None and not o.get('format') \
            and os.path.exists(out):
        try:
            res['records'] = drive.from_csv(read_text(out), ep, start)
            res['have_list'] = res['from_csv'] = True
        except Exception as e:      # noqa
            res['no_csv'] = repr(e)
    return res


def run_alone(ep, folder):
    """in a process of its own (None: it did not answer)"""
    os.makedirs(folder)
    name = os.path.join(folder, 'result.json')
    pid = os.fork()
    if not pid:
        try:
            signal.alarm(LIMIT)
            sub = os.path.join(folder, 'run')
            os.makedirs(sub)
            x = run(ep, sub, not ep.get('no_csv'))
            with open(name + '.part', 'w') as fh:
                json.dump(x, fh)
            os.rename(name + '.part', name)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        with open(name) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None
    finally:
        shutil.rmtree(folder)


def main():
    sys.path.insert(0, HERE)
    import drive
    drive.setup()
    warnings.simplefilter('ignore')
    with open(sys.argv[1]) as fh:
        jobs = json.load(fh)
    base = tempfile.mkdtemp(prefix='e2e.')
    out = []
    try:
        # those that are to run alone, before anything has run in this process
        alone = {k: run_alone(ep, os.path.join(base, 'a%d' % k))
                 for k, ep in enumerate(jobs)
                 if ep.get('io', {}).get('alone')}
        for k, ep in enumerate(jobs):
            if alone.get(k):
                out.append(alone[k])
                continue
            folder = os.path.join(base, str(k))
            os.makedirs(folder)
            signal.signal(signal.SIGALRM, bark)
            signal.alarm(LIMIT)
            try:
                if ep.get('direct'):
                    import direct
                    import gold
                    r = gold.run(ep) if ep['direct'] == 'gold' else \
                        direct.run_job(ep)
                else:
                    r = run(ep, folder, not ep.get('no_csv'))
            except Watchdog:
                r = dict(records=[], error=dict(
                    type='Watchdog', msg='took too long', row=None))
            signal.alarm(0)
            out.append(r)
            shutil.rmtree(folder)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    with open(sys.argv[2], 'w') as fh:
        json.dump(out, fh)


if __name__ == '__main__':
    main()
