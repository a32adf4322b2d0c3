"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STEP = ('monitor of every run time step against a reference model, on real '
        'runs of generated and recorded weather')
TECH = {
    'P01': 'runtime monitor of the mass balance of every step',
    'P02': 'runtime monitor of the energy terms of every step',
    'P03': STEP, 'P05': STEP + '; monitored calls of calc_layers',
    'P04': 'runtime monitor of invariants of every output record',
    'P06': 'online trace checker of the sequence of time steps',
    'P07': STEP + '; monitored calls of InputDeltas',
    'P08': 'offline comparison of recordings of both output modes',
    'P09': 'monitored classification of precipitation records; ' + STEP,
    'P10': STEP,
    'P11': 'monitor that the fluxes solve the equations, on calls and runs',
    'P12': 'monitors hooked on the accessors of the cached values; monitored '
           'sequences of writes and reads',
    'P13': STEP + '; monitored calls of efcon and ssxfr',
    'P14': STEP, 'P15': STEP, 'P16': STEP, 'P17': STEP,
    'P18': 'runs through differently laid out input files, outputs compared',
    'P19': STEP + ', through configuration files with items left out',
    'P20': 'comparison of the output file with the recorded output records',
    'P21': 'runs next to, after and without other model objects, compared '
           'exactly',
    'P22': 'replay of 25 recorded years against the original model output',
    'P23': 'monitor of how runs end, with valid, hostile and invalid input',
    'P24': 'monitored calls of the elementary functions against formulas',
    'P25': STEP + ', ephemeral snowcovers',
    'P26': 'monitor of the state of new model objects and first steps',
    'P28': 'monitor of the files around completed and failing runs',
    'P29': 'monitored calls of the snow state with grids, each cell judged '
           'by the formulas of the point model',
}
NOTE = ('Held in every observed execution; says nothing about executions '
        'that no workload reaches. Trusts the reference formulas in '
        'vlib/ref.py (agree with 25 years of the original model) and the '
        'generators\' bounds of physically possible input.')
EXTRA = {
    'P01': ' Listed finding: first-wet-snow.',
    'P23': ' Listed findings: shrinking-lower-layer, '
           'limited-vapor-pressure.',
    'P22': ' Rounding may decide comparisons another way and make a few '
           'years differ in parts; 14 of 25 years must agree value by value '
           'and all in their means, peaks and totals.',
}


def main():
    checks = []
    for p in sorted(TECH):
        checks.append(dict(
            property=p,
            quick_cmd='python3-vt -B check.py %s' % p,
            thorough_cmd='python3-vt -B check.py %s --thorough' % p,
            technique=TECH[p], level='exploration',
            level_note=NOTE + EXTRA.get(p, '')))
    m = dict(
        version=1,
        setup_cmd='python3-vt -B -c "import numpy" && /opt/venv/bin/python '
                  '-B -c "import numpy, pandas, inicheck"',
        checks=checks,
        not_applicable=[dict(
            property='P27',
            reason='The spatial model cannot be run here: it needs netCDF4, '
                   'which is not installed, and its classes iSnobal and '
                   'iPySnobal cannot be constructed at this commit, so '
                   'there are no executions that could be monitored. (Its '
                   'snow state class can, see P29.)')],
        notes='No hooks in /repo: the monitors work on recorded output '
              'records, on wrapped accessors and on files. Known findings '
              'are in known_findings.txt.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
