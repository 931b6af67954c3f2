"""G05: grid types and times, written and read."""

from datetime import datetime, timedelta
import itertools

from mc import gridread, grids
from mc.grids import G

PROPERTY = 'G05'
LEVEL = 'model_checking'
RULE = (
    'A case is a file of grids told apart by level, written by GridFile from text or datetime '
    'arguments or laid out by the reference builder from GEMPAK time integers; type, valid time '
    'and second time of each grid are compared with the specification, in the listing and in '
    'the returned array. Non-trivial: distinct set of times.'
)
V = ('const', 1.0)
INITS = ('202001310600', '201912312359', '202002282330', '202002290030', '199912312359',
         '200001010000', '196901010101', '206811012200')
BATCH = 120


def hours(tier):
    """Forecast offsets as written in text."""
    out = ['', '0', '6', '06', '006', '24', '036', '99', '100', '999']
    out += [f'{h:03d}' for h in (range(0, 1000) if tier == 'thorough' else
                                 [*range(0, 50), *range(94, 104), *range(990, 1000)])]
    out += [f'{h:03d}{m:02d}' for h in (0, 1, 23, 24, 99, 100, 999) for m in range(0, 60, 7)]
    return out


def minutes(n=1440):
    """Every minute of a day as HHMM."""
    return [f'{m // 60:02d}{m % 60:02d}' for m in range(n)]


def days():
    """Every day of the years two digits can name."""
    d = datetime(1969, 1, 1)
    out = []
    while d < datetime(2069, 1, 1):
        out.append(d)
        d += timedelta(days=1)
    return out


def plan(tier):
    units = [{'u': 'off', 't': t, 'init': i, 'tier': tier} for t in 'AFVGIf' for i in INITS]
    units += [{'u': 'pairs', 'init': i} for i in INITS]
    units += [{'u': 'minutes', 't': t} for t in ('', 'A', 'F', 'dt')]
    units += [{'u': 'days', 't': t, 'lo': lo} for t in ('', 'F006', 'dt')
              for lo in range(0, 36525, 3653)]
    units += [{'u': 'rdays', 'form': f, 'lo': lo} for f in (0, 1) for lo in range(0, 36525, 3653)]
    units += [{'u': 'rmin', 'form': f} for f in (0, 1)]
    units += [{'u': 'roff', 'type': t, 'en': en} for t in range(4) for en in '<>']
    return units


def batches(rec, specs, n=BATCH):
    for k in range(0, len(specs), n):
        rec.case({'w': 1, 'size': [3, 3], 'ops': [
            G(lev=j, v=V, **s) for j, s in enumerate(specs[k : k + n])]})


def rbatches(rec, cols, en='<', absent=False):
    for k in range(0, len(cols), 200):
        rec.case({'w': 0, 'size': [2, 1], 'en': en, 'cols': [
            {'lev': j, 'bits': 4, 'v': [1, 2], 'absent': absent, **c}
            for j, c in enumerate(cols[k : k + 200])]})


def run_unit(unit, rec):
    u = unit['u']
    if u == 'off':
        specs = [{'t': unit['init'] + unit['t'] + h} for h in hours(unit['tier'])]
        batches(rec, specs)
    elif u == 'pairs':
        i = unit['init']
        ts = [i, i + 'A', i + 'A001', 'dt:' + i, i + 'F', i + 'F000', i + 'F006', i + 'F00630',
              i + 'V012', i + 'G003', i + 'I', '202006150000', '202006150000F006']

        def letter(t):
            return grids.read_time(t)[0]

        specs = [{'t': a, 't2': b} for a, b in itertools.product(ts, ts)
                 if letter(a) == letter(b)]
        batches(rec, specs)
    elif u == 'minutes':
        t = unit['t']
        specs = [{'t': ('dt:20200229' if t == 'dt' else '20200229') + m + (t if t != 'dt' else '')}
                 for m in minutes()]
        batches(rec, specs)
    elif u == 'days':
        t = unit['t']
        step = 1 if t == 'dt' else 3
        specs = [{'t': ('dt:' if t == 'dt' else '') + d.strftime('%Y%m%d1830')
                  + (t if t != 'dt' else '')}
                 for d in days()[unit['lo'] : unit['lo'] + 3653 : step]]
        for k in range(0, len(specs), 400):
            rec.case({'w': 2, 'size': [2, 2], 'ops': [
                G(lev=j, v=V, **s) for j, s in enumerate(specs[k : k + 400])]})
    elif u == 'rdays':
        cols = []
        for d in days()[unit['lo'] : unit['lo'] + 3653]:
            if unit['form'] == 0:
                cols.append({'t1': (int(d.strftime('%y%m%d')), 2345)})
            else:
                cols.append({'t1': (int(d.strftime('%m%d%y0615')), 100600),
                             't2': (int(d.strftime('%m%d%y0615')), 101200)})
        rbatches(rec, cols, absent=True)
    elif u == 'rmin':
        if unit['form'] == 0:
            cols = [{'t1': (200229, int(m)), 't2': (191231, int(m))} for m in minutes()]
        else:
            cols = [{'t1': (int('022920' + m), 100000)} for m in minutes()]
        rbatches(rec, cols)
    elif u == 'roff':
        cols = [{'t1': (1231991200 if t else 991231, unit['type'] * 100000 + h * 100 + m),
                 't2': (101001200, unit['type'] * 100000 + h * 100)}
                for t in (0, 1) for h in (*range(0, 100), 120, 240, 384, 840, 999)
                for m in ((0, 30, 59) if h < 24 else (0,))
                if t or h < 24]
        rbatches(rec, cols, unit['en'])


def run_case(case, rec):
    if case['w']:
        grids.replay(case, rec, reader=True if case['w'] == 1 else 'list')
    else:
        gridread.run(case, rec)
