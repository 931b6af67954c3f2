"""G06: grid selection is the conjunction of its criteria, in every combination of forms."""

from datetime import datetime
import itertools

import numpy as np

from gempakio import GempakGrid
from mc import gridread
from mc.core import expect, Violation

PROPERTY = 'G06'
LEVEL = 'model_checking'
RULE = (
    'A case fixes one file and one pair of leading criteria and runs every combination of the '
    'remaining criteria (or every ordered pair of a query list) on one GempakGrid object; the '
    'grids returned are compared with a reference filter over the listing, in file order. '
    'Non-trivial: distinct case.'
)
A, B, C_ = (210131, 1200), (131210600, 100600), (1231211200, 100000)
D1, D2, D3 = (datetime(2021, 1, 31, 12), datetime(2021, 1, 31, 12), datetime(2021, 12, 31, 12))
GRIDS = [
    {'parm': 'TMPK'},
    {'parm': 'TMPK', 'lev': 850},
    {'parm': 'TMPK', 'lev': 0, 'vc': 'NONE'},
    {'parm': 'TMPK', 'vc': 'HGHT'},
    {'parm': 'TMPK', 't1': (131211200, 100000)},
    {'parm': 'TMPK', 't1': (131211200, 102400)},
    {'parm': 'TMPK', 't2': (210131, 1800)},
    {'parm': 'UREL', 'lev2': 850},
    {'parm': 'UREL', 'lev': 1000, 'lev2': 0, 't1': (210201, 0), 't2': (210201, 600)},
    {'parm': 'ABCDEFGHIJKL', 't1': (210130, 0), 't2': (210130, 600), 'vc': 'ABCD'},
]
# Names, levels and times that are alike
ALIKE = [
    {'parm': 'ABCDEFGHIJKL'},
    {'parm': 'ABCDEFGHIJKM', 'vc': 'PREX'},
    {'parm': 'ABCDEFGH', 'lev': 500, 'lev2': 850},
    {'parm': 'ABCD', 'lev': 850, 'lev2': 500},
    {'parm': 'ABCDEFGHIJKL', 'lev': 501, 'lev2': 500, 'vc': 'PRET'},
    {'parm': 'XBCD', 'lev': 0, 'lev2': 0, 't1': (210131, 1201), 't2': (210131, 1200)},
    {'parm': 'ABCD', 'lev': 5000, 't1': (210131, 1200), 't2': (210131, 1201)},
    {'parm': 'ABCD', 'lev': 0, 't1': (131211200, 100001), 't2': (131211200, 100000)},
    {'parm': 'ABCD', 'lev': 500, 't1': (210131, 1159), 't2': (210131, 1159)},
]
FILES = {'all': GRIDS, 'plain': GRIDS[:5], 'one': GRIDS[8:9], 'alike': ALIKE}
FORMS = {
    'parameter': [None, 'TMPK', 'tmpk', ['UREL', 'tmpk'], ('ABCDEFGHIJKL',), ['ZZZZ'],
                  {'np': ['UREL']}, 'TMP'],
    'date_time': [None, '202101311200', 'dt:202101311200', ['202102010000', 'dt:202101300000'],
                  ('202101311200', '202102010000'), 'first', 'LAST', 'last', 'FIRST',
                  '190001010000', {'np': ['dt:202101311200']}, {'np': ['202102010000']}],
    'coordinate': [None, 'PRES', 'pres', ['HGHT', 'none'], ('abcd', 'PRES'), 'QQQQ',
                   {'np': ['PRES']}],
    'level': [None, 500, 500.0, [850, 0], (1000,), 0, 7, {'np': [500, 850]}],
    'date_time2': [None, '202101311800', 'dt:202102010600', ['202101300600', '202102010600'],
                   'first', 'LAST', ('202101311800',), {'np': ['dt:202101311800']}],
    'level2': [None, 850, 0, [850, 0], 5, (0,), {'np': [850]}],
}
FALIKE = {
    'parameter': [None, 'ABCD', 'abcdefghijkl', 'ABCDEFGHIJKM', ['abcdefgh', 'XBCD'], 'A',
                  'ABCDEFGHIJKLM'],
    'date_time': [None, '202101311200', '202101311201', ['dt:202101311159', '202101311201'],
                  'first', 'last'],
    'coordinate': [None, 'pret', 'PRES', 'PREX', ['PRET', 'prex'], 'PR', 'PRESS'],
    'level': [None, 500, 500.5, [501, 850], 5000, 50, {'np': [500.0, 0.0]}, [0]],
    'date_time2': [None, '202101311200', '202101311201', ['202101311159', 'dt:202101311200'],
                   'first', 'last'],
    'level2': [None, 500, 850.5, [0, 850], 85, {'np': [500.0]}],
}
NAMES = list(FORMS)


def forms(f):
    return FALIKE if f == 'alike' else FORMS


def arg(x):
    """The argument itself."""
    if isinstance(x, dict):
        vals = [arg(v) for v in x['np']]
        obj = any(isinstance(v, datetime) for v in vals)
        return np.array(vals, dtype=object) if obj else np.array(vals)
    if isinstance(x, str) and x.startswith('dt:'):
        return datetime.strptime(x[3:], '%Y%m%d%H%M')
    if isinstance(x, list):
        return [arg(v) for v in x]
    if isinstance(x, tuple):
        return tuple(arg(v) for v in x)
    return x


def flat(x):
    """Values of a criterion as a list."""
    if isinstance(x, dict):
        return list(x['np'])
    return list(x) if isinstance(x, (list, tuple)) else [x]


def when(x):
    return datetime.strptime(x.removeprefix('dt:'), '%Y%m%d%H%M')


def select(entries, q):
    """Reference: indexes of the grids every given criterion accepts."""
    keep = []
    for k, (_typ, t1, t2, parm, lev, lev2, vc) in enumerate(entries):
        ok = True
        for name, have in (('parameter', parm), ('coordinate', vc), ('level', lev),
                           ('level2', lev2), ('date_time', t1), ('date_time2', t2)):
            want = q.get(name)
            if want is None:
                continue
            if name in ('parameter', 'coordinate'):
                ok &= have in [v.upper() for v in flat(want)]
            elif name in ('level', 'level2'):
                ok &= have is not None and have in flat(want)
            elif isinstance(want, str) and want.lower() in ('first', 'last'):
                col = [e[1 if name == 'date_time' else 2] for e in entries]
                col = [c for c in col if c is not None]
                pick = (min if want.lower() == 'first' else max)(col) if col else None
                ok &= have is not None and have == pick
            else:
                ok &= have in [when(v) for v in flat(want)]
        if ok:
            keep.append(k)
    return keep


def plan(tier):
    units = []
    for f in FILES:
        for a in range(len(forms(f)['date_time'])):
            for b in range(len(forms(f)['date_time2'])):
                units.append({'u': 'all', 'f': f, 'a': a, 'b': b, 'thin': tier != 'thorough'})
    units += [{'u': 'pairs', 'f': f, 'k': k, 'n': 12} for f in FILES for k in range(12)]
    return units


def query_list(f):
    """A spread of queries: every form of every criterion alone, and some together."""
    out = [{}]
    for n in NAMES:
        out += [{n: x} for x in forms(f)[n]]
    out += [{'parameter': 'TMPK', 'level': 500}, {'date_time': 'last', 'coordinate': 'PRES'}]
    return out


def run_unit(unit, rec):
    if unit['u'] == 'all':
        base = {'date_time': forms(unit['f'])['date_time'][unit['a']],
                'date_time2': forms(unit['f'])['date_time2'][unit['b']]}
        rec.case({'f': unit['f'], 'base': base, 'thin': unit['thin']})
    else:
        qs = query_list(unit['f'])
        for k in range(unit['k'], len(qs), unit['n']):
            rec.case({'f': unit['f'], 'first': qs[k]})


def ask(g, entries, q, rec):
    kw = {k: arg(v) for k, v in q.items() if v is not None}
    copy = {k: (list(v) if isinstance(v, (list, tuple, np.ndarray)) else v)
            for k, v in kw.items()}
    want = select(entries, q)
    try:
        got = g.gdxarray(**kw)
    except KeyError:
        expect(not want, lambda: f'query {q}: no match reported, grids {want} match')
        rec.outcome('no match')
        return
    for k, v in kw.items():
        now = list(v) if isinstance(v, (list, tuple, np.ndarray)) else v
        expect(now == copy[k], lambda: f'query {q}: caller\'s {k} changed to {now}')
    ids = [round(float(d.values.ravel()[0])) for d in got]
    expect(bool(want), lambda: f'query {q}: nothing matches, returned grids {ids}')
    expect(ids == want, lambda: f'query {q}: returned grids {ids}, expected {want}')
    rec.outcome(f'{len(want)} matched')


def run_case(case, rec):
    specs = FILES[case['f']]
    cols = [{**s, 'pk': 0, 'v': [float(k), 0.0]} for k, s in enumerate(specs)]
    raw, _want = gridread.build({'size': [2, 1], 'cols': cols})
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(raw)
    g = GempakGrid(path)
    entries = [gridread.listing(s) for s in cols]
    if 'first' in case:
        for second in query_list(case['f']):
            ask(g, entries, case['first'], rec)
            ask(g, entries, second, rec)
            rec.step(2)
        rec.state([case['f'], str(case['first'])])
        return
    rest = [n for n in NAMES if n not in case['base']]
    for combo in itertools.product(*(forms(case['f'])[n] for n in rest)):
        q = dict(case['base'])
        q.update(zip(rest, combo, strict=True))
        if case['thin'] and sum(v is not None for v in q.values()) > 4:
            continue
        ask(g, entries, q, rec)
        rec.step()
    rec.state([case['f'], str(case['base'])])
