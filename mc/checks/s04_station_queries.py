"""S04: station selection is the conjunction of its criteria; nearest time is the nearest."""

from datetime import datetime, timedelta
import itertools

import numpy as np

from mc import stnread
from mc.core import expect
from mc.stnread import REAL

PROPERTY = 'S04'
LEVEL = 'model_checking'
RULE = (
    'A case fixes one sounding or surface file and the leading criterion and runs every '
    'combination of the remaining criteria in every accepted form (or every ordered pair of a '
    'query list, or every nearest-time request) on one reader object; what is returned is '
    'compared with a reference filter over the listing, in file order. Non-trivial: distinct '
    'case.'
)


def parts(kind):
    return [{'name': 'SNDT' if kind == 'snd' else 'SFDT', 'type': REAL,
             'params': [{'name': 'PRES'}, {'name': 'TMPC'}]}]


def file_of(kind, which):
    if kind == 'ship':
        t = [0, 1, 2, 4, 1]
        s = {'full': [0, 2, 3, 2, 1], 'holes': [3, 3, 3, 3, 3], 'shared': [6, 2, 7, 8, 9]}[which]
        c = {'times': t, 'stations': s}
    elif which == 'shared':  # stations without an identifier, or with the same
        c = {'times': [4, 1, 0], 'stations': [6, 2, 7, 8, 9, 0],
             'absent': [[0, 0], [1, 2], [2, 1]] if kind != 'clim' else [[0, 0], [2, 1], [1, 2]]}
    elif which == 'full':
        c = {'times': [4, None, 1, 0], 'stations': [2, 0, None, 3, 1], 'absent': []}
    else:
        c = {'times': [0, 1, 4], 'stations': [0, 1, 2, 3],
             'absent': [[0, 1], [1, 0], [2, 3], [2, 0]] if kind != 'clim' else
                       [[1, 0], [0, 1], [3, 2], [0, 2]]}
    return {'kind': kind, 'parts': parts(kind), **c}


FORMS = {
    'station_id': [None, 'KOUNX1', 'kden', ['KDEN', 'nzsp'], ('71',), 'KOUN', {'np': ['KDEN']},
                   ['ZZZZ']],
    'station_number': [None, 724690, [71, 723570], ('890090',), {'np': [71]}, '724690', 5],
    'date_time': [None, '202101311200', 'dt:202101310030', ['202101311200', '202102011200'],
                  ('202101310030',), 'first', 'LAST', '190001010000',
                  {'np': ['dt:202101311200']}],
    'state': [None, 'CO', 'ok', ['co', 'OK'], ('',), {'np': ['--']}],
    'country': [None, 'US', 'us', ['ca', 'AA'], ('US', 'ca'), 'QQ'],
    'bbox': [None, [-180, 180, -90, 90], [-104.87, -97.45, 35.23, 39.76], [-104.86, 0, 0, 90],
             [0, 0.5, -90, 0], [10, 20, 10, 20]],
}
SHARED = {
    'station_id': ['', 'KDEN', ['kden', ''], {'np': ['KDEN', 'KOUNX1']}, ['KDEN', 'ZZZZ'],
                   'kdena', 'KD', 'KDENAB'],
    'station_number': [0, 111, '0', [0, 111, 5], {'np': [0, 111]}, {'np': ['111', '0']}, 724690,
                       72469, 7246900],
    'state': ['WI', ['wi', 'MN'], {'np': ['MN', 'CO']}, 'XX', ('CO', 'XX'), 'cox',
              ['CO'], 'C', 'COXY'],
    'country': ['US', 'ca', ['US', 'CA'], {'np': ['CA', 'US']}, 'usa', 'U',
                'USAX'],
    'bbox': [[-95, -85, 40, 50], {'np': [-180, 180, -90, 90]}, [-180, -50, 20, 50],
             [-2, 0, 29, 31]],
}
NAMES = list(FORMS)
KINDS = ('snd', 'std', 'ship', 'clim')


def arg(x):
    if isinstance(x, dict):
        v = [arg(y) for y in x['np']]
        obj = any(isinstance(y, datetime) for y in v)
        return np.array(v, dtype=object) if obj else np.array(v)
    if isinstance(x, str) and x.startswith('dt:'):
        return datetime.strptime(x[3:], '%Y%m%d%H%M')
    if isinstance(x, list):
        return [arg(v) for v in x]
    if isinstance(x, tuple):
        return tuple(arg(v) for v in x)
    return x


def flat(x):
    if isinstance(x, dict):
        return list(x['np'])
    return list(x) if isinstance(x, (list, tuple)) else [x]


def when(x):
    return datetime.strptime(x.removeprefix('dt:'), '%Y%m%d%H%M')


def select(entries, q):
    """Reference filter; entries are (time, id, number, lat, lon, elev, state, country)."""
    keep = []
    for k, (t, sid, num, lat, lon, _e, st, co) in enumerate(entries):
        ok = True
        for name, have in (('station_id', sid), ('state', st), ('country', co)):
            if q.get(name) is not None:
                ok &= have in [v.upper() for v in flat(q[name])]
        if q.get('station_number') is not None:
            ok &= num in [int(v) for v in flat(q['station_number'])]
        if q.get('bbox') is not None:
            le, r, b, to = flat(q['bbox'])
            ok &= le <= lon <= r and b <= lat <= to
        want = q.get('date_time')
        if isinstance(want, str) and want.lower() in ('first', 'last'):
            ok &= t == (min if want.lower() == 'first' else max)(e[0] for e in entries)
        elif want is not None:
            ok &= t in [when(v) for v in flat(want)]
        if ok:
            keep.append(k)
    return keep


def plan(tier):
    thin = tier != 'thorough'
    units = []
    for kind in KINDS:
        for which in ('full', 'holes'):
            for a in range(len(FORMS['station_id'])):
                for b in range(len(FORMS['date_time'])):
                    units.append({'u': 'all', 'kind': kind, 'which': which, 'a': a, 'b': b,
                                  'thin': thin})
            units += [{'u': 'pairs', 'kind': kind, 'which': which, 'k': k} for k in range(8)]
            if kind != 'snd':
                units.append({'u': 'near', 'kind': kind, 'which': which})
        units += [{'u': 'shared', 'kind': kind, 'n': n} for n in SHARED]
    return units


def queries():
    out = [{}]
    for n in NAMES:
        out += [{n: x} for x in FORMS[n][1:]]
    return out


def run_unit(unit, rec):
    base = {'kind': unit['kind'], 'which': unit.get('which')}
    if unit['u'] == 'all':
        rec.case({**base, 'thin': unit['thin'],
                  'base': {'station_id': FORMS['station_id'][unit['a']],
                           'date_time': FORMS['date_time'][unit['b']]}})
    elif unit['u'] == 'shared':
        base['which'] = 'shared'
        for x in SHARED[unit['n']]:
            if base['kind'] != 'snd':
                rec.case({**base, 'near': {unit['n']: x}})
            for d in (None, 'last', ['202101311200', '202101310030']):
                rec.case({**base, 'thin': False, 'base': {
                    'station_id': None, 'station_number': None, 'state': None, 'country': None,
                    'bbox': None, 'date_time': d, unit['n']: x}})
    elif unit['u'] == 'pairs':
        for q in queries()[unit['k'] :: 8]:
            rec.case({**base, 'first': q})
    else:
        for n in NAMES:
            if n != 'date_time':
                for x in FORMS[n][1:]:
                    rec.case({**base, 'near': {n: x}})


def ask(g, kind, entries, q, rec):
    kw = {k: arg(v) for k, v in q.items() if v is not None}
    copy = {k: list(v) if isinstance(v, (list, tuple, np.ndarray)) else v for k, v in kw.items()}
    want = [entries[k] for k in select(entries, q)]
    try:
        out = g.snxarray(**kw) if kind == 'snd' else g.sfjson(**kw)
    except KeyError:
        expect(not want, lambda: f'query {q}: no match reported, but {want} match')
        rec.outcome('no match')
        return
    for k, v in kw.items():
        now = list(v) if isinstance(v, (list, tuple, np.ndarray)) else v
        expect(now == copy[k], lambda: f'query {q}: caller\'s {k} changed to {now}')
    got = [name_of(kind, o) for o in out]
    ref = [e[:5] for e in want]
    expect(got == ref and ref, lambda: f'query {q}: returned {got}, expected {ref}')
    rec.outcome(f'{len(want)} matched')


def name_of(kind, o):
    if kind == 'snd':
        a = o.attrs
        return (o.time.values[0].astype('datetime64[s]').astype(datetime), a['station_id'],
                a['station_number'], a['lat'], a['lon'])
    p = o['properties']
    return (p['date_time'], p['station_id'], p['station_number'], p['latitude'], p['longitude'])


def nearest(g, entries, q, rec):
    """Every minute offset around the stored times."""
    (name, x), = q.items()
    ids = None
    sel = [entries[k] for k in select(entries, q)]
    if name == 'station_id':
        ids = [v.upper() for v in flat(x)]
        groups = [[e for e in sel if e[1] == i] for i in ids]
    elif name == 'station_number':
        groups = [[e for e in sel if e[2] == int(i)] for i in flat(x)]
    else:
        # A station is told apart by identifier and number; one that moves is the same station.
        names = sorted({e[1:3] for e in sel})
        groups = [[e for e in entries if e[1:3] == i] for i in names]
    times = sorted({e[0] for e in entries})
    probes = set()
    for a, b in itertools.pairwise(times):
        mid = a + (b - a) / 2
        probes |= {mid, mid - timedelta(minutes=1), mid + timedelta(minutes=1)}
    for t in times:
        probes |= {t, t - timedelta(minutes=1), t + timedelta(minutes=1)}
    probes |= {times[0] - timedelta(days=400), times[-1] + timedelta(days=400)}
    for t in sorted(probes):
        for form in ('dt', 'str'):
            if form == 'str' and t.second:
                continue
            when_ = t if form == 'dt' else t.strftime('%Y%m%d%H%M')
            try:
                out = g.nearest_time(when_, **{name: arg(x)})
            except KeyError:
                expect(any(not gr for gr in groups), lambda: f'{q} {t}: nothing found')
                rec.outcome('unknown station')
                continue
            rec.step()
            expect(all(groups), lambda: f'{q}: unknown station gave {out}')
            got = [name_of('sfc', o) for o in out]
            if name not in ('station_id', 'station_number'):
                got.sort(key=lambda e: e[1:3])
            ok = len(got) == len(groups) and all(
                any(n == e[:5] for e in gr)
                and abs(n[0] - t) == min(abs(e[0] - t) for e in gr)
                for n, gr in zip(got, groups, strict=True)
            )
            expect(ok, lambda: f'nearest {t} for {q}: {got}, candidates {groups}')
            rec.outcome(f'nearest of {len(groups)}')


def run_case(case, rec):
    spec = file_of(case['kind'], case['which'])
    g, want = stnread.open_file(spec, rec)
    entries = [stnread.ident(spec, i, j) for i, j in sorted(want)]
    rec.state([case['kind'], case['which'], str(case.get('base')), str(case.get('first')),
               str(case.get('near'))])
    if 'near' in case:
        nearest(g, entries, case['near'], rec)
    elif 'first' in case:
        for second in queries():
            ask(g, case['kind'], entries, case['first'], rec)
            ask(g, case['kind'], entries, second, rec)
            rec.step(2)
    else:
        rest = [n for n in NAMES if n not in case['base']]
        for combo in itertools.product(*(FORMS[n] for n in rest)):
            q = dict(case['base'])
            q.update(zip(rest, combo, strict=True))
            if case['thin'] and sum(v is not None for v in q.values()) > 3:
                continue
            ask(g, case['kind'], entries, q, rec)
            rec.step()
