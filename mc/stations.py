"""Histories of the sounding and surface writers, against a dictionary reference model.

A case is {"kind": "snd"|"sfc", "params": [...], "ops": [...], ...}; ops are

    ["add", time, form, lat, lon, info, data, opts]   accepted addition
    ["bad", name]                                     an addition the API must reject
    ["write"]                                         write and check the file now

The file is always written and checked at the end.  Every check compares the file both through
the independent parser (gemref) and through the library's own reader with the model.
"""

from datetime import datetime, timedelta
import itertools
import math

import numpy as np

from gempakio import GempakSounding, GempakSurface, SoundingFile, SurfaceFile
from mc import gemref
from mc.core import expect, Violation

MISS = -9999.0
INFO = ('station_id', 'station_number', 'elevation', 'state', 'country', 'priority')


def parse_time(t):
    """'YYYYmmddHHMM' -> datetime."""
    return datetime.strptime(t, '%Y%m%d%H%M')


def time_arg(t, form):
    """The date_time argument in the requested accepted form, and what it means."""
    dt = parse_time(t)
    if form == 'dt':
        return dt, dt
    if form == 'str':
        return t, dt
    if form.startswith('s'):  # seconds, which the format does not hold
        sec = float(form[1:])
        return dt.replace(second=int(sec), microsecond=round(sec % 1 * 1e6)), dt
    if form.startswith(('F', 'f')):  # forecast hours from an earlier initialisation
        hours = int(form[1:])
        return (dt - timedelta(hours=hours)).strftime('%Y%m%d%H%M') + form, dt
    raise AssertionError(form)


def model_key(kind, dt, lat, lon, info):
    """What identifies an entry, as the format stores it."""
    if info is None:
        vals = ('', -9999, -9999, '', '', 0)
    else:
        vals = (
            str(info.get('station_id', '')).upper(),
            int(info.get('station_number', -9999)),
            int(info.get('elevation', -9999)),
            str(info.get('state', '')).upper(),
            str(info.get('country', '')).upper(),
            int(info.get('priority', 0)),
        )
    sid, num, elev, st, co, pri = vals
    return (dt, sid, num, round(lat * 100), round(lon * 100), elev, st, co,
            pri if kind == 'sfc' else 0)


def value(code, iparm, ilev):
    """A float32-exact value that is different for every (data code, parameter, level)."""
    if iparm == 0:  # vertical coordinate: strictly decreasing with level
        return 1000.0 - code / 8 - ilev * 2
    return (iparm * 64 + ilev) * 4 + code / 8 - 500.0


def make_values(params, data):
    """Column lists {PARAM: [..]} for a data spec (None marks missing)."""
    code, nlev, nans = data['code'], data.get('nlev', 1), data.get('nan', [])
    out = {}
    for ip, p in enumerate(params):
        col = [value(code, ip, k) for k in range(nlev)]
        for jp, jl in nans:
            if jp == ip and jl < nlev:
                col[jl] = None
        out[p.upper()] = col
    return out


def data_arg(kind, params, data, opts):
    """The data argument as a caller would build it."""
    vals = make_values(params, data)
    names = list(vals)
    perm = opts.get('perm')
    if perm:
        names = [names[i] for i in perm]
    case = {'up': str.upper, 'low': str.lower}.get(opts.get('case', 'up'))
    typ = opts.get('type', 'f8')
    miss = math.nan if opts.get('miss', 'nan') == 'nan' else MISS
    arg = {}
    for n in names:
        col = [miss if v is None else v for v in vals[n]]
        if kind == 'snd':
            if typ == 'list':
                arg[case(n)] = col
            elif typ == 'ma':  # masked where missing, whatever is underneath
                mask = [v is None for v in vals[n]]
                arg[case(n)] = np.ma.array([3.25 if v is None else v for v in vals[n]], mask=mask)
            elif typ == 'be':
                arg[case(n)] = np.array(col, dtype='>f8')
            else:
                arg[case(n)] = np.array(col, dtype=typ)
        else:
            v = col[0]
            if typ == 'f4':
                v = np.float32(v)
            elif typ == 'f8':
                v = np.float64(v)
            arg[case(n)] = v
    return arg, vals


def snapshot(arg):
    """Deep copy of a data argument for the no-mutation check."""
    return {k: (np.array(v, copy=True) if not np.isscalar(v) else v) for k, v in arg.items()}


def same_arg(a, b):
    """Whether a data argument is unchanged."""
    return list(a) == list(b) and all(
        np.array_equal(np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float),
                       equal_nan=True)
        for k in a
    )


def bad_call(kind, f, params, name):
    """Issue one rejected call; raise Violation if it is accepted."""
    data, _ = data_arg(kind, params, {'code': 3, 'nlev': 2 if kind == 'snd' else 1}, {})
    add = f.add_sounding if kind == 'snd' else f.add_station
    dt = datetime(2020, 1, 31, 12)
    first = next(iter(data))
    args = {
        'notdict': lambda: add([1, 2], 10.0, 20.0, dt),
        'badlat': lambda: add(data, '10', 20.0, dt),
        'badlon': lambda: add(data, 10.0, None, dt),
        'badtime': lambda: add(data, 10.0, 20.0, 20200131),
        'badstr': lambda: add(data, 10.0, 20.0, '2020-01-31'),
        'extra': lambda: add({**data, 'ZZZZ': data[first]}, 10.0, 20.0, dt),
        'missing': lambda: add({k: v for k, v in data.items() if k != first}, 10.0, 20.0, dt),
        'ragged': lambda: add({**data, first: data[first][:1]}, 10.0, 20.0, dt),
        'toolong': lambda: add(
            {k: np.zeros(501) for k in data}, 10.0, 20.0, dt),
        'badnum': lambda: add(data, 10.0, 20.0, dt, {'station_number': 'abc'}),
    }[name]
    try:
        args()
    except (TypeError, ValueError, KeyError, AttributeError):
        return
    raise Violation(f'invalid addition `{name}` was accepted')


BAD = {
    'snd': ['notdict', 'badlat', 'badlon', 'badtime', 'badstr', 'extra', 'missing', 'ragged',
            'toolong', 'badnum'],
    'sfc': ['notdict', 'badlat', 'badlon', 'badtime', 'badstr', 'extra', 'missing', 'badnum'],
}


def check_parsed(kind, params, raw, model):
    """Independent view: structure of the file, and exactly the model's entries in it."""
    try:
        o = gemref.parse(raw)
    except gemref.Malformed as e:
        raise Violation(f'written file is malformed: {e}') from None
    L = o.label
    expect(L['file_type'] == (2 if kind == 'snd' else 1), f'file type {L["file_type"]}')
    expect(len(o.parts) == 1, 'one part expected')
    part = o.parts[0]
    expect(part['name'] == ('SNDT' if kind == 'snd' else 'SFDT'), f'part {part["name"]}')
    expect(
        [p['name'] for p in part['params']] == [p.upper() for p in params],
        lambda: f'parameters {part["params"]} != {params}',
    )
    expect(all(r is not None for r in o.rows + o.cols), 'unused header in a compact file')
    got = {}
    for (i, j, _k), (at, ln) in o.data.items():
        r, c = o.rows[i], o.cols[j]
        d = f'{o.I(r["DATE"]):06d}{o.I(r["TIME"]):04d}'
        dt = datetime.strptime(d, '%y%m%d%H%M')
        key = (
            dt,
            (o.S(c['STID']) + o.S(c['STD2'])).strip(),
            o.I(c['STNM']),
            o.I(c['SLAT']),
            o.I(c['SLON']),
            o.I(c['SELV']),
            o.S(c['STAT']).strip(),
            o.S(c['COUN']).strip(),
            o.I(c['SPRI']) if kind == 'sfc' else 0,
        )
        expect(key not in got, f'entry {key} stored twice')
        h = part['header']
        expect(o.I(at) == dt.hour * 100 + dt.minute, f'data header time {o.I(at)} for {dt}')
        vals = [o.F(w) for w in range(at + h, at + ln)]
        got[key] = vals
    expect(
        set(got) == set(model),
        lambda: f'entries in file {diff(got, model)}',
    )
    for key, cols in model.items():
        nlev = len(next(iter(cols.values())))
        exp = [MISS if cols[p.upper()][k] is None else gemref.f32(cols[p.upper()][k])
               for k in range(nlev) for p in params]
        expect(got[key] == exp, lambda: f'{key}: stored {got[key][:12]} expected {exp[:12]}')


def diff(a, b):
    """Readable difference of two collections."""
    x, y = set(a), set(b)
    return f'extra={sorted(x - y, key=str)[:4]} missing={sorted(y - x, key=str)[:4]}'


def reader_key(key):
    """Model key as the reader reports it."""
    dt, sid, num, lat, lon, elev, st, co, pri = key
    return (dt, sid, num, lat / 100, lon / 100, elev, st, co, pri)


def check_reader(kind, params, path, model):
    """The library's reader lists and returns exactly the model's entries."""
    want = {reader_key(k): v for k, v in model.items()}
    if kind == 'snd':
        g = GempakSounding(path)
        info = [(s.DATTIM, s.ID, s.NUMBER, s.LAT, s.LON, s.ELEV, s.STATE, s.COUNTRY, 0)
                for s in g.sninfo()]
    else:
        g = GempakSurface(path)
        info = [(s.DATTIM, s.ID, s.NUMBER, s.LAT, s.LON, s.ELEV, s.STATE, s.COUNTRY)
                for s in g.sfinfo()]
    wkeys = sorted(want, key=str) if kind == 'snd' else sorted((k[:8] for k in want), key=str)
    expect(
        sorted(info, key=str) == wkeys,
        lambda: f'listing differs: {diff(info, wkeys)}',
    )
    if kind == 'snd':
        out = g.snxarray()
        expect(len(out) == len(want), f'{len(out)} soundings returned, {len(want)} stored')
        seen = set()
        for ds in out:
            a = ds.attrs
            t = ds.time.values[0].astype('datetime64[s]').astype(datetime)
            key = (t, a['station_id'], a['station_number'], a['lat'], a['lon'],
                   a['elevation'], a['state'], a['country'], 0)
            expect(key in want, lambda k=key: f'returned sounding {k} was never added')
            expect(key not in seen, lambda k=key: f'sounding {k} returned twice')
            seen.add(key)
            compare_sounding(ds, params, want[key])
    else:
        out = g.sfjson()
        expect(len(out) == len(want), f'{len(out)} reports returned, {len(want)} stored')
        seen = set()
        for st in out:
            p = st['properties']
            key = (p['date_time'], p['station_id'], p['station_number'], p['latitude'],
                   p['longitude'], p['elevation'], p['state'], p['country'], p['priority'])
            expect(key in want, lambda k=key: f'returned report {k} was never added')
            expect(key not in seen, lambda k=key: f'report {k} returned twice')
            seen.add(key)
            cols = want[key]
            expect(
                sorted(st['values']) == sorted(x.lower() for x in cols),
                lambda s=st: f'returned parameters {list(s["values"])}',
            )
            for name, col in cols.items():
                v = float(st['values'][name.lower()])
                e = MISS if col[0] is None else gemref.f32(col[0])
                expect(v == e, lambda n=name, v=v, e=e: f'{key}: {n} = {v}, stored {e}')


def compare_sounding(ds, params, cols):
    """A returned dataset holds exactly the levels that were added."""
    names = [p.upper() for p in params]
    vc = 'PRES' if 'PRES' in names else 'HGHT'
    nlev = len(cols[vc])
    order = sorted(range(nlev), key=lambda k: cols[vc][k], reverse=(vc == 'PRES'))
    if vc == 'PRES':
        sp, want = float(ds.attrs['station_pressure']), gemref.f32(cols[vc][0]) if nlev else MISS
        expect(sp == want, f'station pressure {sp} expected {want}')
    expect(
        [float(x) for x in ds[vc.lower()].values] == [gemref.f32(cols[vc][k]) for k in order],
        lambda: f'vertical coordinate {ds[vc.lower()].values[:8]} expected {cols[vc][:8]}',
    )
    expect(
        sorted(str(v) for v in ds.data_vars) == sorted(n.lower() for n in names if n != vc),
        lambda: f'variables {list(ds.data_vars)}',
    )
    for n in names:
        if n == vc:
            continue
        got = np.asarray(ds[n.lower()].values, dtype=float)
        expect(got.shape == (1, nlev), lambda n=n, g=got: f'{n}: shape {g.shape}')
        for k, src in enumerate(order):
            e = cols[n][src]
            v = got[0, k]
            ok = math.isnan(v) if e is None else v == gemref.f32(e)
            expect(ok, lambda n=n, k=k, v=v, e=e: f'{n} level {k}: {v} expected {e}')


def replay(case, rec, reader=True, parsed=True):
    """Run a history on the real writer."""
    kind, params = case['kind'], case['params']
    given = [p.lower() for p in params] if case.get('lower') else list(params)
    if case.get('ptype') == 'tuple':
        given = tuple(given)
    elif case.get('ptype') == 'array':
        given = np.array(given)
    f = SoundingFile(given) if kind == 'snd' else SurfaceFile(given)
    model = {}
    path = rec.path()

    def check():
        f.to_gempak(path)
        rec.step()
        with open(path, 'rb') as h:
            raw = h.read()
        if parsed:
            check_parsed(kind, params, raw, model)
        if reader and model:
            check_reader(kind, params, path, model)
        return raw

    raw = None
    for op in case['ops']:
        if op[0] == 'add':
            _, t, form, lat, lon, info, data, opts = op
            targ, dt = time_arg(t, form)
            arg, vals = data_arg(kind, params, data, opts)
            keep = snapshot(arg)
            iarg = None if info is None else dict(info)
            ikeep = None if info is None else dict(info)
            add = f.add_sounding if kind == 'snd' else f.add_station
            if info is None and opts.get('noinfo'):
                add(arg, lat, lon, targ)
            else:
                add(arg, lat, lon, targ, iarg)
            expect(same_arg(arg, keep), 'caller\'s data was modified by adding it')
            expect(iarg == ikeep, 'caller\'s station information was modified by adding it')
            if opts.get('scribble') and kind == 'snd':
                for v in arg.values():  # the caller reuses its buffers afterwards
                    v[:] = [7.0] * len(v) if isinstance(v, list) else 7.0
            model[model_key(kind, dt, lat, lon, info)] = vals
        elif op[0] == 'bad':
            bad_call(kind, f, params, op[1])
        elif op[0] == 'write':
            if model:
                raw = check()
            else:  # nothing to compare, but it must not disturb what follows
                f.to_gempak(path)
        rec.step()
        rec.state([kind, sorted((str(k), str(v)) for k, v in model.items())])
    if model:
        end = check()
        if case['ops'][-1][0] == 'write' and raw is not None:
            expect(end == raw, 'writing the same contents again gave a different file')
    rec.outcome(f'{kind}:{min(len(model), 9)} entries')


# ------------------------------------------------------------------ alphabets
STATIONS = [
    (43.13, -89.33, {'station_id': 'KMSN', 'station_number': 726410, 'elevation': 262,
                     'state': 'WI', 'country': 'US', 'priority': 0}),
    # same first four characters, five-character id
    (43.13, -89.33, {'station_id': 'KMSNX', 'station_number': 726410, 'elevation': 262,
                     'state': 'WI', 'country': 'US', 'priority': 0}),
    (-43.13, 89.33, None),
    # only the coordinates differ from the entry without station information
    (-43.13, 89.34, None),
    (0.0, 0.0, {'station_id': 'kmsn', 'country': 'AU', 'priority': 3}),
]
TIMES = ['202001311200', '202001310000', '201912311200', '200001010000']


def add_op(s, t, code, form='dt', nlev=2, nan=(), **opts):
    """One addition."""
    lat, lon, info = STATIONS[s]
    return ['add', TIMES[t], form, lat, lon, info,
            {'code': code, 'nlev': nlev, 'nan': [list(x) for x in nan]}, opts]


def histories(kind, depth, rich):
    """All operation sequences up to depth over the alphabet."""
    lev = 2 if kind == 'snd' else 1
    al = []
    for s, t in itertools.product(range(3), range(2)):
        al.append(add_op(s, t, 1 + s + 3 * t, form=('dt', 'str')[s % 2], nlev=lev,
                         scribble=(s == 0)))
    al.append(add_op(0, 0, 17, nlev=3 if kind == 'snd' else 1, nan=[(1, 0)]))  # a replacement
    al.append(add_op(3, 2, 21, nlev=1, nan=[(1, 0)], noinfo=True))
    if kind == 'snd':
        al.append(add_op(1, 2, 23, form='F6', nlev=4, perm=[2, 0, 1]))
    else:
        al.append(add_op(1, 2, 23, nlev=1, perm=[2, 0, 1], case="low"))
    if rich:
        al.append(add_op(4, 3, 29, nlev=lev, case='low'))
        al.append(add_op(2, 3, 31, nlev=lev))
    al.append(['write'])
    al.append(['bad', 'extra'])
    al.append(['bad', 'badtime'])
    if kind == 'snd':
        al.append(['bad', 'ragged'])
    else:
        al.append(['bad', 'badnum'])
    return al


PARAMS = {'snd': ['PRES', 'TEMP', 'DWPT'], 'sfc': ['TMPC', 'DWPC', 'SKNT']}


# differences that the file does not hold: (latitude, longitude, seconds)
FINE = [(a, o, sec) for a in (0, 0.0012, -0.0042) for o in (0, 0.0042, -0.0012)
        for sec in ('dt', 's0.000001', 's1', 's59.999999')]


def plan(kind, tier):
    """Work units for one kind of file."""
    thorough = tier == 'thorough'
    depth = 4 if thorough else 3
    n = len(histories(kind, depth, thorough))
    units = [{'u': 'hist', 'kind': kind, 'first': [a, b], 'depth': depth, 'rich': thorough}
             for a in range(n) for b in range(n)]
    units += [{'u': 'occ', 'kind': kind, 'r': r, 'c': c, 'lo': lo, 'hi': min(lo + 64, 2 ** (r * c))}
              for r, c in [(1, 4), (4, 1), (2, 3), (3, 2), (3, 3)]
              + ([(2, 5), (5, 2), (3, 4)] if thorough else [])
              for lo in range(1, 2 ** (r * c), 64)]
    top = 300 if thorough else 140
    units += [{'u': 'lev', 'kind': kind, 'lo': lo, 'hi': lo + 10} for lo in range(1, top, 10)]
    if kind == 'snd':
        units.append({'u': 'lev', 'kind': kind, 'lo': 0, 'hi': 1})
    units += [{'u': 'size', 'kind': kind, 'lo': lo, 'hi': lo + 4}
              for lo in range(1, 140 if thorough else 66, 4)]
    units += [{'u': 'll', 'kind': kind, 'lo': lo, 'hi': min(lo + 400, 36001)}
              for lo in range(0, 36001, 400)]
    units += [{'u': 'time', 'kind': kind, 'part': p, 'k': k}
              for p, ks in (('min', range(6)), ('day', range(1, 13)), ('year', range(4)))
              for k in ks]
    units += [{'u': 'info', 'kind': kind, 'mask': m} for m in range(64)]
    units += [{'u': 'ids', 'kind': kind}]
    units += [{'u': 'vals', 'kind': kind, 'k': k} for k in range(6)]
    units += [{'u': 'bad', 'kind': kind}]
    units += [{'u': 'fine', 'kind': kind, 'k': k} for k in range(len(FINE))]
    units += [{'u': 'large', 'kind': kind, 'k': k} for k in range(3)]
    return units


def run_unit(unit, rec):
    """Enumerate a unit completely."""
    kind = unit['kind']
    P = PARAMS[kind]
    base = {'kind': kind, 'params': P}
    u = unit['u']
    if u == 'hist':
        al = histories(kind, unit['depth'], unit['rich'])
        a, b = unit['first']
        if b == 0:
            rec.case({**base, 'ops': [al[a]]})
        rec.case({**base, 'ops': [al[a], al[b]]})
        for d in range(3, unit['depth'] + 1):
            for tail in itertools.product(range(len(al)), repeat=d - 2):
                rec.case({**base, 'ops': [al[a], al[b]] + [al[i] for i in tail]})
    elif u == 'occ':
        r, c = unit['r'], unit['c']
        for mask in range(unit['lo'], unit['hi']):
            cells = [k for k in range(r * c) if mask >> k & 1]
            for order in (cells, cells[::-1]):
                ops = []
                for k in order:
                    i, j = divmod(k, c)
                    t = (datetime(2020, 2, 28, 18) + timedelta(hours=9 * i)).strftime('%Y%m%d%H%M')
                    ops.append(['add', t, 'dt', 10.0 + j, -20.0 - j, {'station_id': f'ST{j}'},
                                {'code': k + 1, 'nlev': 1 + k % 3 if kind == 'snd' else 1}, {}])
                rec.case({**base, 'ops': ops})
    elif u == 'lev':
        for n in range(unit['lo'], unit['hi']):
            if kind == 'snd':
                for np_ in (2, 3, 6):
                    prm = ['PRES', 'TEMP', 'DWPT', 'HGHT', 'DRCT', 'SPED'][:np_]
                    ops = [['add', t, 'dt', 10.0, 20.0, None, {'code': c, 'nlev': m}, {}]
                           for c, (t, m) in enumerate([(TIMES[1], n), (TIMES[0], 3)])]
                    rec.case({'kind': kind, 'params': prm, 'ops': ops})
            if 1 <= n <= 44:
                prm = (['PRES'] if kind == 'snd' else ['TMPC']) + [f'P{i:03d}' for i in range(n - 1)]
                ops = [['add', t, 'dt', 10.0, 20.0, None, {'code': c, 'nlev': 1}, {}]
                       for c, t in enumerate([TIMES[1], TIMES[0]])]
                for ptype in ('list', 'tuple', 'array'):
                    rec.case({'kind': kind, 'params': prm, 'ops': ops, 'ptype': ptype,
                              'lower': n % 2 == 1})
            if n == 1 and kind == 'snd':
                rec.case({'kind': kind, 'params': ['HGHT', 'TEMP'],
                          'ops': [['add', TIMES[0], 'str', 1.0, 2.0, None,
                                   {'code': 5, 'nlev': 5}, {}]]})
                for m in (499,):
                    rec.case({'kind': kind, 'params': P,
                              'ops': [['add', TIMES[0], 'str', 1.0, 2.0, None,
                                       {'code': 5, 'nlev': m}, {}]]})
    elif u == 'size':
        for n in range(unit['lo'], unit['hi']):
            for r in (1, 2, 3, 5, 6, 8):
                ops = []
                for j in range(n):
                    i = j % r
                    t = (datetime(2020, 2, 28, 18) + timedelta(hours=9 * i)).strftime('%Y%m%d%H%M')
                    ops.append(['add', t, 'dt', 10.0 + j / 4, -20.0, {'station_id': f'S{j:03d}'},
                                {'code': j + 1, 'nlev': 1}, {}])
                rec.case({**base, 'ops': ops})
    elif u == 'large':
        # addresses beyond 16 bits, by data and by table cells
        n, r = ((24, 1), (150, 30), (520, 140))[unit['k']]
        lev, names = (499, P + ['HGHT', 'DRCT', 'SPED']) if unit['k'] == 0 and kind == 'snd' else (1, P)
        ops = []
        for j in range(n):
            t = (datetime(2020, 2, 20) + timedelta(hours=j * 7 % r)).strftime('%Y%m%d%H%M')
            ops.append(['add', t, 'dt', 10.0 + j / 8, -20.0, {'station_id': f'S{j:03d}'},
                        {'code': j % 97, 'nlev': lev}, {}])
        rec.case({'kind': kind, 'params': names, 'ops': ops})
    elif u == 'll':
        # every hundredth of a degree, as the caller would type it
        ops = []
        for h in range(unit['lo'], unit['hi']):
            lon = float(f'{(h - 18000) / 100:.2f}')
            lat = float(f'{(h - 18000) / 200:.2f}')
            ops.append(['add', TIMES[0], 'dt', lat, lon, None, {'code': h % 97, 'nlev': 1}, {}])
        rec.case({**base, 'ops': ops})
    elif u == 'time':
        part, k = unit['part'], unit['k']
        if part == 'min':
            ts = [datetime(2020, 3, 1) + timedelta(minutes=m) for m in range(k * 240, k * 240 + 240)]
        elif part == 'day':
            ts = [datetime(y, k, 1, 6, 30) + timedelta(days=d) for y in (1999, 2000, 2023, 2024)
                  for d in range(31) if (datetime(y, k, 1) + timedelta(days=d)).month == k]
        else:
            ts = [datetime(y, m, d, h) for y in range(1969 + 25 * k, 1994 + 25 * k)
                  for m, d, h in ((1, 1, 0), (12, 31, 23))]
        ops = [['add', t.strftime('%Y%m%d%H%M'), ('dt', 'str')[i % 2], 10.0, 20.0, None,
                {'code': i, 'nlev': 1}, {}] for i, t in enumerate(ts)]
        rec.case({**base, 'ops': ops})
        rec.case({**base, 'ops': ops[::-1]})
        if kind == 'snd' and part == 'day':
            for f in ['F0', 'f3', 'F06', 'F012', 'F24', 'f120', 'F240']:
                rec.case({**base, 'ops': [['add', t.strftime('%Y%m%d%H%M'), f, 10.0, 20.0, None,
                                           {'code': i, 'nlev': 1}, {}]
                                          for i, t in enumerate(ts[:31])]})
    elif u == 'info':
        full = {'station_id': 'KMSN', 'station_number': 72641, 'elevation': 262, 'state': 'WI',
                'country': 'US', 'priority': 2}
        info = {k: full[k] for i, k in enumerate(INFO) if unit['mask'] >> i & 1}
        if kind == 'snd':
            info.pop('priority', None)
        other = {**info, 'station_id': 'ZZZZ'}
        for pair in ([info], [info, other], [other, info], [None, info], [info, None]):
            ops = [['add', TIMES[0], 'dt', 10.0, 20.0, x, {'code': i, 'nlev': 1}, {}]
                   for i, x in enumerate(pair)]
            rec.case({**base, 'ops': ops})
    elif u == 'ids':
        word = 'ABCDEFGH'
        for n in range(9):
            for low in (False, True):
                sid = word[:n].lower() if low else word[:n]
                for st in ('', 'W', 'WI', 'WIS', 'wisc', 'Wisc'):
                    for num, elev in ((0, 0), (-1, -10), (999999, 8848), (72641, 1)):
                        info = {'station_id': sid, 'station_number': num, 'elevation': elev,
                                'state': st, 'country': st[::-1]}
                        rec.case({**base, 'ops': [['add', TIMES[0], 'dt', 1.0, 2.0, info,
                                                   {'code': n, 'nlev': 1}, {}]]})
        for sid in ('A B', 'ABC D', 'ABCD E', 'A  B  C', 'ABCD   E', 'A-1/2 %', '7', '-'):
            for low in (False, True):
                info = {'station_id': sid.lower() if low else sid, 'station_number': 5,
                        'elevation': 3, 'state': 'A B', 'country': 'C D'}
                rec.case({**base, 'ops': [['add', TIMES[0], 'dt', 1.0, 2.0, info,
                                           {'code': 3, 'nlev': 1}, {}]]})
        for name in ('station_number', 'elevation', *(['priority'] if kind == 'sfc' else [])):
            for b in (15, 16, 24, 31):
                for num in (2**b - 1, *([2**b, 1 - 2**b] if b < 31 else []), -(2**b)):
                    if num == -9999:
                        continue
                    rec.case({**base, 'ops': [
                        ['add', TIMES[0], 'dt', 1.0, 2.0, {'station_id': 'KABC', name: num},
                         {'code': 3, 'nlev': 1}, {}]]})
    elif u == 'vals':
        lev = 2 if kind == 'snd' else 1
        cells = [(p, k) for p in range(1 if kind == 'snd' else 0, 3) for k in range(lev)]
        perm = list(itertools.permutations(range(3)))[unit['k']]
        for m in range(2 ** len(cells)):
            nan = [list(c) for i, c in enumerate(cells) if m >> i & 1]
            for typ in ('f8', 'f4', 'list', *(('ma', 'be') if kind == 'snd' else ())):
                for case in ('up', 'low'):
                    for miss in ('nan', '-9999'):
                        rec.case({**base, 'ops': [
                            ['add', TIMES[0], 'dt', 1.0, 2.0, None,
                             {'code': 8, 'nlev': lev, 'nan': nan},
                             {'perm': list(perm), 'type': typ, 'case': case, 'miss': miss}]]})
        if kind == 'snd':
            for typ in ('i4', 'i8', 'i2'):
                rec.case({**base, 'ops': [['add', TIMES[0], 'dt', 1.0, 2.0, None,
                                           {'code': 8, 'nlev': 3},
                                           {'perm': list(perm), 'type': typ}]]})
    elif u == 'fine':
        for lat, lon in ((43.13, -89.33), (-0.01, 179.99), (0.0, 0.0)):
            for other in FINE:
                ops = [['add', t, sec, lat + a, lon + o, None, {'code': i, 'nlev': 1}, {}]
                       for i, (t, (a, o, sec)) in enumerate([
                           (TIMES[0], FINE[unit['k']]), (TIMES[0], other),
                           (TIMES[1], FINE[unit['k']]), ('202001311201', other)])]
                rec.case({**base, 'ops': ops})
    elif u == 'bad':
        good = add_op(0, 0, 1, nlev=2 if kind == 'snd' else 1)
        for b in BAD[kind]:
            for seq in ([good, ['bad', b]], [['bad', b], good], [good, ['bad', b], ['write']],
                        [good, ['write'], ['bad', b], ['write']],
                        [['bad', b], ['bad', b], good]):
                rec.case({**base, 'ops': seq})
