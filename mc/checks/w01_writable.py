"""W01: what the writers accept can be written and read back; what they refuse leaves no trace."""

from datetime import datetime, timedelta, timezone
from decimal import Decimal
import itertools
import math
import re

import numpy as np

from mc import gemref
from mc import vgfwrite as W
from mc.core import expect, Violation

PROPERTY = 'W01'
LEVEL = 'model_checking'
RULE = (
    'A case is an addition with one or two arguments replaced by unusual values, made on a '
    'writer that already holds one entry; the file written afterwards is compared with what was '
    'refused (the same bytes as before) or accepted (both entries, the new one with the value '
    'given). Non-trivial: distinct arguments.'
)


class Odd:
    """Not a number, text or container of any kind."""


NUMBERS = {
    'zero': 0, 'neg': -1, 'int': 17, 'frac': 2.5, 'whole': 2.0, 'nan': math.nan, 'inf': math.inf,
    '-inf': -math.inf, '1e39': 1e39, '3.5e38': 3.5e38, '3.4e38': 3.4e38, 'i4max': 2**31 - 1,
    'i4max+1': 2**31, 'i4min': -(2**31), 'i4min-1': -(2**31) - 1, '1e30': 10**30,
    '1e400': 10**400, '1e8': 1e8, 'true': True, 'f4': np.float32(2.5), 'i8': np.int64(3),
    'u1': np.uint8(200), 'i1': np.int8(-3), 'f2': np.float16(2.5), 'f8nan': np.float64('nan'),
    'whole8': np.float64(3.0), 'ld': np.longdouble(2.5), 'decimal': Decimal('2.5'),
    'complex': 1 + 2j, 'dt64': np.datetime64('2020-01-01'), 'td64': np.timedelta64(3, 'h'),
    'nat': np.datetime64('NaT'), 'masked': np.ma.masked, 'a0': np.array(3.0),
    'a1': np.array([3.0]),
}
TEXTS = {
    'empty': '', 'blank': '    ', 'A': 'A', 'AB': 'AB', 'ABCD': 'ABCD', 'ABCDE': 'ABCDE',
    'ABCDEFGH': 'ABCDEFGH', 'ABCDEFGHI': 'ABCDEFGHI', 'ABCDEFGHIJKL': 'ABCDEFGHIJKL',
    'x13': 'ABCDEFGHIJKLM', 'low': 'abcd', 'e': 'É', 'eee': 'ÉÉÉ', 'eeee': 'ÉÉÉÉ',
    'e5': 'ÉÉÉÉÉ', 'abce': 'ABCÉ', 'abcdefge': 'ABCDEFGÉ', 'ss': 'Straße', 'emoji': '\U0001f300',
    'nul': 'A\0B', 'nl': 'A\n', 'lead': ' A', 'inner': 'A B', 'dash': 'A-B', 'digit': '1AB',
    'number': '123', 'float': '2.5', 'def': 'DEF', 'surrogate': '\udc80',
}
OTHERS = {'none': None, 'list': [1], 'tuple': (1, 2), 'dict': {}, 'bytes': b'AB', 'odd': Odd(),
          'set': {1}, 'dt': datetime(2020, 1, 31, 12, 30),
          'aware': datetime(2020, 1, 31, 12, 30, tzinfo=timezone.utc),
          'date': datetime(2020, 1, 31).date(), 'sec': datetime(2020, 1, 31, 12, 30, 59, 999),
          'dtmax': datetime.max, 'dtmin': datetime.min}
VALUES = {**{'n:' + k: v for k, v in NUMBERS.items()}, **{'t:' + k: v for k, v in TEXTS.items()},
          **{'o:' + k: v for k, v in OTHERS.items()}}
# one value in three kinds: used in pairs
FEW = ['n:nan', 'n:i4max+1', 'n:1e39', 'n:frac', 'n:whole', 't:eee', 't:ABCDEFGHI', 'o:none',
       'n:int', 't:AB']
COLUMNS = {
    'list': lambda v: [1.0, v], 'array': lambda v: np.array([1.0, v]),
    'object': lambda v: np.array([1.0, v], dtype=object), 'scalar': lambda v: v,
    'one': lambda v: [v], 'three': lambda v: [v, 1.0, 2.0], 'two-d': lambda v: [[1.0, v]] * 2,
    'empty': lambda v: [], 'masked': lambda v: np.ma.array([1.0, v], mask=[False, True]),
}
ARGS = {
    'snd': ['slat', 'slon', 'date_time', 'station_id', 'station_number', 'elevation', 'state',
            'country', 'PRES', 'TEMP', 'key', 'data', 'info'],
    'sfc': ['slat', 'slon', 'date_time', 'station_id', 'station_number', 'elevation', 'state',
            'country', 'priority', 'PRES', 'TEMP', 'key', 'data', 'info'],
    'grd': ['grid', 'point', 'parameter_name', 'vertical_coordinate', 'level', 'date_time',
            'level2', 'date_time2'],
}
TIMES = ['202001311230', '20200131', '2020013112', '202013011200', '202002301200',
         '202001312460', '202001311200F', '202001311200F6', '202001311200F999',
         '202001311200F99959', '202001311200F00660', '202001311200F00699', '202001311200F-6',
         '202001311200F-06', '202001311200F+6', '202001311200F 6', '202001311200F6.5',
         '202001311200F1_0', '202001311200F1000', '202001311200F100000', '202001311200F123456',
         '202001311200F12H', '202001311200F١٢', '202001311200A006', '202001311200A-6',
         '202001311200A00699', '202001311200V00', '202001311200G012', '202001311200I',
         '202001311200X006', '202001311200F006F006', 'F006', '202001311200 ', ' 202001311200',
         '2020013112000', '2020-01-31T12:00', '000101010000', '999912312359', '196812312359',
         '206901010000', '', 'LATEST']
DTYPES = ['bool', 'i1', 'u1', 'i2', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', 'f16', 'c8', 'c16',
          'O', 'U3', 'S3', 'M8[h]', 'm8[h]', 'V8', 'masked', 'masked-int', 'matrix', 'record']
ATTRS = {
    'precision': [-1, 0, 1, 2, 16, 31, 32, 33, 64, 2.0, 15.5, '16', None],
    'packing_type': [0, 1, 2, 3, 4, 5, -1, None, 'grib'],
}
ELEMENTS = ['Line', 'SpecialLine', 'Front', 'SpecialText', 'SpecialSymbol', 'Marker']


def vgf_args(cls):
    """Everything a caller can give an element of this class."""
    return ['lon', 'lat', *(['text'] if cls == 'SpecialText' else []), *W.OPTIONS[cls]]


def vgf_sets(cls):
    """Everything a caller can assign."""
    return list(dict.fromkeys([*W.SETTERS[cls], *W.COMMON]))


def plan(tier):
    t = tier == 'thorough'
    units = []
    for kind, args in ARGS.items():
        units += [{'u': 'one', 'kind': kind, 'arg': a} for a in args]
        units += [{'u': 'two', 'kind': kind, 'a': a, 'b': b, 't': t}
                  for a, b in itertools.combinations(args, 2)]
    units += [{'u': 'times', 'kind': k} for k in ('snd', 'sfc', 'grd')]
    units += [{'u': 'params', 'kind': k} for k in ('snd', 'sfc')]
    units += [{'u': 'columns', 'kind': 'snd'}, {'u': 'dtypes'}, {'u': 'attrs'}]
    units += [{'u': 'shapes'}, {'u': 'lengths'}, {'u': 'keys', 'kind': 'snd'},
              {'u': 'keys', 'kind': 'sfc'}]
    units += [{'u': 'limit', 'kind': k} for k in ('snd', 'sfc', 'grd')]
    for cls in ELEMENTS:
        units += [{'u': 'vgf', 'cls': cls, 'arg': a} for a in vgf_args(cls)]
        units += [{'u': 'vset', 'cls': cls, 'arg': a} for a in vgf_sets(cls)]
    units += [{'u': 'vadd'}]
    return units


def bounds(tier):
    return {
        'values': f'{len(VALUES)} numbers, texts and other objects for every argument of every '
                  'writer and every option and assignment of every element',
        'pairs': 'every pair of arguments over ' + ('every value' if tier == 'thorough' else
                                                    f'{len(FEW)} values'),
        'times': f'{len(TIMES)} texts for each time argument',
        'limits': 'the addition that reaches, and the one that exceeds, the format\'s limit of '
                  'headers',
    }


def run_unit(unit, rec):
    u = unit['u']
    if u == 'one':
        for v in VALUES:
            if (unit['arg'], v) != ('point', 'n:masked'):  # not a value an array can hold
                rec.case({'kind': unit['kind'], 'args': {unit['arg']: v}})
    elif u == 'two':
        vals = list(VALUES) if unit['t'] else FEW
        few = FEW
        for v, w in itertools.product(vals, few):
            rec.case({'kind': unit['kind'], 'args': {unit['a']: v, unit['b']: w}})
    elif u == 'times':
        names = ('date_time', 'date_time2') if unit['kind'] == 'grd' else ('date_time',)
        for n, t in itertools.product(names, TIMES):
            rec.case({'kind': unit['kind'], 'args': {n: '=' + t}})
        if unit['kind'] == 'grd':
            for a, b in itertools.product(TIMES, TIMES):
                rec.case({'kind': 'grd', 'args': {'date_time': '=' + a, 'date_time2': '=' + b}})
    elif u == 'params':
        for v in VALUES:
            for extra in ((), ('PRES',), ('pres',), ('ABCD',), ('ABCDX',)):
                rec.case({'kind': unit['kind'], 'params': [v, *extra]})
        for v in VALUES:
            rec.case({'kind': unit['kind'], 'params': v})
    elif u == 'columns':
        for a in ('PRES', 'TEMP'):
            for c in COLUMNS:
                for v in VALUES:
                    rec.case({'kind': 'snd', 'args': {a: v}, 'col': c})
    elif u == 'dtypes':
        for d in DTYPES:
            rec.case({'kind': 'grd', 'args': {}, 'dtype': d})
    elif u == 'shapes':
        for n in range(4):
            for shape in itertools.product([0, 1, 2, 3, 4, 6, 12], repeat=n):
                if math.prod(shape) <= 24:
                    rec.case({'kind': 'grd', 'args': {}, 'shape': list(shape)})
    elif u == 'lengths':
        shapes = [[], [0], [1], [2], [3], [1, 1], [1, 2], [2, 1], [2, 2], [0, 2], [2, 1, 1]]
        for a, b in itertools.product(shapes, repeat=2):
            rec.case({'kind': 'snd', 'args': {}, 'shapes': [a, b]})
    elif u == 'keys':
        for n in range(5):
            for keys in itertools.permutations(['PRES', 'TEMP', 'pres', 'temp', 'WIND'], n):
                rec.case({'kind': unit['kind'], 'args': {}, 'keys': list(keys)})
    elif u == 'attrs':
        for a, vals in ATTRS.items():
            for i in range(len(vals)):
                rec.case({'kind': 'grd', 'attr': a, 'i': i})
    elif u == 'limit':
        rec.case({'kind': unit['kind'], 'limit': 1})
    elif u == 'vgf':
        for v in VALUES:
            rec.case({'cls': unit['cls'], 'args': {unit['arg']: v}})
    elif u == 'vset':
        for v in VALUES:
            rec.case({'cls': unit['cls'], 'set': unit['arg'], 'v': v})
    elif u == 'vadd':
        for v in VALUES:
            rec.case({'add': v})


# --- GEMPAK files ------------------------------------------------------------------------------


def make(kind, params=('PRES', 'TEMP')):
    """A writer with nothing in it."""
    import gempakio
    from mc import grids

    if kind == 'grd':
        return grids.new_file(4, 3)
    return (gempakio.SoundingFile if kind == 'snd' else gempakio.SurfaceFile)(list(params))


GOOD = {'station_id': 'KAAA', 'station_number': 72000, 'elevation': 100, 'state': 'WI',
        'country': 'US'}
GRID = np.arange(12.0).reshape(3, 4)


def base(kind, f):
    """The entry that is there already."""
    if kind == 'snd':
        f.add_sounding({'PRES': [900.0, 800.0], 'TEMP': [5.0, -9999.0]}, 40.0, -90.0,
                       '202001010000', dict(GOOD))
    elif kind == 'sfc':
        f.add_station({'PRES': 900.0, 'TEMP': 5.0}, 40.0, -90.0, '202001010000',
                      dict(GOOD, priority=1))
    else:
        f.add_grid(GRID, 'BASE', 'PRES', 500, '202001010000')


def val(v):
    """A value of the alphabet, or literal text."""
    return v[1:] if v.startswith('=') else VALUES[v]


def call(kind, f, args, col=None, dtype=None, form=None):
    """Add an entry with the given arguments out of the ordinary."""
    a = {k: val(v) for k, v in args.items()}
    form = form or {}
    if kind == 'grd':
        grid = GRID * 2 + 1
        if 'shape' in form:
            grid = np.arange(float(math.prod(form['shape']))).reshape(form['shape'])
        if 'point' in a:
            grid = grid.astype(object)
            grid[1, 1] = a['point']
            grid = np.array(grid.tolist())
        if 'grid' in a:
            grid = a['grid']
        if dtype == 'masked':
            grid = np.ma.array(grid, mask=grid > 20)
        elif dtype == 'masked-int':
            grid = np.ma.array(grid.astype('i4'), mask=grid > 20)
        elif dtype == 'matrix':
            grid = np.asmatrix(grid)
        elif dtype == 'record':
            grid = np.zeros((3, 4), dtype=[('a', 'f4')])
        elif dtype:
            grid = grid.astype(dtype)
        f.add_grid(grid, a.get('parameter_name', 'TMPK'), a.get('vertical_coordinate', 'PRES'),
                   a.get('level', 850), a.get('date_time', '202001311200'),
                   a.get('level2'), a.get('date_time2'))
        return a
    info = {'station_id': 'KBBB', 'station_number': 73000, 'elevation': 200, 'state': 'IL',
            'country': 'CA'}
    info.update({k: v for k, v in a.items() if k in (*GOOD, 'priority')})
    data = {'PRES': [850.0, 700.0], 'TEMP': [1.0, 2.0]}
    if kind == 'sfc':
        data = {k: v[0] for k, v in data.items()}
    for p in ('PRES', 'TEMP'):
        if p in a:
            data[p] = COLUMNS[col or 'list'](a[p]) if kind == 'snd' else a[p]
    if 'shapes' in form:
        data = {k: 800.0 + np.arange(float(math.prod(n))).reshape(n)
                for k, n in zip(data, form['shapes'], strict=True)}
    if 'keys' in form:
        data = {k: [850.0 + i, 700.0] if kind == 'snd' else 850.0 + i
                for i, k in enumerate(form['keys'])}
    if 'key' in a:
        data[a['key']] = data.pop('TEMP')
    if 'data' in a:
        data = a['data']
    if 'info' in a:
        info = a['info']
    (f.add_sounding if kind == 'snd' else f.add_station)(
        data, a.get('slat', 41.0), a.get('slon', -91.0), a.get('date_time', '202001311200'),
        info)
    return a


def stored(raw):
    """Entries of a written file by an independent parser: [(headers, values)]."""
    try:
        o = gemref.parse(raw)
    except (gemref.Malformed, ValueError) as e:
        raise Violation(f'written file is malformed: {e}') from None
    if o.label['file_type'] == 3:
        out = []
        for j, c in enumerate(o.cols):
            head = tuple(o.I(c[k]) for k in ('GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD'))
            parm = b''.join(o.raw[4 * (c[k] - 1) : 4 * c[k]] for k in ('GPM1', 'GPM2', 'GPM3'))
            expect((0, j, 0) in o.data, f'column {j} has no data')
            _x, _y, _pk, bits, mf, n, ref, scale, words = gemref.raw_grid(o, (0, j, 0))
            out.append(((*head, parm), gemref.grib_values(bits, mf, n, ref, scale, words)))
        return out
    out = []
    for (i, j, _k), (at, ln) in o.data.items():
        r, c = o.rows[i], o.cols[j]
        head = [o.I(r['DATE']), o.I(r['TIME'])]
        head += [o.I(c[k]) for k in ('STNM', 'SLAT', 'SLON', 'SELV')]
        head.append(o.I(c['SPRI']) if 'SPRI' in c else 0)
        head += [o.raw[4 * (c[k] - 1) : 4 * c[k]] for k in ('STID', 'STD2', 'STAT', 'COUN')]
        h = o.parts[0]['header']
        out.append((tuple(head), [o.F(w) for w in range(at + h, at + ln)]))
    return out


def readable(kind, path, n):
    """The library reads the file and finds n entries."""
    import gempakio

    cls, lst, get = {
        'grd': (gempakio.GempakGrid, 'gdinfo', 'gdxarray'),
        'snd': (gempakio.GempakSounding, 'sninfo', 'snxarray'),
        'sfc': (gempakio.GempakSurface, 'sfinfo', 'sfjson'),
    }[kind]
    try:
        g = cls(path)
        a, b = len(getattr(g, lst)()), len(getattr(g, get)())
    except Exception as e:
        raise Violation(f'the file written cannot be read: {type(e).__name__}: {e}') from None
    expect(a == n and b == n, f'{n} entries written, {a} listed, {b} returned')


def output(f, path):
    """The bytes written."""
    f.to_gempak(path)
    with open(path, 'rb') as h:
        return h.read()


def same(a, b):
    """Equal values, missing ones too."""
    return len(a) == len(b) and all(
        x == y or (isinstance(x, float) and isinstance(y, float) and math.isnan(x)
                   and math.isnan(y)) for x, y in zip(a, b, strict=True))


def text_field(v, n):
    """What a header of n characters holds of a text, or None when not judged."""
    if not isinstance(v, str):
        return None
    return v.upper()[:n].strip()


def meaning_time(v):
    """(initial time, offset) of a text time, None if it has none, or 'open'."""
    if isinstance(v, datetime):
        t = v.replace(second=0, microsecond=0, tzinfo=None)
        return (t, timedelta(0)) if 1969 <= t.year <= 2068 else 'open'
    if not isinstance(v, str):
        return None
    m = re.fullmatch(r'(\d{12})(?:([AFVGI])(.*))?', v.upper(), re.ASCII | re.DOTALL)
    if not m:
        return None
    try:
        t = datetime.strptime(m[1], '%Y%m%d%H%M')
        h = m[3] or ''
        hours, minutes = int(h[:3] or 0), int(h[3:] or 0)
    except ValueError:
        return None
    if not (0 <= hours <= 999 and 0 <= minutes <= 99):
        return None
    return (t, timedelta(hours=hours, minutes=minutes)) if 1969 <= t.year <= 2068 else 'open'


def judge_station(kind, args, a, head, values, col):
    """An accepted station is stored with what was given."""
    date, tim, stnm, slat, slon, selv, spri, sid, sid2, st, co = head
    info = a.get('info', {})
    if not isinstance(info, dict):
        info = {}
    for name, got in (('slat', slat), ('slon', slon)):
        if name in a:
            expect(abs(a[name] * 100 - got) <= 0.5 + 1e-6, f'{name} {a[name]!r} stored as {got}')
    for name, got in (('station_number', stnm), ('elevation', selv), ('priority', spri)):
        if name in a and 'info' not in a:
            try:
                want = int(a[name])
            except (TypeError, ValueError):
                continue
            expect(got == want, f'{name} {a[name]!r} stored as {got}')
    texts = {'station_id': (sid + sid2, 8), 'state': (st, 4), 'country': (co, 4)}
    for name, (got, n) in texts.items():
        if name in a and 'info' not in a:
            want = text_field(a[name], n)
            if want is not None:
                try:
                    got = got.decode().strip()
                except UnicodeDecodeError:
                    raise Violation(f'{name} {a[name]!r} stored as {got!r}') from None
                expect(got == want, f'{name} {a[name]!r} stored as {got!r}')
    if 'date_time' in a:
        v = a['date_time']
        if kind == 'snd' and isinstance(v, str) and 'F' in v.upper():
            try:
                init, f = v.upper().split('F')
                t = datetime.strptime(init, '%Y%m%d%H%M') + timedelta(hours=int(f))
                ok = len(init) == 12
            except (ValueError, OverflowError):
                t, ok = None, False
            m = (t, timedelta(0)) if ok else None
        else:
            m = meaning_time(v)
            if isinstance(v, str) and len(v) != 12:
                m = None
        expect(m is not None, f'date_time {v!r} is malformed, and was accepted')
        if m != 'open' and 1969 <= m[0].year <= 2068:
            want = (int(m[0].strftime('%y%m%d')), int(m[0].strftime('%H%M')))
            expect((date, tim) == want, f'date_time {v!r} stored as {date} {tim}')
    for k, p in enumerate(('PRES', 'TEMP')):
        if p in a and 'data' not in a:
            given = COLUMNS[col or 'list'](a[p]) if kind == 'snd' else [a[p]]
            got = values[k::2]
            try:
                mask = np.ma.getmaskarray(np.ma.asarray(given))
                want = np.asarray(given).astype(np.float64).astype(np.float32)
            except (TypeError, ValueError, OverflowError):
                raise Violation(f'{p} = {given!r} is not numbers, and was accepted') from None
            expect(len(want.ravel()) == len(got), f'{p}: {len(got)} values, {want.size} given')
            for g, w, miss in zip(got, want.ravel(), mask.ravel(), strict=True):
                w = -9999.0 if miss or np.isnan(w) else float(w)
                expect(g == w, f'{p} = {given!r} stored as {g}')


def judge_grid(args, a, head, values, dtype):
    """An accepted grid is stored with what was given."""
    from mc import grids

    gdt1, gtm1, gdt2, gtm2, glv1, glv2, _gvcd, parm = head
    for name, got in (('level', glv1), ('level2', glv2)):
        if a.get(name) is not None:
            expect(got == int(a[name]), f'{name} {a[name]!r} stored as {got}')
    if 'parameter_name' in a:
        want = text_field(a['parameter_name'], 12)
        try:
            got = parm.decode().strip()
        except UnicodeDecodeError:
            raise Violation(f'parameter {a["parameter_name"]!r} stored as {parm!r}') from None
        expect(got == want, f'parameter {a["parameter_name"]!r} stored as {parm!r}')
    for name, d, t in (('date_time', gdt1, gtm1), ('date_time2', gdt2, gtm2)):
        v = a.get(name)
        if v is None:
            continue
        m = meaning_time(v)
        expect(m is not None, f'{name} {v!r} is malformed, and was accepted')
        if m == 'open':
            continue
        if t < 100000:
            got = datetime.strptime(f'{d:06d}', '%y%m%d') + timedelta(
                hours=t // 100, minutes=t % 100)
        else:
            got = datetime.strptime(f'{d:010d}', '%m%d%y%H%M') + timedelta(
                hours=t % 100000 // 100, minutes=t % 100)
        letter = re.sub('[^AFVGI]', '', v.upper()) if isinstance(v, str) else ''
        expect(got == m[0] + m[1], f'{name} {v!r} stored as {d} {t}')
        if name == 'date_time':
            kind = {'': 0, 'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}[letter]
            expect(t // 100000 == kind, f'{name} {v!r} stored as {d} {t}')
    if 'grid' in a:
        expect(isinstance(a['grid'], np.ndarray), f'grid {a["grid"]!r} was accepted')
    if dtype or 'point' in a:
        want = (GRID * 2 + 1).ravel().tolist()
        if 'point' in a:
            try:
                want[5] = float(np.asarray(a['point'], dtype=np.float64))
            except (TypeError, ValueError, OverflowError):
                return
        if dtype == 'bool':
            want = [1.0] * 12
        if dtype == 'V8' or dtype == 'record':
            return
        if dtype and dtype.startswith('masked'):
            want = [None if x > 20 else x for x in want]
        want = [None if x is not None and math.isnan(x) else x for x in want]
        fin = [x for x in want if x is not None]
        if any(abs(x) > 3e38 for x in fin):
            return
        grids.check_values(values, want, 16, f'grid of {dtype or a["point"]!r}')


def run_case(case, rec):
    if 'limit' in case:
        return limit(case, rec)
    if 'cls' in case or 'add' in case:
        return vgf(case, rec)
    kind = case['kind']
    path = rec.path('w01.gem')
    if 'params' in case:
        return params(case, rec, path)
    if 'attr' in case:
        return attribute(case, rec, path)
    f = make(kind)
    base(kind, f)
    before = output(f, path)
    one = stored(before)
    rec.step(2)
    try:
        a = call(kind, f, case['args'], case.get('col'), case.get('dtype'), case)
    except Violation:
        raise
    except Exception as e:
        rec.outcome('refused')
        rec.state(f'refused/{kind}/{type(e).__name__}')
        check_untouched(kind, f, path, before, case, e)
        return
    what = describe(case)
    try:
        after = output(f, path)
    except Exception as e:
        raise Violation(
            f'{kind}: accepted {what}, then nothing can be written: {type(e).__name__}: {e}'
        ) from None
    two = stored(after)
    expect(len(two) == 2, f'{kind}: {len(two)} entries after adding {what}')
    rest = [x for x in two if not (same(x[0], one[0][0]) and same(x[1], one[0][1]))]
    expect(len(rest) == 1, f'{kind}: adding {what} changed the entry already there')
    head, values = rest[0]
    judge_form(case, values)
    try:
        if kind == 'grd':
            judge_grid(case['args'], a, head, values, case.get('dtype'))
        else:
            judge_station(kind, case['args'], a, head, values, case.get('col'))
    except Violation as v:
        raise Violation(f'{kind}: {v.message}') from None
    readable(kind, path, 2)
    rec.outcome('accepted')
    rec.state(f'accepted/{kind}/{what}')


def judge_form(case, values):
    """An accepted array or dictionary has the form of what it is to hold."""
    kind = case['kind']
    if 'shape' in case:
        expect(case['shape'] == [3, 4], f'an array of shape {case["shape"]} was accepted')
        expect(np.allclose(values, np.arange(12.0), atol=1e-3), f'values stored as {values}')
    if 'shapes' in case:
        a, b = case['shapes']
        expect(a == b and len(a) == 1, f'columns of shapes {a} and {b} were accepted')
        want = [800.0 + k // 2 for k in range(2 * a[0])]
        expect(values == want, f'columns of {a[0]} values stored as {values}')
    if 'keys' in case:
        keys = case['keys']
        upper = [k.upper() for k in keys]
        expect(set(upper) == {'PRES', 'TEMP'}, f'keys {keys} accepted')
        at = [[850.0 + i for i, k in enumerate(upper) if k == n] for n in ('PRES', 'TEMP')]
        ok = values[0] in at[0] and values[1] in at[1]  # which of two spellings is left open
        ok = ok and values[2:] == ([700.0, 700.0] if kind == 'snd' else [])
        expect(ok, f'{kind}: keys {keys} stored as {values}')


def describe(case):
    """The arguments of a case, readable."""
    d = {k: val(v) for k, v in case['args'].items()}
    form = {k: case[k] for k in ('shape', 'shapes', 'keys') if k in case}
    return f'{d!r} {case.get("col") or case.get("dtype") or form or ""}'.strip()


def check_untouched(kind, f, path, before, case, e):
    """A refusal leaves no trace, and the writer usable."""
    try:
        after = output(f, path)
    except Exception as e2:
        raise Violation(
            f'{kind}: after refusing {describe(case)} ({e!r}) nothing can be written: {e2!r}'
        ) from None
    expect(after == before, lambda: f'{kind}: refusing {describe(case)} changed the file ({e!r})')
    try:
        call(kind, f, {})
        after = output(f, path)
    except Exception as e2:
        raise Violation(
            f'{kind}: after refusing {describe(case)} ({e!r}) nothing can be added: {e2!r}'
        ) from None
    expect(len(stored(after)) == 2, f'{kind}: an addition after refusing {describe(case)} is lost')


def params(case, rec, path):
    """Names of parameters."""
    kind = case['kind']
    spec = case['params']
    names = [val(v) if v[1:2] == ':' else v for v in spec] if isinstance(spec, list) else val(spec)
    rec.step(2)
    try:
        f = make_params(kind, names)
    except Exception:
        rec.outcome('refused')
        return
    flat = list(names)
    data = {n: [1.0 + i, 0.5] if kind == 'snd' else 1.0 + i for i, n in enumerate(flat)}
    try:
        (f.add_sounding if kind == 'snd' else f.add_station)(data, 40.0, -90.0, '202001010000')
        raw = output(f, path)
    except Exception as e:
        raise Violation(f'{kind}: parameters {names!r} were accepted, but cannot be used: {e!r}'
                        ) from None
    o = gemref.parse(raw)
    got = [p['name'] for p in o.parts[0]['params']]
    want = []
    for n in flat:
        if n.upper() not in want:
            want.append(n.upper())
    expect(got == want, f'{kind}: parameters {names!r} stored as {got}')
    rec.outcome('accepted')
    rec.state(f'params/{kind}/{names!r}')


def make_params(kind, names):
    """A writer with these parameters."""
    import gempakio

    return (gempakio.SoundingFile if kind == 'snd' else gempakio.SurfaceFile)(names)


def attribute(case, rec, path):
    """Attributes of a grid writer that writing depends on."""
    name, x = case['attr'], ATTRS[case['attr']][case['i']]
    f = make('grd')
    base('grd', f)
    before = output(f, path)
    rec.step(2)
    try:
        setattr(f, name, x)
        after = output(f, path)
    except Exception:
        with open(path, 'rb') as h:
            expect(h.read() == before, f'{name} = {x!r}: the failed write destroyed the file')
        rec.outcome('refused')
        return
    (_head, values), = stored(after)
    bits = x if name == 'precision' else 16
    from mc import grids

    grids.check_values(values, GRID.ravel().tolist(), int(bits), f'{name} = {x!r}')
    readable('grd', path, 1)
    rec.outcome('accepted')
    rec.state(f'{name}/{x!r}')


def limit(case, rec):
    """The format's limit of headers, lowered so that it is reached soon."""
    from gempakio.encode import gempak

    kind = case['kind']
    path = rec.path('w01.gem')
    if not hasattr(gempak, 'MMHDRS'):
        rec.outcome('limit unknown')
        return
    old = gempak.MMHDRS
    try:
        for top, order in itertools.product(range(3, 12), ('rows', 'columns', 'both')):
            gempak.MMHDRS = top
            f = make(kind)
            base(kind, f)
            n = 1
            refused = None
            for k in range(15):
                before = output(f, path)
                a = {}
                if kind == 'grd':
                    a['level'] = 100 + k
                else:
                    a['date_time'] = f'2020013112{k if order != "columns" else 0:02d}'
                    a['station_number'] = 1000 + (k if order != 'rows' else 0)
                rec.step()
                try:
                    add_plain(kind, f, a)
                except Exception as e:
                    refused = e
                    expect(output(f, path) == before,
                           f'{kind}: an addition beyond the limit of headers left a trace')
                    expect(len(stored(before)) == n, f'{kind}: entries lost near the limit')
                else:
                    n += 1
                    expect(refused is None, f'{kind}: additions beyond the limit of headers')
            rec.state(f'{kind}/{top}/{order}/{n}')
            rec.outcome('limit reached' if refused else 'limit not enforced')
    finally:
        gempak.MMHDRS = old


def add_plain(kind, f, a):
    """An ordinary addition."""
    if kind == 'grd':
        f.add_grid(GRID, 'TMPK', 'PRES', a['level'], '202001311200')
    elif kind == 'snd':
        f.add_sounding({'PRES': [850.0], 'TEMP': [1.0]}, 41.0, -91.0, a['date_time'],
                       {'station_number': a['station_number']})
    else:
        f.add_station({'PRES': 850.0, 'TEMP': 1.0}, 41.0, -91.0, a['date_time'],
                      {'station_number': a['station_number']})


# --- vector graphics ---------------------------------------------------------------------------


def vgf(case, rec):
    """An element or assignment out of the ordinary, between two others."""
    from gempakio.encode import vgf as V

    path = rec.path('w01.vgf')
    f = V.VGFile()
    first, last = V.Marker(-90.0, 40.0, 1, 2), V.Marker(-91.0, 41.0, 3, 4)
    f.add_element(first)
    f.to_vgf(path)
    with open(path, 'rb') as h:
        before = h.read()
    rec.step(2)
    if 'add' in case:
        x = val(case['add'])
        what = f'add_element({x!r})'
        name = None
    else:
        cls = case['cls']
        co = W.sample_coords(cls)
        text = 'T' if cls == 'SpecialText' else None
        name = case.get('set') or next(iter(case['args']))
        x = val(case.get('v') or case['args'][name])
        what = f'{cls}.{name} = {x!r}'
    e = None
    try:
        if 'add' in case:
            f.add_element(x)
        elif 'set' in case:
            e = W.build(cls, co, {}, text)
            record = e.encode()
            setattr(e, name, x)
        else:
            lat, lon = co
            o = {}
            if name in ('lat', 'lon'):
                y = [x, *list((lat if name == 'lat' else lon)[1:])] if W.is_line(cls) else x
                lat, lon = (y, lon) if name == 'lat' else (lat, y)
            elif name == 'text':
                text = x
            else:
                o[name] = x
            e = W.build(cls, (lat, lon), o, text)
        if e is not None:
            f.add_element(e)
    except Exception as ex:
        rec.outcome('refused')
        rec.state(f'refused/{what}/{type(ex).__name__}')
        if e is not None and 'set' in case:
            try:
                same_record = e.encode() == record
            except Exception as ex2:
                raise Violation(f'after refusing {what} the element is unusable: {ex2!r}') from None
            expect(same_record, f'refusing {what} changed the record')
        f.to_vgf(path)
        with open(path, 'rb') as h:
            expect(h.read() == before, f'refusing {what} changed the file')
        return
    f.add_element(last)
    try:
        f.to_vgf(path)
    except Exception as ex:
        # Elements can be changed or taken back until they are written.
        rec.outcome('refused when written')
        rec.state(f'unwritable/{what}/{type(ex).__name__}')
        with open(path, 'rb') as h:
            expect(h.read() == before, f'the failed write of {what} destroyed the file')
        return
    from gempakio import VectorGraphicFile

    try:
        g = VectorGraphicFile(path).elements
    except Exception as ex:
        raise Violation(f'accepted {what}, then the file cannot be read: {ex!r}') from None
    expect(len(g) == (3 if e is not None else 2), f'{what}: {len(g)} elements read')
    expect((g[0].symbol_code, g[0].lat) == (1, 40.0) and (g[-1].symbol_code, g[-1].lat) == (3, 41.0),
           f'{what}: the elements around it are changed')
    if e is not None:
        got = reported(g[1], name)
        if name == 'stroke':
            got = None  # documented to be ignored for most lines
        if (got is not None and isinstance(x, (int, float, np.number))
                and not isinstance(x, (bool, np.timedelta64)) and not abs(x) > 1e30):
            g1 = np.float32(x)
            if name == 'size' and cls == 'SpecialText':
                g1 = g1 / 14
            ok = (math.isnan(g1) and math.isnan(got)) or got == g1 or abs(got - g1) <= 0.05
            expect(ok, f'{what} came back {got!r}')
    rec.outcome('accepted')
    rec.state(f'accepted/{what}')


def reported(e, name):
    """An attribute of an element read, if it is reported under the same name."""
    if name in ('lat', 'lon'):
        return float(np.ravel(getattr(e, name))[0])
    x = getattr(e, {'edgecolor': 'line_color', 'facecolor': 'fill_color'}.get(name, name), None)
    return x if isinstance(x, (int, float)) else None
