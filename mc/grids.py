"""Grid files: writer histories, packing and time encodings against a reference model."""

from datetime import datetime, timedelta
import itertools
import math
import re

import numpy as np
import pyproj

from gempakio import GempakGrid, GridFile
from mc import gemref
from mc.core import expect, Violation

MISS = -9999.0
VC = {'NONE': 0, 'PRES': 1, 'THTA': 2, 'HGHT': 3, 'SGMA': 4, 'DPTH': 5, 'HYBD': 6, 'PVAB': 7,
      'PVBL': 8}
TYPES = {'A': 'analysis', 'F': 'forecast', 'V': 'forecast', 'G': 'guess', 'I': 'initial'}
TCODE = {'analysis': 0, 'forecast': 1, 'guess': 2, 'initial': 3}
STERE = '+proj=stere +lat_0=90 +lon_0=-105 +R=6371200'


def new_file(nx, ny, proj=STERE):
    """A GridFile of the given size on a plain polar stereographic grid."""
    x = np.linspace(-1.0e6, -1.0e6 + 5.0e4 * (nx - 1), nx)
    y = np.linspace(-4.0e6, -4.0e6 + 5.0e4 * (ny - 1), ny)
    return GridFile(x, y, pyproj.Proj(proj), use_xy=True)


def read_time(spec):
    """Reference meaning of a date_time argument: (type, initial time, offset)."""
    if spec.startswith('dt:'):
        return 'analysis', datetime.strptime(spec[3:15], '%Y%m%d%H%M'), timedelta(0)
    m = re.fullmatch(r'(\d{12})(?:([AFVGI])(\d*))?', spec.upper())
    init = datetime.strptime(m.group(1), '%Y%m%d%H%M')
    typ = TYPES[m.group(2) or 'A']
    f = m.group(3) or ''
    off = timedelta(hours=int(f[:3] or 0), minutes=int(f[3:] or 0))
    if typ == 'analysis':  # an analysis has no forecast offset: only the valid time is stored
        init, off = init + off, timedelta(0)
    return typ, init, off


def time_arg(spec):
    """The argument itself."""
    if spec is not None and spec.startswith('dt:'):
        t = datetime.strptime(spec[3:15], '%Y%m%d%H%M')
        return t + timedelta(seconds=float(spec[15:] or 0))  # which the format does not hold
    return spec


def header_time(typ, init, off):
    """GEMPAK integers for a grid time."""
    minutes = int(off.total_seconds()) // 60
    if typ == 'analysis':
        return int(init.strftime('%y%m%d')), int(init.strftime('%H%M'))
    return (int(init.strftime('%m%d%y%H%M')),
            TCODE[typ] * 100000 + (minutes // 60) * 100 + minutes % 60)


def meta_of(g):
    """Reference metadata of an addition: what identifies the grid in the file."""
    t1 = read_time(g['t'])
    t2 = read_time(g['t2']) if g.get('t2') else None
    return (
        header_time(*t1),
        header_time(*t2) if t2 else (0, None),
        g['parm'].upper(),
        int(g['lev']),
        -1 if g.get('lev2') is None else int(g['lev2']),
        VC[(g.get('vc') or 'NONE').upper()],
    )


def listed(g):
    """Reference listing entry (type, time, time2, parameter, levels, coordinate)."""
    typ, init, off = read_time(g['t'])
    t2 = None
    if g.get('t2'):
        _, i2, o2 = read_time(g['t2'])
        t2 = i2 + o2
    return (typ, init + off, t2, g['parm'].upper(), int(g['lev']),
            None if g.get('lev2') is None else int(g['lev2']), (g.get('vc') or 'NONE').upper())


def pattern(spec, nx, ny):
    """Values of a grid: list of ny*nx floats, None where missing."""
    n = nx * ny
    kind, *a = spec
    if kind == 'ramp':  # start, step
        return [a[0] + a[1] * k for k in range(n)]
    if kind == 'const':
        return [a[0]] * n
    if kind == 'allmiss':
        return [None] * n
    if kind == 'holes':  # start, step, period, phase
        return [None if k % a[2] == a[3] else a[0] + a[1] * k for k in range(n)]
    if kind == 'cells':  # explicit
        return list(a[0])
    if kind == 'range':  # lo, hi, position of the maximum
        lo, hi, at = a
        if n == 1:
            return [lo]
        v = [lo + (hi - lo) * ((k * 7) % n) / n for k in range(n)]
        v[at % n] = hi
        v[(at + 1) % n] = lo
        return v
    raise AssertionError(kind)


def as_array(vals, nx, ny, opts):
    """The array the caller passes."""
    miss = {'-9999': MISS, 'ma': 3.25}.get(opts.get('miss'), math.nan)
    a = np.array([miss if v is None else v for v in vals], dtype=float).reshape(ny, nx)
    typ = opts.get('type', 'f8')
    if typ != 'f8':
        a = a.astype(typ)
    lay = opts.get('layout', 'C')
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'view':
        big = np.zeros((2 * ny, 2 * nx), dtype=a.dtype)
        big[::2, ::2] = a
        a = big[::2, ::2]
    elif lay == 'ro':
        a.flags.writeable = False
    if opts.get('miss') == 'ma':  # masked where missing, whatever is underneath
        a = np.ma.array(a, mask=np.array([v is None for v in vals]).reshape(ny, nx), copy=False)
    return a


def bounds(vals, nbits, typ='f8'):
    """Largest permitted error of a value packed with nbits, from the values alone."""
    ok = [v for v in vals if v is not None]
    if not ok:
        return 0.0
    lo, hi = min(ok), max(ok)
    eps = 2.0**-22 if typ == 'f4' else 2.0**-23
    noise = eps * max(abs(lo), abs(hi))
    if hi == lo:
        return noise
    return (hi - lo) / ((1 << nbits) - 1.5) * (1 + 1e-6) + noise + 2.0**-126 * (1 << nbits)


def check_values(got, vals, nbits, what, typ='f8'):
    """Missing exactly where given; every other value within the packing precision."""
    tol = bounds(vals, nbits, typ)
    expect(len(got) == len(vals), f'{what}: {len(got)} points, {len(vals)} given')
    for k, (g, v) in enumerate(zip(got, vals, strict=True)):
        if v is None:
            expect(g is None, lambda: f'{what}: point {k} was missing, came back {g}')
        else:
            expect(g is not None, lambda: f'{what}: point {k} = {v} came back missing')
            expect(
                abs(g - v) <= tol,
                lambda: f'{what}: point {k} = {v} came back {g} (tolerance {tol:g})',
            )


def check_file(path, model, nx, ny, nbits, reader=True, typ='f8'):
    """File (independent parser) and reader agree with the model {meta: (listing, values)}."""
    with open(path, 'rb') as h:
        raw = h.read()
    try:
        o = gemref.parse(raw)
    except gemref.Malformed as e:
        raise Violation(f'written file is malformed: {e}') from None
    expect(o.label['file_type'] == 3, 'file type')
    expect(o.label['rows'] == 1 and o.rows[0] is not None, 'one GRID row expected')
    expect(set(o.file_headers) == {'NAVB', 'ANLB'}, 'navigation and analysis blocks expected')
    nav = o.file_headers['NAVB'][0]
    expect((o.F(nav + 4), o.F(nav + 5)) == (nx, ny), 'grid size in the navigation block')
    got = {}
    for j, c in enumerate(o.cols):
        expect(c is not None, 'unused column in a compact file')
        expect((0, j, 0) in o.data, f'column {j} has no data')
        t2 = (o.I(c['GDT2']), o.I(c['GTM2']))
        meta = (
            (o.I(c['GDT1']), o.I(c['GTM1'])),
            t2 if t2[0] else (0, None),
            (o.S(c['GPM1']) + o.S(c['GPM2']) + o.S(c['GPM3'])).strip(),
            o.I(c['GLV1']),
            o.I(c['GLV2']),
            o.I(c['GVCD']),
        )
        expect(meta not in got, f'grid {meta} stored twice')
        gx, gy, pk, bits, mf, kxky, ref, scale, words = gemref.raw_grid(o, (0, j, 0))
        expect((gx, gy, kxky) == (nx, ny, nx * ny), f'grid {meta}: size {gx}x{gy}, {kxky}')
        expect(pk == 1 and bits == nbits, f'grid {meta}: packing {pk}, bits {bits}')
        expect(
            len(words) == -(-nbits * kxky // 32),
            f'grid {meta}: {len(words)} packed words for {kxky} x {nbits} bits',
        )
        got[meta] = gemref.grib_values(bits, mf, kxky, ref, scale, words)
    expect(
        set(got) == set(model),
        lambda: f'grids in file: extra={[m for m in got if m not in model][:3]} '
                f'missing={[m for m in model if m not in got][:3]}',
    )
    for meta, (_lst, vals) in model.items():
        check_values(got[meta], vals, nbits, f'stored grid {meta}', typ)
    if not reader:
        return raw
    g = GempakGrid(path)
    info = g.gdinfo()
    lst = [(i.TYPE, i.DATTIM1, i.DATTIM2, i.PARM, i.LEVEL1, i.LEVEL2, i.COORD) for i in info]
    want = [m[0] for m in model.values()]
    expect(
        sorted(lst, key=str) == sorted(want, key=str),
        lambda: f'listing: extra={[x for x in lst if x not in want][:3]} '
                f'missing={[x for x in want if x not in lst][:3]}',
    )
    if reader == 'list':
        return raw
    out = g.gdxarray()
    expect(len(out) == len(want), f'{len(out)} grids returned, {len(want)} stored')
    todo = {}
    for entry, vals in model.values():
        todo.setdefault(entry, []).append(vals)
    for i, da in zip(lst, out, strict=True):
        typ_, t1, _t2, parm, lev, _lev2, vc = i
        name = {'PRES': 'p', 'HGHT': 'z', 'THTA': 'theta'}.get(parm, parm.lower())
        expect(da.name == name, lambda: f'{i}: array named {da.name}')
        expect(da.dims == ('time', vc.lower(), 'y', 'x'), lambda: f'{i}: dims {da.dims}')
        expect(da.attrs.get('grid_type') == typ_, lambda: f'{i}: {da.attrs.get("grid_type")}')
        t = da.time.values[0].astype('datetime64[s]').astype(datetime)
        expect(t == t1, lambda: f'{i}: time coordinate {t}')
        expect(list(da[vc.lower()].values) == [lev], lambda: f'{i}: level coordinate')
        expect(da.shape == (1, 1, ny, nx), lambda: f'{i}: shape {da.shape}')
        flat = [None if math.isnan(v) else float(v) for v in da.values.ravel()]
        last = None
        for k, vals in enumerate(todo[i]):
            try:
                check_values(flat, vals, nbits, f'returned grid {i}', typ)
            except Violation as v:
                last = v
            else:
                del todo[i][k]
                break
        else:
            raise last or Violation(f'{i}: returned more often than stored')
    return raw


BADS = {
    'type': lambda f, a: f.add_grid([[1.0]], 'TMPK', None, 0, '202001010000'),
    'shape': lambda f, a: f.add_grid(a.T if a.shape[0] != a.shape[1] else a[:-1], 'TMPK', None, 0,
                                     '202001010000'),
    'parmtype': lambda f, a: f.add_grid(a, 5, None, 0, '202001010000'),
    'parmlen': lambda f, a: f.add_grid(a, 'X' * 13, None, 0, '202001010000'),
    'vctype': lambda f, a: f.add_grid(a, 'TMPK', 5, 0, '202001010000'),
    'vclen': lambda f, a: f.add_grid(a, 'TMPK', 'PRESS', 0, '202001010000'),
    'vcname': lambda f, a: f.add_grid(a, 'TMPK', 'QQQQ', 0, '202001010000'),
    'level': lambda f, a: f.add_grid(a, 'TMPK', None, '0', '202001010000'),
    'level2': lambda f, a: f.add_grid(a, 'TMPK', None, 0, '202001010000', level2='1'),
    'short': lambda f, a: f.add_grid(a, 'TMPK', None, 0, '20200101'),
    'time': lambda f, a: f.add_grid(a, 'TMPK', None, 0, 20200101),
    'month': lambda f, a: f.add_grid(a, 'TMPK', None, 0, '202013010000'),
    'twotypes': lambda f, a: f.add_grid(a, 'TMPK', None, 0, '202001010000F00F00'),
    'mismatch': lambda f, a: f.add_grid(a, 'TMPK', None, 0, '202001010000', None,
                                        '202001010000F002'),
    'time2': lambda f, a: f.add_grid(a, 'TMPK', None, 0, '202001010000', None, 5),
    'short2': lambda f, a: f.add_grid(a, 'TMPK', None, 0, '202001010000', None, '20200101'),
    'month2': lambda f, a: f.add_grid(a, 'TMPK', None, 0, datetime(2020, 1, 1), None,
                                      '202013010000'),
}


def replay(case, rec, reader=True):
    """Run one history on a real GridFile."""
    nx, ny = case.get('size', (4, 3))
    f = new_file(nx, ny)
    if 'bits' in case:
        f.precision = case['bits']
    nbits = f.precision
    path = rec.path()
    model = {}
    raw = None
    typ = 'f8'
    for op in case['ops']:
        if op[0] == 'add':
            g = op[1]
            opts = g.get('opts', {})
            if opts.get('type') in ('f2', 'f4', '>f4'):
                typ = 'f4'
            vals = pattern(g['v'], nx, ny)
            a = as_array(vals, nx, ny, opts)
            if opts.get('type'):  # what the caller's array really holds
                vals = [None if v is None or m else float(w)
                        for v, m, w in zip(vals, np.ma.getdata(a).ravel() == MISS,
                                           np.ma.getdata(a).ravel(), strict=True)]
            keep = a.copy()
            kw = {}
            if g.get('lev2') is not None:
                kw['level2'] = g['lev2']
            if g.get('t2') is not None:
                kw['date_time2'] = time_arg(g['t2'])
            f.add_grid(a, g['parm'], g.get('vc'), g['lev'], time_arg(g['t']), **kw)
            expect(np.array_equal(a, keep, equal_nan=a.dtype.kind == 'f'),
                   'caller\'s array was modified by adding it')
            if a.flags.writeable:
                a[...] = 77  # the caller reuses the buffer for the next grid
            model[meta_of(g)] = (listed(g), vals)
        elif op[0] == 'bad':
            a = np.arange(nx * ny, dtype=float).reshape(ny, nx)
            try:
                BADS[op[1]](f, a)
            except (TypeError, ValueError, KeyError):
                pass
            else:
                raise Violation(f'invalid addition `{op[1]}` was accepted')
        elif op[0] == 'write':
            f.to_gempak(path)
            if model:
                raw = check_file(path, model, nx, ny, nbits, reader, typ)
        rec.step()
        rec.state([nx, ny, sorted((str(k), str(v)) for k, v in model.items())])
    if model:
        f.to_gempak(path)
        rec.step()
        end = check_file(path, model, nx, ny, nbits, reader, typ)
        if case['ops'][-1][0] == 'write' and raw is not None:
            expect(end == raw, 'writing the same contents again gave a different file')
    rec.outcome(f'{min(len(model), 9)} grids')


def G(parm='TMPK', vc='PRES', lev=500, t='202001311200', t2=None, lev2=None, v=('ramp', 0.0, 1.0),
      **opts):
    """One addition."""
    d = {'parm': parm, 'vc': vc, 'lev': lev, 't': t, 'v': list(v)}
    if t2 is not None:
        d['t2'] = t2
    if lev2 is not None:
        d['lev2'] = lev2
    if opts:
        d['opts'] = opts
    return ['add', d]
