"""Reading grid files that gempakio did not write, laid out by the reference builder."""

from datetime import datetime, timedelta
import itertools
import math
import struct

import numpy as np

from gempakio import GempakGrid
from mc import gemref
from mc.core import expect, Violation

KEYS = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']
VCS = ['NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL']
TYPES = ['analysis', 'forecast', 'guess', 'initial']
NONE, GRIB, NMC, DIFF, DEC, GRIB2 = range(6)
NAV = ('STR', 30.0, -120.0, 45.0, -90.0, 90.0, -105.0, 0.0)


def header(g):
    """Column header words of a grid spec."""
    parm = f'{g.get("parm", "TMPK"):<12s}'
    vc = g.get('vc', 'PRES')
    code = VCS.index(vc) if vc in VCS else vc.encode()
    t1 = g.get('t1', (210131, 1200))
    t2 = g.get('t2', (0, 0))
    return [t1[0], t1[1], t2[0], t2[1], g.get('lev', 500), g.get('lev2', -1), code,
            parm[:4], parm[4:8], parm[8:]]


def vc_word(code, en):
    """Vertical coordinate characters as GEMPAK stores them: an integer in file byte order."""
    return code if not isinstance(code, bytes) else code


def meaning(t):
    """Reference meaning of a (date, forecast) header pair: (type, valid time)."""
    date, ft = t
    if date < 100000000:
        init = datetime.strptime(f'{date:06d}', '%y%m%d')
    else:
        init = datetime.strptime(f'{date:010d}', '%m%d%y%H%M')
    typ, hm = divmod(ft, 100000)
    return TYPES[typ], init + timedelta(hours=hm // 100, minutes=hm % 100)


def pack(g, nx, ny, missing_float):
    """(data words, expected values) of a grid spec."""
    n = nx * ny
    kind = g.get('pk', GRIB)
    vals = g['v']  # packed integers (None missing), or floats for NONE
    assert len(vals) == n
    if kind == NONE:
        words = [NONE] + [float(missing_float if v is None else v) for v in vals]
        return words, [None if v is None else gemref.f32(v) for v in vals]
    bits, ref, scale = g['bits'], g.get('ref', 0.0), g.get('scale', 1.0)
    top = (1 << bits) - 1
    flag = g.get('flag', 1 if any(v is None for v in vals) else 0)
    packed = gemref.pack_bits([top if v is None else v for v in vals], bits)
    mask = bool(flag)
    if kind in (GRIB, DEC):
        words = [kind, bits, flag, n, float(ref), float(scale), *packed]
        want = [None if v is None or (mask and v == top)
                else gemref.f32(ref) + v * gemref.f32(scale) for v in vals]
        return words, want
    assert kind == DIFF
    dmin = g.get('dmin', 0.0)
    words = [DIFF, bits, flag, n, nx, float(ref), float(scale), float(dmin), *packed]
    want = []
    first, psav, plin = True, None, None
    for j in range(ny):
        line = False
        for i in range(nx):
            v = vals[j * nx + i]
            if v is None or (mask and v == top):
                want.append(None)
                continue
            if first:
                x = gemref.f32(ref)
                first, line, plin = False, True, x
            else:
                step = gemref.f32(dmin) + v * gemref.f32(scale)
                if not line:
                    x = plin + step
                    plin, line = x, True
                else:
                    x = psav + step
            psav = x
            want.append(x)
    return words, want


def build(case):
    """(file bytes, expected grids in file order) of a case."""
    nx, ny = case['size']
    en = case.get('en', '<')
    mf = case.get('missing', -9999.0)
    hl = case.get('hlen', 2)
    cols, data, want = [], {}, []
    for k, g in enumerate(case['cols']):
        if g is None:
            cols.append(None)
            continue
        h = header(g)
        if isinstance(h[6], bytes):  # characters are held in an integer: file byte order
            h[6] = struct.unpack(f'{en}i', h[6])[0]
        cols.append(h)
        if g.get('absent'):
            continue
        words, vals = pack(g, nx, ny, mf)
        data[0, k, 0] = ([nx, ny] + [0] * (hl - 2), words)
        want.append((g, vals))
    raw = gemref.build(
        en=en, file_type=3, source=6, row_keys=['GRID'], col_keys=KEYS, rows=[[1]], cols=cols,
        parts=[{'name': 'GRID', 'header': hl, 'type': gemref.GRID, 'params': [
            {'name': 'GRID', 'bits': 16}]}],
        data=data, nav=gemref.navb(NAV[0], nx, ny, *NAV[1:]),
        anl=gemref.anlb(case.get('anl', 2), NAV[1:5]), missing_float=mf,
        order=case.get('order'), gap=case.get('gap', 0), unused=case.get('unused', 'missing'),
        fill=case.get('fill', '\0').encode('latin1') * 4,
    )
    return raw, want


def listing(g):
    """Reference listing entry of a grid spec."""
    typ, t1 = meaning(g.get('t1', (210131, 1200)))
    t2 = g.get('t2', (0, 0))
    lev, lev2 = g.get('lev', 500), g.get('lev2', -1)
    return (typ, t1, meaning(t2)[1] if t2[0] else None, g.get('parm', 'TMPK'),
            lev if lev >= 0 else None, lev2 if lev2 >= 0 else None, g.get('vc', 'PRES'))


def run(case, rec):
    """Build one file, read it, compare everything."""
    raw, want = build(case)
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(raw)
    nx, ny = case['size']
    g = GempakGrid(path)
    info = [tuple(i)[1:] for i in g.gdinfo()]
    ref = [listing(c) for c in case['cols'] if c is not None]
    expect(info == ref, lambda: f'listing {info} expected {ref}')
    out = g.gdxarray() if want else []
    expect(len(out) == len(want), f'{len(out)} grids returned, {len(want)} stored')
    for k, (da, (spec, vals)) in enumerate(zip(out, want, strict=True)):
        typ, t1, _t2, _parm, lev, _l2, vc = listing(spec)
        expect(da.dims == ('time', vc.lower(), 'y', 'x'), lambda: f'grid {k}: dims {da.dims}')
        expect(da.shape == (1, 1, ny, nx), lambda: f'grid {k}: shape {da.shape}')
        t = da.time.values[0].astype('datetime64[s]').astype(datetime)
        expect(t == t1 and da.attrs['grid_type'] == typ, lambda: f'grid {k}: {typ} {t}')
        got_lev = da[vc.lower()].values[0]
        expect(got_lev == lev, lambda: f'grid {k}: level {got_lev}')
        flat = da.values.ravel()
        top = max([abs(v) for v in vals if v is not None] + [abs(spec.get('ref', 0.0))])
        tol = 4 * 2.0**-24 * top * (nx * ny if spec.get('pk') == DIFF else 1)
        for p, (a, b) in enumerate(zip(flat, vals, strict=True)):
            if b is None:
                expect(math.isnan(a), lambda: f'grid {k}: point {p} is missing, read {a}')
            else:
                expect(abs(float(a) - b) <= tol,
                       lambda: f'grid {k}: point {p} is {b}, read {a}')
    rec.step(len(case['cols']) + 1)
    rec.state([case['size'], case.get('en', '<'), len(case['cols']), [c is None for c in
              case['cols']], [c and (c.get('pk', GRIB), c.get('bits')) for c in case['cols']],
              case.get('hlen'), case.get('unused'), case.get('order')])
    rec.outcome(f'{min(len(want), 6)} grids')
    return g
