"""Sounding and surface files laid out by the reference builder, and what reading must give."""

from datetime import datetime, timedelta
import math

import numpy as np

from gempakio import GempakSounding, GempakSurface
from mc import gemref
from mc.core import expect

SKEYS = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']
TIMES = [datetime(2021, 1, 31, 12, 0), datetime(2021, 1, 31, 0, 30), datetime(2020, 2, 29, 23, 59),
         datetime(1999, 12, 31, 0, 5), datetime(2021, 2, 1, 12, 0), datetime(2000, 1, 1, 0, 0)]
STATIONS = [
    ('KOUN', 'X1', 723570, 3523, -9745, 362, 'OK', 'US', 3),
    ('71', '', 71, -1, 1, 0, '', 'CA', 0),
    ('KDEN', '', 724690, 3976, -10487, 1625, 'CO', 'US', 1),
    ('NZSP', '', 890090, -9000, 0, 2835, '--', 'AA', 9),
    ('KOUN', '', 723571, 3524, 18000, -5, 'OK', 'US', 0),
    ('A', 'B', 5, 1, -18000, 7, 'XX', 'MX', 2),
    ('', '', 111, 4500, -9000, 10, 'WI', 'US', 1),
    ('', '', 0, 4600, -9100, 20, 'MN', 'US', 1),
    ('KDEN', '', 5, 3000, -100, 3, 'XX', 'CA', 0),
    ('KDEN', 'A', 72469, 3100, -200, 4, 'COX', 'USA', 0),
]
REAL, PACK, CHAR = gemref.REAL, gemref.REALPACK, gemref.CHARACTER
MISS = -9999.0


def time_words(t):
    return {'DATE': int(t.strftime('%y%m%d')), 'TIME': int(t.strftime('%H%M'))}


def station_words(s, pri):
    w = dict(zip(SKEYS, (s[0], s[2], s[3], s[4], s[5], s[6], s[7], s[1]), strict=True))
    if pri:
        w['SPRI'] = s[8]
    return w


def field(code, p, typ, flag=MISS):
    """A stored value chosen by a code: (word or packed integer, meaning)."""
    if typ == REAL and code == 'miss':
        return flag, None
    if typ == REAL:
        v = gemref.f32(code * 0.25 - 40.0)
        return v, v
    top = (1 << p['bits']) - 1
    if code == 'miss' or top == 0:
        return None, None
    k = (code * 2654435761) % top if code not in ('lo', 'hi') else (0 if code == 'lo' else top - 1)
    return k, (k + p.get('offset', 0)) * 10.0 ** p.get('scale', 0)


def cell_code(case, i, j, ip, iq, lev):
    """Code of a value: explicit or computed from its place."""
    ex = case.get('codes')
    if ex is not None:
        return ex[lev][iq]
    return 1 + iq + 7 * lev + 31 * ip + 101 * j + 401 * i


def build(case):
    """(file bytes, {(i, j): {part index: list of rows of meanings or text}})."""
    kind = case['kind']
    pri = kind != 'snd'
    skeys = SKEYS + (['SPRI'] if pri else [])
    if case.get('nostd2'):
        skeys.remove('STD2')
    tkeys = ['DATE', 'TIME']
    perm = case.get('perm')
    if perm:
        skeys = [skeys[k % len(skeys)] for k in perm]
    tw = [None if t is None else time_words(TIMES[t]) for t in case['times']]
    sw = [None if s is None else station_words(STATIONS[s], pri) for s in case['stations']]

    def heads(ws, keys):
        return [None if w is None else [w[k] for k in keys] for w in ws]

    if kind in ('snd', 'std'):
        row_keys, col_keys = tkeys, skeys
        rows, cols = heads(tw, tkeys), heads(sw, skeys)
    elif kind == 'clim':
        row_keys, col_keys = skeys, tkeys
        rows, cols = heads(sw, skeys), heads(tw, tkeys)
    else:  # ship: one row, every column is one report
        row_keys, col_keys = ['REPT'], tkeys + skeys
        rows = case.get('rows', [[1]])
        both = [None if t is None or s is None else {**t, **s} for t, s in zip(tw, sw, strict=True)]
        cols = heads(both, col_keys)
    data, want = {}, {}
    nlev = case.get('nlev', {})
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            if r is None or c is None:
                continue
            for ip, part in enumerate(case['parts']):
                if [i, j, ip] in case.get('absent', []) or [i, j] in case.get('absent', []):
                    continue
                hdr = [1] * part.get('hlen', 1)
                typ, prm = part['type'], part['params']
                if typ == CHAR:
                    txt = case['text'][part['name']]
                    txt = txt if isinstance(txt, str) else txt[(i + j) % len(txt)]
                    raw = txt.encode().ljust(-(-len(txt) // 4) * 4)
                    data[i, j, ip] = (hdr, [raw[k : k + 4] for k in range(0, len(raw), 4)])
                    want.setdefault((i, j), {})[ip] = txt.strip()
                    continue
                n = nlev.get(f'{i},{j}', nlev.get('*', 1)) if kind == 'snd' else 1
                rws, mean = [], []
                for lev in range(n):
                    f = [field(cell_code(case, i, j, ip, iq, lev), p, typ, case.get('missing', MISS))
                         for iq, p in enumerate(prm)]
                    rws.append([a for a, _b in f])
                    mean.append([b for _a, b in f])
                if typ == REAL:
                    words = [v for row in rws for v in row]
                else:
                    words = gemref.pack_real(rws, prm)
                data[i, j, ip] = (hdr, words)
                want.setdefault((i, j), {})[ip] = mean
    raw = gemref.build(
        en=case.get('en', '<'), file_type=2 if kind == 'snd' else 1, source=4,
        row_keys=row_keys, col_keys=col_keys, rows=rows, cols=cols,
        parts=[{'name': p['name'], 'header': p.get('hlen', 1), 'type': p['type'],
                'params': p['params']} for p in case['parts']],
        data=data, order=case.get('order'), gap=case.get('gap', 0),
        unused=case.get('unused', 'missing'), missing_float=case.get('missing', MISS),
        fill=case.get('fill', '\0').encode('latin1') * 4,
    )
    return raw, want


def place(case, i, j):
    """(time, station tuple) of a cell."""
    kind = case['kind']
    if kind in ('snd', 'std'):
        t, s = case['times'][i], case['stations'][j]
    elif kind == 'clim':
        t, s = case['times'][j], case['stations'][i]
    else:
        t, s = case['times'][j], case['stations'][j]
    return TIMES[t], STATIONS[s]


def ident(case, i, j):
    """Reference listing entry."""
    t, s = place(case, i, j)
    std2 = '' if case.get('nostd2') else s[1]
    return (t, (f'{s[0]:<4}' + std2).strip(), s[2], s[3] / 100, s[4] / 100, s[5], s[6], s[7])


def same(a, b, flag=MISS):
    """Read value a against meaning b (None missing; read back as NaN or the flag)."""
    if b is None:
        return a is None or math.isnan(a) or a == flag
    return abs(float(a) - b) <= 2.0**-22 * abs(b) + 1e-30


def open_file(case, rec):
    raw, want = build(case)
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(raw)
    return (GempakSounding if case['kind'] == 'snd' else GempakSurface)(path), want


def run(case, rec):
    """Build one file, read it, compare everything."""
    g, want = open_file(case, rec)
    snd = case['kind'] == 'snd'
    info = [tuple(x)[2:] for x in (g.sninfo() if snd else g.sfinfo())]
    ref = [ident(case, i, j) for i, j in sorted(want)]
    expect(info == ref, lambda: f'listing {info}, expected {ref}')
    rec.step(1 + len(want))
    rec.state([case['kind'], case.get('en', '<'), case['times'], case['stations'],
               case.get('absent'), [(p['type'], [q.get('bits') for q in p['params']])
                                    for p in case['parts']], case.get('nlev')])
    rec.outcome(f'{case["kind"]}: {min(len(want), 6)} entries')
    if not want:
        return
    if snd:
        out = g.snxarray()
        expect(len(out) == len(want), lambda: f'{len(out)} soundings, expected {len(want)}')
        for ds, ij in zip(out, sorted(want), strict=True):
            check_sounding(case, ds, ij, want[ij])
    else:
        out = g.sfjson()
        expect(len(out) == len(want), lambda: f'{len(out)} reports, expected {len(want)}')
        for o, ij in zip(out, sorted(want), strict=True):
            check_report(case, o, ij, want[ij])


def check_sounding(case, ds, ij, parts):
    """One merged sounding."""
    t, sid, num, lat, lon, elev, st, co = ident(case, *ij)
    a = ds.attrs
    got = (ds.time.values[0].astype('datetime64[s]').astype(datetime), a['station_id'],
           a['station_number'], a['lat'], a['lon'], a['elevation'], a['state'], a['country'])
    expect(got == (t, sid, num, lat, lon, elev, st, co), lambda: f'{ij}: {got}')
    names = [p['name'] for p in case['parts'][0]['params']]
    levels = parts[0]
    vc = 'pres' if 'PRES' in names else 'hght'
    expect(set(ds.data_vars) | {vc} == {n.lower() for n in names}, lambda: f'{list(ds.data_vars)}')
    if vc == 'pres':
        sp, first = a['station_pressure'], levels[0][names.index('PRES')] if levels else None
        expect(same(float(sp), first, case.get('missing', MISS)), lambda: f'{ij}: station pressure {sp}, stored {first}')
    cols = [np.atleast_1d(np.squeeze(ds[n.lower()].values, axis=0))
            if n.lower() != vc else ds[vc].values for n in names]
    rows = list(zip(*cols, strict=True))
    expect(len(rows) == len(levels), lambda: f'{ij}: {len(rows)} levels, stored {len(levels)}')
    key = names.index(vc.upper())
    order = sorted(levels, key=lambda r: (r[key] is not None and 1 or 0,
                                          r[key] or 0), reverse=vc == 'pres')
    tops = [r[key] for r in rows]
    expect(all((a >= b) if vc == 'pres' else (a <= b) for a, b in zip(tops, tops[1:])),
           lambda: f'{ij}: levels out of order {tops}')
    left, flag = list(order), case.get('missing', MISS)
    for r in rows:
        for k, m in enumerate(left):
            if all(same(x, y, flag if q == key else math.nan)
                   for q, (x, y) in enumerate(zip(r, m, strict=True))):
                del left[k]
                break
        else:
            expect(False, lambda: f'{ij}: level {[float(x) for x in r]} was not stored; '
                                  f'stored and unmatched: {left[:3]}')


def check_report(case, o, ij, parts):
    """One surface report without METAR text."""
    t, sid, num, lat, lon, elev, st, co = ident(case, *ij)
    p = o['properties']
    _t, s = place(case, *ij)
    got = (p['date_time'], p['station_id'], p['station_number'], p['latitude'], p['longitude'],
           p['elevation'], p['state'], p['country'], p['priority'])
    expect(got == (t, sid, num, lat, lon, elev, st, co, s[8]), lambda: f'{ij}: {got}')
    ref = {}
    for ip, m in parts.items():
        prm = case['parts'][ip]['params']
        if isinstance(m, str):
            ref[prm[0]['name'].lower()] = m
        else:
            ref.update({q['name'].lower(): v for q, v in zip(prm, m[0], strict=True)})
    expect(set(o['values']) == set(ref), lambda: f'{ij}: {sorted(o["values"])} expected {sorted(ref)}')
    for k, v in ref.items():
        w = o['values'][k]
        if isinstance(v, str):
            expect(w == v, lambda: f'{ij}: {k} = {w!r}, stored {v!r}')
        else:
            expect(same(w, v, case.get('missing', MISS)), lambda: f'{ij}: {k} = {w}, stored {v}')
