"""S05: METAR and special report text: every report once, with the right time and values."""

from datetime import datetime, timedelta
import itertools

from gempakio import GempakSurface
from mc import gemref
from mc.core import expect

PROPERTY = 'S05'
LEVEL = 'model_checking'
RULE = (
    'A case is one surface file with numeric, report text and special text parts laid out by '
    'the reference builder, over every combination of what each part holds; the reports '
    'returned with and without specials, and the nearest report to a time, are compared with '
    'the specification. Non-trivial: distinct file specification.'
)
STN = ['KMSN', 'CYYZ', 'K1A2']
TEXTS = ['none', 'one', 'two', 'notime', 'nostn', 'blank', 'rmk']
SPCLS = ['none', 'one', 'two', 'three', 'notime', 'nostn', 'badtime', 'badday', 'mixed']
BODY = ('AUTO 18004KT 10SM CLR 21/10 A2986', '01003KT 2SM -TSRA BKN027CB RMK AO2 SLP111',
        'VRB03KT 9999 NSC 24/12 Q1013')


def z(t):
    return t.strftime('%d%H%MZ')


def reports(kind, stn, filed):
    """[(text, time or None)] for a text variant."""
    a, b, c = (filed + timedelta(minutes=m) for m in (1, 4, 29))
    r = [f'{stn} {z(t)} {x}' for t, x in zip((a, b, c), BODY, strict=True)]
    return {
        'none': [],
        'one': [(r[0], a)],
        'two': [(r[0], a), (r[1], b)],
        'three': [(r[2], c), (r[0], a), (r[1], b)],
        'notime': [(f'{stn} {BODY[0]}', None)],
        'nostn': [(f'{z(b)} {BODY[1]}', b)],
        'badtime': [(f'{stn} {filed.day:02d}2561Z {BODY[0]}', None)],
        'badday': [(f'{stn} 000030Z {BODY[0]}', None)],
        'mixed': [(r[1], b), (f'{stn} {BODY[2]}', None)],
        'blank': None,
        'rmk': [(f'{stn} {z(a)} {BODY[1]} LAST NO AMDTS AFT {z(c)}', a)],
    }[kind]


def plan(tier):
    units = [{'u': 'combo', 'en': en} for en in '<>']
    units += [{'u': 'days', 'year': y, 'm': m} for y in (2020, 2021, 1999) for m in range(1, 13)]
    units += [{'u': 'length'}, {'u': 'cells'}]
    return units


def run_unit(unit, rec):
    u = unit['u']
    if u == 'combo':
        for t, s in itertools.product(TEXTS, SPCLS):
            for vals in (0, 1):
                for stn in STN:
                    for filed in ('202109071200', '202102282330', '202012310005'):
                        rec.case({'en': unit['en'], 'cells': [[stn, filed, t, s, vals]]})
    elif u == 'days':  # specials before and after the time they are filed under
        d = datetime(unit['year'], unit['m'], 1)
        while d.month == unit['m']:
            for hm in ((0, 0), (0, 20), (23, 40), (12, 0)):
                filed = d.replace(hour=hm[0], minute=hm[1])
                rec.case({'days': filed.strftime('%Y%m%d%H%M'),
                          'off': [-720, -61, -21, -1, 0, 1, 21, 61, 720]})
            d += timedelta(days=1)
    elif u == 'length':
        for n in range(1, 200):
            rec.case({'en': '<>'[n % 2], 'pad': n,
                      'cells': [['KMSN', '202109071200', 'one', 'two', 1]]})
    elif u == 'cells':  # several stations and times in one file
        kinds = list(itertools.product(('none', 'two'), ('none', 'one', 'two'), (0, 1)))
        for a, b in itertools.product(kinds, kinds):
            rec.case({'cells': [['KMSN', '202109071200', *a], ['CYYZ', '202109071200', *b],
                                ['KMSN', '202109071300', *b], ['CYYZ', '202109071300', *a]]})


def nearest(t, filed):
    """The date and time with this day, hour and minute nearest to the filing time."""
    best = None
    for k in range(-40, 41):
        d = (filed + timedelta(days=k)).replace(hour=t.hour, minute=t.minute)
        if d.day == t.day and (best is None or abs(d - filed) < abs(best - filed)):
            best = d
    return best


def expected(stn, filed, texts, spcls, vals):
    """Reference reports of a cell: (time, text or None, special or None, has values)."""
    out = []
    for txt, _t in texts or []:
        out.append((filed, txt, None, vals))
    for txt, t in spcls or []:
        out.append((nearest(t, filed) if t else filed, None, txt, vals and not texts))
    if not out and (vals or texts is None):
        out.append((filed, None, None, vals))
    return out


def run_case(case, rec):
    if 'days' in case:
        filed = datetime.strptime(case['days'], '%Y%m%d%H%M')
        cells = []
        spc = [(f'KMSN {z(filed + timedelta(minutes=m))} {BODY[0]}', filed + timedelta(minutes=m))
               for m in case['off']]
        cells.append(('KMSN', filed, [(f'KMSN {z(filed)} {BODY[1]}', filed)], spc, 1))
    else:
        cells = []
        for stn, f, t, s, vals in case['cells']:
            filed = datetime.strptime(f, '%Y%m%d%H%M')
            tx, sp = reports(t, stn, filed), reports(s, stn, filed)
            if case.get('pad'):
                sp = [(x + ' ' + 'X' * case['pad'], y) for x, y in sp]
            cells.append((stn, filed, tx, sp, vals))
    times = sorted({c[1] for c in cells})
    stns = list(dict.fromkeys(c[0] for c in cells))
    pt = [{'name': 'SFDT', 'header': 1, 'type': gemref.REAL,
           'params': [{'name': 'PMSL'}, {'name': 'TMPC'}]},
          {'name': 'SFTX', 'header': 1, 'type': gemref.CHARACTER, 'params': [{'name': 'TEXT'}]},
          {'name': 'SFSP', 'header': 2, 'type': gemref.CHARACTER, 'params': [{'name': 'SPCL'}]}]

    def words(s):
        b = s.encode().ljust(-(-len(s) // 4) * 4)
        return [b[k : k + 4] for k in range(0, len(b), 4)]

    data, ref = {}, []
    for n, (stn, filed, tx, sp, vals) in enumerate(cells):
        i, j = times.index(filed), stns.index(stn)
        if vals:
            data[i, j, 0] = ([1200], [1000.0 + n, 0.5 * n])
        if tx is None:
            data[i, j, 1] = ([1200], words('        '))
        elif tx:
            data[i, j, 1] = ([1200], words(' '.join(x for x, _ in tx)))
        if sp:
            data[i, j, 2] = ([len(sp), 1200], words(' '.join(x for x, _ in sp)))
        ref.append(((i, j), n, stn, expected(stn, filed, tx, sp, vals)))
    ref.sort()
    raw = gemref.build(
        en=case.get('en', '<'), file_type=1, source=2, row_keys=['DATE', 'TIME'],
        col_keys=['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI'],
        rows=[[int(t.strftime('%y%m%d')), int(t.strftime('%H%M'))] for t in times],
        cols=[[s, 7 + k, 4300, -8900, 262, 'WI', 'US', '', 0] for k, s in enumerate(stns)],
        parts=pt, data=data)
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(raw)
    g = GempakSurface(path)
    rec.state([[c[0], str(c[1]), str(c[2]), str(c[3]), c[4]] for c in cells])
    for special in (True, False):
        want = []
        for _ij, n, stn, reps in ref:
            for t, tx, sp, v in reps:
                if sp is not None and not special:
                    continue
                val = {'pmsl': 1000.0 + n, 'tmpc': 0.5 * n} if v else {}
                if tx is not None:
                    val['text'] = tx
                if sp is not None:
                    val['spcl'] = sp
                want.append((t, stn, val))
        rec.step()
        if not data:
            continue
        out = g.sfjson(include_special=special)
        got = [(o['properties']['date_time'], o['properties']['station_id'], o['values'])
               for o in out]
        expect(len(got) == len(want), lambda: f'{len(got)} reports {got}, expected {want}')
        for a, b in zip(got, want, strict=True):
            expect(a == b, lambda: f'report {a}, expected {b} (specials: {special})')
        rec.outcome(f'{min(len(want), 9)} reports')
        for stn in stns:
            mine = [w for w in want if w[1] == stn]
            if not any(r[2] == stn and r[0] in {k[:2] for k in data} for r in ref):
                continue
            for t in {w[0] for w in mine} | {times[0] - timedelta(hours=1)}:
                near = g.nearest_time(t, station_id=stn, include_special=special)
                rec.step()
                if not mine:
                    expect(near == [], lambda: f'nearest {t}: {near}, nothing expected')
                    continue
                best = min(abs(w[0] - t) for w in mine)
                got = [(o['properties']['date_time'], o['properties']['station_id'], o['values'])
                       for o in near]
                expect(len(got) == 1 and got[0] in mine and abs(got[0][0] - t) == best,
                       lambda: f'nearest {t} for {stn}: {got}, candidates {mine}')
