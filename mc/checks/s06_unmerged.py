"""S06: merging of unmerged soundings."""

import itertools

from mc import sndmerge
from mc.sndmerge import NAMES, PARTS

PROPERTY = 'S06'
LEVEL = 'model_checking'
RULE = (
    'A case is one unmerged sounding (which parts exist, their levels, missing values, vertical '
    'coordinate of the winds, storage) laid out by the reference builder and read by '
    'GempakSounding.snxarray; the profile is compared with the specification of what merging '
    'must keep and may fill in. Non-trivial: distinct file specification.'
)

BASE = {
    'TTAA': [965, 925, 850, 700, 500, 300, 100],
    'PPAA': [925, 700, 300],
    'TRPA': [214],
    'MXWA': [236],
    'TTBB': [965, 880, 610, 410],
    'PPBB': [0, 600, 1500, 6000, 9900],
    'TTCC': [70, 30, 10],
    'PPCC': [70, 30],
    'TRPC': [82],
    'MXWC': [57],
    'TTDD': [90, 44],
    'PPDD': [17400, 27000],
}
PWIND = {'PPBB': [-965, -940, -550, -410], 'PPDD': [-85, -25]}
BGL = {'TTAA': [905, 1000, 925, 850, 700, 300, 100], 'TTBB': [905, 880, 610], 'PPBB': [0, 1500, 6000]}
BGLP = {**BGL, 'PPBB': [-905, -550]}
NOSFC = [['TTAA', 0, n] for n in ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED')] + [
    ['TTBB', 0, n] for n in ('PRES', 'TEMP', 'DWPT')]
COORDS = {'z': {}, 'p': PWIND, 'bp': {'PPBB': PWIND['PPBB']}, 'dp': {'PPDD': PWIND['PPDD']}}


def plan(tier):
    t = tier == 'thorough'
    kinds = ('sfc', 'nosfc', 'bgl', 'nottb')
    pres = [(c, s) for c in COORDS for s in kinds] if t else [('z', 'sfc'), ('z', 'nosfc'), ('p', 'bgl')]
    units = [{'u': 'presence', 'c': c, 's': s, 'k': k} for c, s in pres for k in range(16)]
    units += [{'u': 'missing', 'c': c, 's': s, 'p': p, 't': t} for c in COORDS
              for s in ('sfc', 'nosfc', 'bgl') for p in PARTS]
    units += [{'u': 'coincide', 'c': c, 'p': p} for c in COORDS
              for p in ('TRPA', 'MXWA', 'TRPC', 'MXWC', 'TTBB', 'TTDD', 'PPBB', 'PPDD', 'two')]
    units += [{'u': 'prefix', 'c': c, 's': s, 'n': n, 't': t} for c in ('z', 'p')
              for s in ('sfc', 'nosfc') for n in range(8) if t or (c, s) in (('z', 'sfc'), ('p', 'nosfc'))]
    units += [{'u': 'ground', 'c': c} for c in COORDS]
    units += [{'u': 'storage', 'c': c} for c in COORDS]
    units += [{'u': 'text', 'k': k} for k in range(4)]
    units += [{'u': 'several', 'k': k, 't': t} for k in range(len(templates()) + 1)]
    return units


def templates():
    """Soundings that differ in what they have."""
    z, p, b, n = base('z', 'sfc'), base('p', 'sfc'), base('z', 'bgl'), base('z', 'nosfc')
    only = [{'levels': {q: z['levels'][q] for q in qs}} for qs in (
        ('TTAA',), ('TTBB',), ('PPBB', 'PPDD'), ('TTAA', 'TTCC'), ('TTAA', 'TTBB', 'PPBB', 'TRPA'))]
    text = {**only[0], 'texts': {'TXTA': 'TTAA 81121', 'TXTC': 'TTCC 81125 72357'}}
    gaps = {**z, 'miss': [['TTAA', i, x] for i in (0, 2, 3) for x in ('TEMP', 'DRCT', 'SPED')]}
    return [z, n, p, b, *only, text, gaps]


def base(coord, sfc):
    lv = {k: list(v) for k, v in {**BASE, **COORDS[coord]}.items()}
    if sfc == 'bgl':
        for k, v in (BGLP if coord in ('p', 'bp') else BGL).items():
            lv[k] = list(v)
    case = {'levels': lv}
    if sfc == 'nosfc':
        case['miss'] = list(NOSFC)
        if coord in ('p', 'bp'):
            case['miss'] = NOSFC + [['PPBB', 0, n] for n in ('HGHT', 'DRCT', 'SPED')]
    return case


def run_unit(unit, rec):
    u = unit['u']
    if u == 'presence':
        c = base(unit['c'], 'sfc' if unit['s'] == 'nottb' else unit['s'])
        if unit['s'] == 'nottb':  # TTBB without the surface level
            c['levels']['TTBB'] = c['levels']['TTBB'][1:]
        for lo in range(256):
            mask = unit['k'] << 8 | lo
            keep = [p for k, p in enumerate(PARTS) if mask >> k & 1]
            rec.case({**c, 'levels': {p: c['levels'][p] for p in keep}, 'en': '<>'[lo & 1]})
    elif u == 'missing':
        c = base(unit['c'], unit['s'])
        p = unit['p']
        cells = [[p, i, n] for i in range(len(c['levels'][p])) for n in NAMES[p]]
        every = [[q, i, n] for q in PARTS for i in range(len(c['levels'][q])) for n in NAMES[q]]
        m = c.get('miss', [])
        for a in cells:
            rec.case({**c, 'miss': m + [a]})
            # missing everywhere above, and everywhere below
            rec.case({**c, 'miss': m + [[q, i, n] for q, i, n in cells if n == a[2] and i >= a[1]]})
            rec.case({**c, 'miss': m + [[q, i, n] for q, i, n in cells if n == a[2] and i <= a[1]]})
            if unit['t'] or unit['s'] == 'sfc' and unit['c'] == 'z':
                for b in every:
                    if a < b:
                        rec.case({**c, 'miss': m + [a, b]})
            rec.case({'levels': {p: c['levels'][p]}, 'miss': [a]})
            rec.case({'levels': {q: c['levels'][q] for q in ('TTAA', p)}, 'miss': m + [a]})
        for i in range(len(c['levels'][p])):  # whole levels
            rec.case({**c, 'miss': m + [[p, i, n] for n in NAMES[p]]})
        for n in NAMES[p]:
            rec.case({**c, 'miss': m + [x for x in cells if x[2] == n]})
    elif u == 'coincide':
        c = base(unit['c'], 'sfc')
        p = unit['p']
        ps = [990, 965, 964, 940, 925, 900, 880, 610, 500, 410, 350, 300, 236, 214, 150, 100, 90, 82, 70,
              57, 44, 25, 10, 7]
        zs = [0, 1, 100, 362, 363, 364, 600, 1480, 3000, 5574, 5575, 9164, 12000, 15800, 17400, 18190,
              18189.5, 18190.5, 22000, 27000, 31227, 40000]
        pw = p in COORDS[unit['c']]
        if p in ('PPBB', 'PPDD') and not pw:
            keep = c['levels'][p]
            for z in zs:
                if p == 'PPDD' and z < 9900 or p == 'PPBB' and z > 15800:
                    continue
                for k in range(len(keep)):
                    lv = sorted({*keep[:k], *keep[k + 1:], z})
                    for drop in ((), ('TTAA', 3), ('TTAA', 4), ('TTCC', 1), ('TTCC', 2), ('TTAA', 0)):
                        for names in (('DRCT', 'SPED'), ('SPED',), ('DRCT',)):
                            lev = {**c['levels'], p: lv, 'PPAA': [925], 'PPCC': [70]}
                            rec.case({'levels': lev,
                                      'miss': [[*drop, n] for n in names] if drop else []})
                    rec.case({'levels': {'TTAA': BASE['TTAA'], p: lv}})
            return
        if p == 'two':
            for a, b in itertools.product(ps[1:15], repeat=2):
                if a > 700:
                    continue  # no tropopause is that low
                lv = {**c['levels'], 'TRPA': [a], 'MXWA': [b]}
                rec.case({'levels': lv})
                rec.case({'levels': lv, 'miss': [['TTAA', i, n] for i in range(1, 7)
                                                 for n in ('DRCT', 'SPED')]})
            for a, b in itertools.combinations(ps[1:], 2):
                if 100 <= b <= a <= 700:
                    rec.case({'levels': {**c['levels'], 'TRPA': [a, b]}})
                if 100 <= b:
                    rec.case({'levels': {**c['levels'], 'MXWA': [a, b]}})
            return
        sign = -1 if pw else 1
        keep = c['levels'][p]
        lo, hi = ((100, 2000) if p[-1] in 'AB' else (0, 100))
        for q in ps:
            if not lo <= q <= hi or p == 'TRPA' and q > 700:
                continue
            for k in range(len(keep) + 1):
                lv = sorted({abs(x) for x in keep[:k] + keep[k + 1:]} | {q}, reverse=True)
                lv = [sign * x for x in lv]
                for drop in ((), ('DRCT', 'SPED'), ('DWPT',)):
                    m = [['TTAA', i, n] for i in range(1, 7) for n in drop]
                    m += [['TTCC', i, n] for i in range(3) for n in drop]
                    rec.case({'levels': {**c['levels'], p: lv}, 'miss': m})
                rec.case({'levels': {**c['levels'], p: lv}, 'miss': list(NOSFC)})
                rec.case({'levels': {'TTAA': BASE['TTAA'], p: lv}})
    elif u == 'prefix':
        c = base(unit['c'], unit['s'])
        lv = c['levels']
        n = unit['n']
        for a in range(len(lv['TTBB']) + 1):
            for b in range(len(lv['PPBB']) + 1):
                for d in range(len(lv['TTCC']) + 1):
                    for e in range(len(lv['PPDD']) + 1):
                        x = {**lv, 'TTAA': lv['TTAA'][:n], 'TTBB': lv['TTBB'][:a],
                             'PPBB': lv['PPBB'][:b], 'TTCC': lv['TTCC'][:d], 'PPDD': lv['PPDD'][:e]}
                        x = {k: v for k, v in x.items() if v}
                        rec.case({**c, 'levels': {k: v for k, v in x.items()
                                                  if k[:3] not in ('TRP', 'MXW')}})
                        if unit['t'] or a == b:
                            rec.case({**c, 'levels': x})
    elif u == 'ground':
        c = base(unit['c'], 'sfc')
        men = [1000, 925, 850, 700, 500, 300, 100]
        pw = 'PPBB' in COORDS[unit['c']]
        for s in (965, 940, 905, 851, 849, 760, 695, 620):
            above = [p for p in men if p < s]
            under = [p for p in men if p > s]
            for missing in ((), ('TEMP',), ('TEMP', 'DWPT', 'DRCT', 'SPED')):
                for tt in ([s], [s, s - 40, 410], [s - 40, 410], []):
                    for pp in ([-s, -(s - 30), -340], [-(s - 30)], []) if pw else (
                            [0, 2400, 6000], [0], []):
                        for mx in ([236], []):
                            lv = {'TTAA': [s, *under, *above], 'TTBB': tt, 'PPBB': pp, 'MXWA': mx}
                            lv = {k: v for k, v in lv.items() if v}
                            m = [['TTAA', i + 1, n] for i in range(len(under)) for n in missing]
                            rec.case({'levels': lv, 'miss': m})
                            lv['PPDD'] = c['levels']['PPDD']
                            rec.case({'levels': lv, 'miss': m})
        for s in (*range(1001, 1061), 1000.5, 999.5, *range(925, 1000, 7)):
            for miss in ((), ('HGHT',), ('TEMP',), ('DRCT', 'SPED')):
                lv = {**c['levels'], 'TTAA': [s, *[p for p in men if p > s], *[p for p in men if p < s]],
                      'TTBB': [s, 880, 410]}
                lv['PPBB'] = [-s, -600] if pw else [0, 3000]
                x = {'levels': lv, 'elev': round(sndmerge.hgt(s)),
                     'miss': [['TTAA', 0, n] for n in miss]}
                rec.case(x)
                rec.case({**x, 'levels': {'TTAA': lv['TTAA']}})
    elif u == 'storage':
        for s in ('sfc', 'nosfc', 'bgl'):
            c = base(unit['c'], s)
            for pack in (0, 1):
                for en in '<>':
                    for order in ('fwd', 'rev'):
                        for pn in (0, 1):
                            if pn and pack:
                                continue
                            x = {**c, 'pack': pack, 'en': en, 'order': order, 'presname': pn,
                                 'same': 1}
                            rec.case(x)
                            for flag in (-999.0, -32767.0):
                                for q in PARTS:  # another missing data value
                                    for n in NAMES[q]:
                                        m = [[q, i, n] for i in range(9)]
                                        rec.case({**x, 'missing': flag, 'same': 0, 'miss': m})
                            for q in PARTS:
                                rec.case({**x, 'levels': {k: v for k, v in c['levels'].items()
                                                          if k != q}})
                            for r in range(1, 12):
                                rec.case({**x, 'partorder': [(k + r) % 12 for k in range(12)]})
    elif u == 'several':
        al = [None, *templates()]
        a = al[unit['k']]
        few = [al[0], al[1], al[2], al[5], al[10]] if not unit['t'] else al
        for k, b in enumerate(al):
            if a or b:
                for grid in ([[a, b]], [[a], [b]], [[a, b, a]], [[b], [a], [a]]):
                    for pack in (0, 1):
                        rec.case({'grid': grid, 'pack': pack, 'en': '<>'[k & 1],
                                  'order': ('fwd', 'rev')[pack]})
            if a and b:
                for c, d in itertools.product(few, repeat=2):
                    rec.case({'grid': [[a, b], [c, d]], 'en': '<>'[k & 1]})
    elif u == 'text':
        txt = 'TTAA 81121 72357 99965 20256 18010 00093 ///// ///// = '
        name = ('TXTA', 'TXTB', 'TXPB', 'TXTC')
        for n in range(1, 2 * len(txt)):
            t = (txt * 2)[:n].rstrip() or 'x'
            c = base('zp'[n & 1], 'sfc')
            for keep in (list(BASE), ['TTAA'], ['TTBB'], []):
                rec.case({'levels': {k: c['levels'][k] for k in keep}, 'en': '<>'[n & 1],
                          'texts': {name[unit['k']]: t}})
        for mask in range(16):
            c = base('z', 'sfc')
            rec.case({**c, 'texts': {x: x + ' ' + txt for k, x in enumerate(name) if mask >> k & 1}})


def run_case(case, rec):
    sndmerge.run(case, rec)
