"""S03: decoding of sounding and surface files laid out independently of the writer."""

import itertools

from mc import stnread
from mc.stnread import CHAR, PACK, REAL

PROPERTY = 'S03'
LEVEL = 'model_checking'
RULE = (
    'A case is one sounding or surface file laid out by the reference builder (layout kind, '
    'deleted rows and columns, absent cells, parts, bit layouts, byte order, block order) and '
    'read by GempakSounding or GempakSurface; listing and every value are compared with the '
    'specification. Non-trivial: distinct file specification.'
)


def prm(*names, bits=12, scale=0, offset=0):
    return [{'name': n, 'bits': bits, 'scale': scale, 'offset': offset} for n in names]


SND = [{'name': 'SNDT', 'type': REAL, 'params': prm('PRES', 'TMPC', 'DRCT')}]
SNDP = [{'name': 'SNDT', 'type': PACK, 'params': prm('PRES', 'TMPC', 'DRCT')}]
SFC = [{'name': 'SFDT', 'type': REAL, 'params': prm('PMSL', 'TMPC')},
       {'name': 'SFD2', 'type': PACK, 'params': prm('DRCT', 'SPED', 'VSBY', bits=13)}]
TXT = [{'name': 'SFDT', 'type': PACK, 'params': prm('PMSL', 'TMPC')},
       {'name': 'SFTX', 'type': CHAR, 'params': prm('TEXT')}]


def plan(tier):
    t = tier == 'thorough'
    units = []
    for kind in ('snd', 'std', 'clim', 'ship'):
        for en in '<>':
            for uns in ('missing', 'stale'):
                units.append({'u': 'table', 'kind': kind, 'en': en, 'unused': uns, 't': t})
        units.append({'u': 'layout', 'kind': kind})
        units.append({'u': 'keys', 'kind': kind})
        units += [{'u': 'bits', 'kind': kind, 'a': a, 't': t} for a in range(1, 33)]
    units += [{'u': 'missing', 'kind': k, 'typ': p} for k in ('snd', 'std', 'clim', 'ship')
              for p in (REAL, PACK)]
    units += [{'u': 'levels'}, {'u': 'text'}]
    units += [{'u': 'scale', 'kind': k} for k in ('snd', 'std')]
    units += [{'u': 'nparm', 'kind': k} for k in ('snd', 'std', 'clim', 'ship')]
    return units


def parts_of(kind):
    return SND if kind == 'snd' else SFC


def run_unit(unit, rec):
    u, kind = unit['u'], unit.get('kind')
    if u == 'table':
        shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3)] + ([(3, 3)] if unit['t'] else [])
        for nt, ns in shapes:
            if kind == 'ship' and nt != 1:
                continue
            for tm in itertools.product((0, 1), repeat=nt if kind != 'ship' else ns):
                for sm in itertools.product((0, 1), repeat=ns if kind != 'ship' else 0):
                    if not any(tm) or (sm and not any(sm)):
                        continue
                    times = [k if x else None for k, x in enumerate(tm)]
                    stns = ([k if x else None for k, x in enumerate(sm)]
                            if kind != 'ship' else [k if x else None for k, x in enumerate(tm)])
                    used = None not in times and None not in stns
                    if unit['unused'] == 'stale' and used:
                        continue
                    ni, nj = ((len(stns), len(times)) if kind == 'clim' else
                              (1, len(times)) if kind == 'ship' else (len(times), len(stns)))
                    cells = [[i, j] for i in range(ni) for j in range(nj)]
                    for mask in range(1 << len(cells) if used else 2):
                        absent = [c for k, c in enumerate(cells) if mask >> k & 1]
                        rec.case({'kind': kind, 'en': unit['en'], 'unused': unit['unused'],
                                  'times': times, 'stations': stns, 'absent': absent,
                                  'parts': parts_of(kind), 'nlev': {'*': 2}})
        if kind == 'ship':
            for tm in itertools.product((0, 1), repeat=5):
                x = [k if v else None for k, v in enumerate(tm)]
                if any(tm):
                    rec.case({'kind': kind, 'en': unit['en'], 'unused': unit['unused'],
                              'times': x, 'stations': x, 'parts': SFC})
            # rows that are deleted
            for rows, tm in itertools.product(
                    ([None, [1]], [[1], None], [None, None, [1]], [None, [1], None]),
                    itertools.product((0, 1), repeat=3)):
                x = [k if v else None for k, v in enumerate(tm)]
                if any(tm):
                    rec.case({'kind': kind, 'en': unit['en'], 'unused': unit['unused'],
                              'times': x, 'stations': x, 'parts': SFC, 'rows': rows})
    elif u == 'layout':
        for en in '<>':
            for order in ('fwd', 'rev'):
                for gap in (0, 1, 5, 128):
                    for hl in (1, 2, 3):
                        for fill in ('\0', '\xff'):
                            parts = [{**p, 'hlen': hl} for p in parts_of(kind)]
                            x = [0, 2, 5]
                            for uns in ([0, None, 2], [None, 1, 2]):
                                rec.case({'kind': kind, 'en': en, 'order': order, 'gap': gap,
                                          'fill': fill, 'times': uns,
                                          'stations': uns if kind == 'ship' else x,
                                          'parts': parts, 'nlev': {'*': 3}})
        if kind != 'snd':  # every pattern of absent parts
            x = [0, 1]
            keys = [[0, j, p] for j in (0, 1) for p in (0, 1)]
            for mask in range(16):
                ab = [c for k, c in enumerate(keys) if mask >> k & 1]
                rec.case({'kind': kind, 'times': x if kind != 'std' else [0],
                          'stations': x if kind != 'clim' else [0], 'absent': ab, 'parts': SFC})
    elif u == 'keys':  # every rotation and swap of the header words
        n = 9 if kind != 'snd' else 8
        perms = [[(k + r) % n for k in range(n)] for r in range(n)]
        for a, b in itertools.combinations(range(n), 2):
            p = list(range(n))
            p[a], p[b] = p[b], p[a]
            perms.append(p)
        for p in perms:
            for en in '<>':
                rec.case({'kind': kind, 'perm': p, 'en': en, 'times': [0, 1, 2],
                          'stations': [0, 1, 4], 'parts': parts_of(kind)})
        if kind == 'snd':
            for s in range(6):
                rec.case({'kind': kind, 'nostd2': True, 'times': [3], 'stations': [s],
                          'parts': SND})
        for s in range(6):
            for t in range(6):
                rec.case({'kind': kind, 'times': [t], 'stations': [s], 'parts': parts_of(kind)})
    elif u == 'bits':  # pairs and triples of field widths: every word phase
        a = unit['a']
        widths = range(1, 33)
        third = (1, 5, 16, 31) if not unit['t'] else widths
        for b in widths:
            for c in third if kind in ('snd', 'std') else (9,):
                ps = [{'name': n, 'bits': w, 'scale': 0, 'offset': 0}
                      for n, w in zip(('PRES', 'TMPC', 'DRCT'), (a, b, c), strict=True)]
                rows = [['lo', 'hi', 'lo'], ['hi', 'miss', 'hi'], [5, 6, 'miss'], ['hi', 'hi', 9]]
                part = [{'name': 'SNDT' if kind == 'snd' else 'SFDT', 'type': PACK, 'params': ps}]
                if kind == 'snd':
                    rec.case({'kind': kind, 'en': '<>'[b % 2], 'times': [0], 'stations': [0],
                              'parts': part, 'nlev': {'*': 4}, 'codes': rows})
                else:
                    for r in rows[: None if kind == 'std' else 2]:
                        rec.case({'kind': kind, 'en': '<>'[b % 2], 'times': [0], 'stations': [0],
                                  'parts': part, 'codes': [r]})
    elif u == 'missing':  # every pattern of missing values, under several missing data values
        kind, typ = unit['kind'], unit['typ']
        name = 'SNDT' if kind == 'snd' else 'SFDT'
        part = [{'name': name, 'type': typ, 'params': prm('PRES', 'TMPC', 'DRCT')}]
        nlev = 3 if kind == 'snd' else 1
        for mask in range(1 << 3 * nlev):
            codes = [['miss' if mask >> 3 * lev + q & 1 else 7 + 10 * lev + 40 * q
                      for q in range(3)] for lev in range(nlev)]
            for flag in (-9999.0, -999.0, 0.0, 2.0**66):
                rec.case({'kind': kind, 'en': '<>'[mask & 1], 'times': [0], 'stations': [0],
                          'parts': part, 'codes': codes, 'nlev': {'*': nlev},
                          'missing': flag})
    elif u == 'levels':
        for n in range(141):
            for part in (SND, SNDP):
                rec.case({'kind': 'snd', 'times': [0], 'stations': [0, 1], 'parts': part,
                          'nlev': {'0,0': n, '0,1': 140 - n}, 'en': '<>'[n % 2]})
    elif u == 'scale':
        for sc in range(-6, 7):
            for off in (-100000, -1350, -1, 0, 1, 8800, 2**31 - 1):
                for bits in (1, 11, 24):
                    ps = prm('PRES', 'TMPC', bits=bits, scale=sc, offset=off)
                    part = [{'name': 'SNDT' if kind == 'snd' else 'SFDT', 'type': PACK,
                             'params': ps}]
                    for codes in ([['lo', 'hi']], [['hi', 'miss']]):
                        rec.case({'kind': kind, 'times': [0], 'stations': [0], 'parts': part,
                                  'codes': codes})
    elif u == 'nparm':
        for n in range(1, 45):
            for typ in (REAL, PACK):
                names = ['PRES'] + [f'P{k:03d}' for k in range(1, n)]
                ps = [{'name': x, 'bits': 3 + k % 14, 'scale': -(k % 3), 'offset': k}
                      for k, x in enumerate(names)]
                rec.case({'kind': kind, 'times': [0], 'stations': [2], 'parts': [
                    {'name': 'SNDT' if kind == 'snd' else 'SFDT', 'type': typ, 'params': ps}],
                    'nlev': {'*': 3}})
        if kind == 'snd':  # height instead of pressure
            for typ in (REAL, PACK):
                rec.case({'kind': kind, 'times': [0], 'stations': [2], 'parts': [
                    {'name': 'SNDT', 'type': typ, 'params': prm('HGHT', 'TMPC')}],
                    'nlev': {'*': 5}})
    elif u == 'text':
        for n in range(1, 130):
            txt = ('KDEN 311153Z AUTO 18004KT 10SM ' * 5)[:n].strip()
            for en in '<>':
                rec.case({'kind': 'ship', 'en': en, 'times': [0, 1], 'stations': [2, 3],
                          'parts': TXT, 'text': {'SFTX': [txt, 'SHIP ' + txt]}})
                rec.case({'kind': 'clim', 'en': en, 'times': [0], 'stations': [2],
                          'parts': TXT, 'text': {'SFTX': txt}})


def run_case(case, rec):
    stnread.run(case, rec)
