"""M01: what a GEMPAK file says about itself is reported as the file holds it."""

from datetime import date, time
import itertools
from pathlib import Path
import struct

from mc import gemref, gridread, stnread
from mc.core import expect

PROPERTY = 'M01'
LEVEL = 'model_checking'
RULE = (
    'A case is one file laid out by the reference builder with some words of its label, keys, '
    'parts, headers, navigation or analysis block set to chosen values; everything the reader '
    'reports about the file is compared with the words of the file, read by their places in '
    'the format. Non-trivial: distinct file.'
)

LABEL = (
    'version file_headers file_keys_ptr rows row_keys row_keys_ptr row_headers_ptr columns '
    'column_keys column_keys_ptr column_headers_ptr parts parts_ptr data_mgmt_ptr '
    'data_mgmt_length data_block_ptr file_type data_source machine_type missing_int'
).split()
SOURCES = {
    0: 'model', 1: 'airway_surface', 2: 'metar', 3: 'ship', 4: 'raob_buoy', 5: 'synop_raob_vas',
    6: 'grid', 7: 'watch_by_county', 99: 'unknown', 100: 'text', 102: 'metar2', 103: 'ship2',
    104: 'raob_buoy2', 105: 'synop_raob_vas2',
}
NAVB = (
    'grid_definition_type projection left_grid_number bottom_grid_number right_grid_number '
    'top_grid_number lower_left_lat lower_left_lon upper_right_lat upper_right_lon proj_angle1 '
    'proj_angle2 proj_angle3'
).split()
AREAS = [f'{a}_{c}' for a in ('garea', 'extarea', 'datarea')
         for c in ('llcr_lat', 'llcr_lon', 'urcr_lat', 'urcr_lon')]
AREAS[-1] = 'datarea_urcrn_lon'  # the name the reader gives it
ANLB = {
    1: ['analysis_type', 'delta_n', 'delta_x', 'delta_y', None, *AREAS],
    2: ['analysis_type', 'delta_n', 'grid_ext_left', 'grid_ext_down', 'grid_ext_right',
        'grid_ext_up', *AREAS],
}
MGMT = ['next_free_word', 'max_free_pairs', 'actual_free_pairs', 'last_word',
        *(f'free_word{k}' for k in range(1, 29))]
KINDS = ['grid', 'snd', 'std', 'ship', 'clim']
INTS = [0, 1, -1, 2, 255, 256, -9999, 65535, 16777216, 2147483647, -2147483648]
REALS = [0.0, 1.0, -1.0, 0.1, -9999.0, 1e10, 2.0**-30]
TYPES = ['real', 'integer', 'character', 'realpack', 'grid']
P = [{'name': 'PRES'}, {'name': 'T'}, {'name': 'UW', 'scale': 1, 'offset': -7, 'bits': 5},
     {'name': 'DWPT', 'scale': -2, 'offset': 2147483647, 'bits': 31},
     {'name': 'A1B2', 'scale': -128, 'offset': -2147483648, 'bits': 32}]


def plan(tier):
    t = tier == 'thorough'
    u = [{'u': w, 'kind': k, 'en': en, 't': t} for k in KINDS for en in '<>'
         for w in ('label', 'mgmt', 'parts')]
    u += [{'u': w, 'en': en, 't': t} for en in '<>' for w in ('nav', 'anl', 'grid headers')]
    u += [{'u': 'headers', 'kind': k, 'en': en, 't': t} for k in KINDS[1:] for en in '<>']
    u += [{'u': 'refused', 'en': en} for en in '<>']
    return u


def bounds(tier):
    return {'kinds': KINDS, 'byte orders': 2, 'data sources': '-2 to 300', 'integers': INTS,
            'parts': '1 to 3 of 3 shapes, 1 to 3 parameters each',
            'headers': 'every minute, every hundredth of a degree sampled by units of 97'}


def base(kind, en, parts=None):
    if kind == 'grid':
        g = {'lev': 500, 'pk': gridread.NONE, 'bits': 8, 'v': [1.0] * 12}
        return {'size': [4, 3], 'en': en, 'cols': [g]}
    p = parts or [{'name': 'SNDT' if kind == 'snd' else 'SFDT', 'type': gemref.REAL,
                   'params': [{'name': 'PRES', 'bits': 0}, {'name': 'TMPC'}]}]
    return {'kind': kind, 'en': en, 'times': [0, 1], 'stations': [0, 2], 'parts': p}


def run_unit(unit, rec):
    u, en = unit['u'], unit['en']
    kind = unit.get('kind', 'grid')
    c = {'kind': kind, 'en': en}
    if u == 'label':
        for v in range(-2, 301):
            rec.case({**c, 'label': {'data_source': v}})
        for name in ('machine_type', 'missing_int'):
            for v in INTS:
                rec.case({**c, 'label': {name: v}})
        for v in REALS:
            rec.case({**c, 'label': {'missing_float': v}})
        for p, q in itertools.product((0, 1, 3), repeat=2):
            rec.case({**c, 'gap': p, 'path': q})
    elif u == 'mgmt':
        for k in range(32):
            for v in INTS:
                rec.case({**c, 'mgmt': [k, v]})
    elif u == 'parts':
        if kind == 'grid':
            for h, b in itertools.product(range(8), (0, 8, 16, 31)):
                rec.case({**c, 'hlen': h, 'bits': b})
            return
        shapes = [(n, h) for n in range(1, 4) for h in (0, 1, 3)]
        for n in (1, 2, 3):
            alphabet = shapes if n < 3 or unit['t'] else shapes[::2]
            for combo in itertools.product(alphabet, repeat=n):
                for s in range(3 if n < 3 else 1):
                    rec.case({**c, 'parts': [list(x) for x in combo], 'salt': s})
    elif u == 'nav':
        for a, b in itertools.product(range(1, 8), repeat=2):
            rec.case({**c, 'size': [a, b]})
        for k, name in enumerate(NAVB):
            if name in ('projection', 'right_grid_number', 'top_grid_number'):
                continue
            vals = {'proj_angle1': [90.0, -90.0, 60.25], 'proj_angle3': [0.0, 1.0]}.get(
                name, [0.0, 1.0, -1.5, 33.375, 44.0])
            for v in vals:
                rec.case({**c, 'nav': [k, v]})
    elif u == 'anl':
        for t in (0, 1, 2, 3):
            for k in range(1, 18):
                for v in REALS:
                    rec.case({**c, 'anl': [t, k, v]})
    elif u == 'grid headers':
        for lev in (0, 1, 850, 2147483647, -1):
            for lev2 in (-1, 0, 500):
                rec.case({**c, 'g': {'lev': lev, 'lev2': lev2}})
        for vc in [*gridread.VCS, 'TMPK', 'abcd', 'X1 Z', '    ']:
            rec.case({**c, 'g': {'vc': vc}})
        for parm in ('T', 'TMPK', 'ABCDEFGH', 'ABCDEFGHIJKL', 'A B', 'ABCDE'):
            rec.case({**c, 'g': {'parm': parm}})
        for t2 in ((0, 0), (210131, 0), (131211200, 103000)):
            for t1 in ((210131, 1200), (131211230, 100000), (691231, 300145), (681231, 299959)):
                rec.case({**c, 'g': {'t1': list(t1), 't2': list(t2)}})
    elif u == 'headers':
        for m in range(0, 1440, 1 if unit['t'] else 7):
            rec.case({**c, 'time': m // 60 * 100 + m % 60})
        for d in (690101, 991231, 101, 229, 40229, 240229, 681231, 211130):
            rec.case({**c, 'date': d})
        for key, vals in (('SLAT', range(-9000, 9001, 7 if unit['t'] else 97)),
                          ('SLON', range(-18000, 18001, 7 if unit['t'] else 97)),
                          ('SELV', INTS), ('STNM', INTS)):
            for v in vals:
                rec.case({**c, 'word': [key, v]})
        for key in ('STID', 'STAT', 'COUN', 'STD2'):
            for v in ('', 'A', 'AB', 'ABC', 'ABCD', ' B', '--', '0'):
                rec.case({**c, 'word': [key, v]})
    else:
        for k in range(28):
            for v in (0, 32, 255):
                rec.case({**c, 'byte': [k, v]})
        for k in KINDS[1:]:
            rec.case({'kind': k, 'en': en, 'byte': [0, 0]})
        for w in ('nav', 'anl'):
            for v in (0, 1, 127, 128, 129, 255, 256, 257, -1):
                if v != {'nav': 256, 'anl': 128}[w]:
                    rec.case({**c, 'block': [w, v]})


class Words:
    """A file image addressed by GEMPAK's words (from 1)."""

    def __init__(self, raw, en):
        self.raw, self.en = bytearray(raw), en

    def i(self, at):
        return struct.unpack_from(self.en + 'i', self.raw, 4 * at - 4)[0]

    def f(self, at):
        return struct.unpack_from(self.en + 'f', self.raw, 4 * at - 4)[0]

    def s(self, at):
        return self.raw[4 * at - 4 : 4 * at].decode().strip()

    def set(self, at, v):
        fmt = 'f' if isinstance(v, float) else 'i'
        if isinstance(v, str):
            self.raw[4 * at - 4 : 4 * at] = v.ljust(4).encode()
        else:
            struct.pack_into(self.en + fmt, self.raw, 4 * at - 4, v)

    def label(self, name):
        return self.i(8 + LABEL.index(name))


def image(case):
    kind, en = case['kind'], case['en']
    b = base(kind, en)
    b['gap'] = case.get('gap', 0)
    if kind == 'grid':
        nx, ny = case.get('size', (4, 3))
        b['size'] = [nx, ny]
        b['cols'][0].update(case.get('g', {}), v=[1.0] * (nx * ny))
        b['hlen'] = case.get('hlen', 2)
        raw, _ = gridread.build(b)
    else:
        if 'parts' in case:
            s = case['salt']
            names = ['SNDT' if kind == 'snd' else 'SFDT', 'P2', 'PRT3']
            b['parts'] = [
                {'name': names[k], 'type': gemref.REAL, 'hlen': h,
                 'params': [P[(i + k + s) % len(P)] for i in range(n)]}
                for k, (n, h) in enumerate(case['parts'])]
        raw, _ = stnread.build(b)
    w = Words(raw, en)
    for name, v in case.get('label', {}).items():
        w.set(31 if name == 'missing_float' else 8 + LABEL.index(name), v)
    if 'mgmt' in case:
        w.set(w.label('data_mgmt_ptr') + case['mgmt'][0], case['mgmt'][1])
    if 'bits' in case:
        w.set(w.label('parts_ptr') + 4 + 3, case['bits'])
    nav = w.label('file_keys_ptr') + 6
    if 'nav' in case:
        w.set(nav + 1 + case['nav'][0], case['nav'][1])
    if 'anl' in case:
        t, k, v = case['anl']
        for j in range(18):
            w.set(nav + 258 + j, 100.5 + j)
        w.set(nav + 258, float(t))
        w.set(nav + 258 + k, v)
    if 'block' in case:
        w.set(nav if case['block'][0] == 'nav' else nav + 257, case['block'][1])
    keys = [('row', n) for n in range(w.label('row_keys'))]
    keys += [('column', n) for n in range(w.label('column_keys'))]
    for want, v in ([('TIME', case['time'])] if 'time' in case else []) + (
            [('DATE', case['date'])] if 'date' in case else []) + (
            [case['word']] if 'word' in case else []):
        for side, n in keys:
            if w.s(w.label(f'{side}_keys_ptr') + n) == want:  # of the first entry
                w.set(w.label(f'{side}_headers_ptr') + 1 + n, v)
    if 'byte' in case:
        w.raw[case['byte'][0]] = case['byte'][1]
    return w


def fields(got, want, what):
    for k, v in want.items():
        x = getattr(got, k)
        expect(x == v, lambda: f'{what} {k}: {x!r}, in the file {v!r}')  # noqa: B023


def grid_word(w, at, key):
    if key in ('GLV1', 'GLV2'):
        return w.i(at) if w.i(at) >= 0 else None
    if key == 'GVCD':
        v = w.i(at)
        if 0 <= v < len(gridread.VCS):
            return gridread.VCS[v]
        return struct.pack(w.en + 'i', v).decode()
    if key in ('GPM1', 'GPM2', 'GPM3'):
        return w.raw[4 * at - 4 : 4 * at].decode().rstrip()
    return None  # the meaning of times belongs to G05


def station_word(w, at, key):
    if key in ('STID', 'STAT', 'COUN', 'STD2'):
        return w.s(at)
    v = w.i(at)
    if key in ('SLAT', 'SLON'):
        return v / 100
    if key == 'TIME':
        return time(v // 100, v % 100)
    if key == 'DATE':
        y, m, d = v // 10000, v // 100 % 100, v % 100
        return date(y + (1900 if y > 68 else 2000), m, d)
    return v


def run_case(case, rec):
    from gempakio import GempakGrid, GempakSounding, GempakSurface

    kind = case['kind']
    cls = {'grid': GempakGrid, 'snd': GempakSounding}.get(kind, GempakSurface)
    w = image(case)
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(w.raw)
    rec.step()
    source = [str(path), Path(path), str(path), Path(path)][case.get('path', 0)]
    refused = 'block' in case or ('byte' in case and case['byte'][1] != 32) or (
        'byte' in case and w.raw[:28] != gemref.HEADER)
    if refused:
        try:
            cls(source)
        except (TypeError, ValueError):
            rec.outcome('refused')
        else:
            expect(False, 'a file that is not a GEMPAK file of this layout was opened')
        return
    g = cls(source)
    rec.state(case)
    rec.outcome(f'{kind}: {"/".join(sorted(set(case) - {"kind", "en"}))}')

    want = {n: w.label(n) for n in LABEL if n not in ('data_source', 'file_type')}
    want['missing_float'] = w.f(31)
    fields(g.dm_label, want, 'label')
    t = getattr(g.dm_label.file_type, 'name', g.dm_label.file_type)
    expect(t == {'grid': 'grid', 'snd': 'sounding'}.get(kind, 'surface'), lambda: f'type {t}')
    s, have = w.label('data_source'), g.dm_label.data_source
    expect(have.name == SOURCES.get(s, 'unknown') and (s not in SOURCES or int(have) == s),
           lambda: f'data source {s} reported as {have!r}')
    at = w.label('data_mgmt_ptr')
    fields(g.data_management, {n: w.i(at + k) for k, n in enumerate(MGMT)}, 'data management')

    keys = {}
    for side in ('row', 'column'):
        p = w.label(f'{side}_keys_ptr')
        keys[side] = [w.s(p + k) for k in range(w.label(f'{side}_keys'))]
        k = list(getattr(g, f'{side}_keys'))
        expect(k == keys[side], lambda: f'{side} keys {k}, in the file {keys}')  # noqa: B023
    n, p = w.label('parts'), w.label('parts_ptr')
    expect(len(g.parts) == n and len(g.parameters) == n, lambda: f'{len(g.parts)} parts of {n}')
    counts = [w.i(p + 3 * n + k) for k in range(n)]
    total, first = sum(counts), 0
    for k, (part, prm) in enumerate(zip(g.parts, g.parameters, strict=True)):
        fields(part, {'name': w.s(p + k), 'header_length': w.i(p + n + k),
                      'parameter_count': counts[k]}, f'part {k}')
        t = getattr(part.data_type, 'name', part.data_type)
        expect(t == TYPES[w.i(p + 2 * n + k) - 1], lambda: f'part {k}: type {t}')  # noqa: B023
        q = p + 4 * n + first
        ref = {'name': [w.s(q + j) for j in range(counts[k])]}
        for m, name in enumerate(('scale', 'offset', 'bits'), 1):
            ref[name] = [w.i(q + m * total + j) for j in range(counts[k])]
        for name, v in ref.items():
            expect(list(prm[name]) == v,
                   lambda: f'part {k}: {name} {prm[name]}, in the file {v}')  # noqa: B023
        first += counts[k]

    for side in ('row', 'column'):
        p = w.label(f'{side}_headers_ptr')
        heads = getattr(g, f'{side}_headers')
        count = w.label(f'{side}s' if side == 'column' else 'rows')
        expect(len(heads) == count, lambda: f'{len(heads)} {side} headers')  # noqa: B023
        for k, head in enumerate(heads):
            expect(list(head._fields) == keys[side], lambda: f'{side} header {head}')  # noqa: B023
            for j, key in enumerate(keys[side]):
                at = p + k * (len(keys[side]) + 1) + 1 + j
                if kind == 'grid':
                    if key[:2] in ('GD', 'GT'):
                        continue
                    v = w.i(at) if side == 'row' else grid_word(w, at, key)
                else:
                    v = station_word(w, at, key)
                x = getattr(head, key)
                if isinstance(x, str):
                    x, v = x.strip(), v.strip()
                expect(x == v,
                       lambda: f'{side} header {k}: {key} {x!r}, in the file {v!r}')  # noqa: B023
    if kind == 'snd':
        expect(g.merged, 'not reported as merged')
    elif kind != 'grid':
        name = {'std': 'standard', 'clim': 'climate'}.get(kind, kind)
        expect(g.surface_type == name, lambda: f'surface type {g.surface_type}')
    if kind != 'grid':
        expect(g.navigation_block is None and g.analysis_block is None,
               'navigation of a station file')
        return
    nav = w.label('file_keys_ptr') + 7
    want = {m: w.s(nav + k) if m == 'projection' else w.f(nav + k) for k, m in enumerate(NAVB)}
    got = {m: getattr(g.navigation_block, m) for m in NAVB}
    got['projection'] = got['projection'].strip()
    expect(got == want, lambda: f'navigation {got}, in the file {want}')
    expect((g.kx, g.ky) == (w.f(nav + 4), w.f(nav + 5)), lambda: f'size {g.kx} x {g.ky}')
    anl = nav + 257
    names = ANLB.get(w.f(anl))
    if names is None:
        expect(g.analysis_block is None, lambda: f'analysis {g.analysis_block}')
    else:
        fields(g.analysis_block, {m: w.f(anl + k) for k, m in enumerate(names) if m}, 'analysis')
