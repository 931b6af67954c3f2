"""V03: every VGF element type and version decodes to the values stored in its record."""

import itertools

from mc import core
from mc import vgfref as R
from mc.core import Violation, expect

PROPERTY = 'V03'
LEVEL = 'model_checking'
RULE = (
    'A case is a VGF file assembled record by record by the reference layout model (or shipped '
    'with the repository, written by GEMPAK) and read by VectorGraphicFile; every attribute of '
    'every element is compared with what was stored. Non-trivial: distinct file.'
)

INTS = [0, 1, -1, 9, 255, 256, 16909060, 2147483647, -2147483648]
FLOATS = [0.0, 0.5, -0.5, 12.34, -179.99, 359.5, 100000.0, -9999.0]
POOLS = {
    'ww_level': [0, 1, 2, 3], 'basin': ['0', '1', '2', '3'],
    'storm_type': ['0', '1', '2', '3', '4'],
    'valid_time': ['040914/2105', '690101/0000', '681231/2359', '000229/0600', '240617/0000'],
    'marker_type': list(range(25)),
    'skip': [-3, -2, -1, 0, 1, 2, 3, 4], 'front_code': list(range(1000)),
}
LINE_TYPES = {'line': range(100), 'circle': range(100), 'special_line': range(1, 27)}
SMALL = ['front', 'line', 'special_line', 'circle', 'text', 'special_text', 'symbol_marker',
         'wind_barb', 'tc_error', 'tc_break', 'tca', 'sigmet_conv', 'gfa', 'watch1', 'track2',
         'ccf']
# SIGMET status: see known_findings.txt; sample tests pin the wrong value.
STATUS_KEY = 'sigmet-status'


def pool(kind, name, fmt, nd):
    """Values to try for one field."""
    if name in ('list_type',):
        return list(range(1, 6))
    if name == 'line_type' and kind in LINE_TYPES:
        return list(LINE_TYPES[kind])
    if name in POOLS:
        return POOLS[name]
    if name == 'font' and kind.startswith('track'):
        return [0, 1, 2, 22, 33]
    if name in ('font', 'text_flag', 'width') and kind == 'ccf':
        return [0, 1, 2, 33, 127]
    if fmt in ('n', 'c', 'b'):
        return []
    if fmt.endswith('s'):
        n = int(fmt[:-1])
        full = ''.join('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'[i % 36] for i in range(n))
        return ['', 'Z', full[: n - 1], full, (' a b' + full)[: n - 1], full[: max(1, n - 2)] + ' ']
    if fmt == 'fi':
        return [0, 1, 2, 41, 999]
    if fmt.lstrip('<') == 'f':
        more = [0.714, 1.286, 2.429] if nd and nd[0] >= 3 else []
        return [round(x, nd[0] if nd and nd[0] < 3 else 2) for x in FLOATS] + more
    return INTS


def plan(tier):
    t = tier == 'thorough'
    units = [{'u': 'fields', 'kind': k} for k in R.KINDS if R.KINDS[k][3] is not None]
    units += [{'u': 'subfields', 'sub': s} for s in ('line', 'barbs', 'hashes', 'tc_track',
                                                     'tc_break', 'tca')]
    units += [{'u': 'points', 'kind': k, 't': t} for k in R.KINDS]
    units += [{'u': 'counts', 'what': w} for w in ('jet', 'gfa', 'tca', 'watch')]
    units += [{'u': 'text', 'kind': k} for k in ('text', 'justified_text', 'special_text')]
    units += [{'u': 'pairs', 'a': k} for k in R.KINDS]
    names = SMALL if not t else list(R.KINDS)[::2] + SMALL
    names = list(dict.fromkeys(names))
    units += [{'u': 'triples', 'a': a, 'names': names} for a in names]
    units += [{'u': 'unsupported'}, {'u': 'header'}]
    d = core.REPO / 'tests' / 'data'
    units += [{'u': 'sample', 'file': f.name} for f in sorted(d.glob('*.vgf'))]
    return units


def bounds(tier):
    return {
        'element kinds (type x version)': len(R.KINDS),
        'field values': 'every field alone over its boundary pool, others pairwise distinct',
        'sequences': 'all ordered pairs of kinds; all triples of '
                     + ('every second kind and the small ones' if tier == 'thorough'
                        else f'{len(SMALL)} kinds'),
    }


def run_unit(unit, rec):
    u = unit['u']
    if u == 'fields':
        kind = unit['kind']
        fields = R.KINDS[kind][3]
        for name, fmt, *nd in fields:
            if name is None:
                continue
            for x in pool(kind, name, fmt, nd):
                rec.case({'els': [[kind, {name: x}, {}]]})
    elif u == 'subfields':
        sub = unit['sub']
        table = {'line': R.JET_LINE, 'barbs': R.JET_BARB, 'hashes': R.JET_HASH,
                 'tc_track': R.TC_POINT, 'tc_break': R.BREAK_POINT}.get(sub)
        if sub == 'tca':
            for name, vals in [
                ('storm_number', [1, 12, 99]), ('issue_status', ['O', 'T', 'E']),
                ('basin', [0, 1, 2, 3]), ('advisory_number', [1, 101]),
                ('storm_name', ['A', 'Suss', 'Two Words']), ('storm_type', [0, 1, 2, 3, 4]),
                ('valid_time', ['240617/0000']), ('timezone', ['EDT', 'Z']),
                ('text_lat', [0.0, -12.5, 25.799999]), ('text_lon', [0.0, -80.400002, 179.5]),
                ('text_font', [1, 33]), ('text_size', [1.0, 0.714]), ('text_width', [1, 10]),
            ]:
                for x in vals:
                    rec.case({'els': [['tca', {name: x}, {}]]})
            return
        for name, fmt, *nd in table:
            if name is None:
                continue
            for x in pool('', name, fmt, nd):
                rec.case({'sub': [sub, name, x]})
    elif u == 'points':
        kind = unit['kind']
        tail = R.KINDS[kind][4]
        if tail in ('', 'text', 'tca'):
            return
        mx = {'track': 50}.get(tail, 500)
        if tail.startswith('padded'):
            mx = int(tail.split(':')[1])
        if tail == 'tc_track' or tail == 'tc_break':
            mx = 30
        if tail == 'watch':
            mx = 8 if not unit['t'] else 40
        ns = range(1, mx + 1) if unit['t'] or mx <= 50 else sorted(
            {*range(1, 24), *range(mx - 2, mx + 1), 49, 50, 51, 99, 100, 101, 127, 128, 129,
             255, 256} & set(range(1, mx + 1)))
        hs = [{}]
        if kind in R.CLOSES:
            hs = [{'closed': 0}, {'closed': 1}]
        for n in ns:
            for h in hs:
                for d in ([1, -1, 0] if kind == 'special_line' else [None]):
                    rec.case({'els': [[kind, {} if d is None else {'direction': d}, h, n]]})
    elif u == 'counts':
        w = unit['what']
        if w == 'jet':
            for b, h in itertools.product((0, 1, 2, 3, 49, 50), repeat=2):
                rec.case({'els': [['jet', {'b': b, 'h': h}, {}, 2]]})
        elif w == 'gfa':
            for b in (0, 1, 2, 3, 4, 9):
                for n in (1, 2, 5):
                    rec.case({'els': [['gfa', {}, {}, n, b]]})
        elif w == 'tca':
            for m in range(1, 6):
                for shape in itertools.product((1, 2, 3), repeat=m):
                    rec.case({'els': [['tca', {'shape': list(shape)}, {}]]})
            for s, a, g in itertools.product((0, 1), (0, 1), (0, 1, 2)):
                rec.case({'els': [['tca', {'ww1': [s, a, g]}, {}]]})
        else:
            for ver in R.COUNTY_MAX:
                for m in (0, 1, 2, 7, R.COUNTY_MAX[ver] - 1, R.COUNTY_MAX[ver]):
                    for n in (2, 8):
                        rec.case({'els': [[f'watch{ver}', {}, {}, n, m]]})
    elif u == 'text':
        for s in ['', ' ', 'a', 'line1$$line2', '$$x$$', 'two  words', ' pad ', 'a\nb', '$',
                  '$$$', 'x' * 254, 'tab\tin', '<tag>', 'é', 'naïve', '中', 'a$$$$b']:
            rec.case({'els': [[unit['kind'], {'text': s}, {}]]})
    elif u == 'pairs':
        for b in R.KINDS:
            rec.case({'seq': [unit['a'], b]})
    elif u == 'triples':
        for b, c in itertools.product(unit['names'], repeat=2):
            rec.case({'seq': [unit['a'], b, c]})
    elif u == 'unsupported':
        known = {(c, t) for c, t, *_ in R.KINDS.values()}
        for c in range(17):
            for t in range(1, 44):
                # classes whose elements are decoded whatever their type are not skipped
                if c in (1, 2, 4, 6, 10, 14) or (c, t) in known or t not in VGTYPES:
                    continue
                if (c, t) == (0, 22):
                    continue
                for n in (0, 1, 4, 39, 100):
                    rec.case({'skip': [c, t, n]})
    elif u == 'header':
        for name, vals in [
            ('delete', [0, 1]), ('filled', [-1, 0, 1, 8, 127]), ('smooth', [0, 1, 2]),
            ('closed', [0, 1]), ('version', [0, 1, 5]), ('group_type', [0, 1, 8, 127, 128, 255]),
            ('group_number', [0, 1, 255, 65536, 2147483647, -1]),
            ('major_color', range(33)), ('minor_color', range(33)),
            *[(f'{m}_{x}', [0.0, -0.25, 89.99, -179.99, 180.0])
              for m in ('min', 'max') for x in ('lat', 'lon')],
        ]:
            for x in vals:
                for kind in ('line', 'symbol_marker', 'text', 'wind_barb', 'front'):
                    rec.case({'els': [[kind, {}, {name: x}, 3]]})
    elif u == 'sample':
        rec.case({'sample': unit['file']})


VGTYPES = {*range(1, 3), *range(4, 44)}


def make(el):
    """(kind, values, header) of a case's element."""
    kind, over, hdr = el[0], dict(el[1]), el[2]
    n = el[3] if len(el) > 3 else 3
    m = el[4] if len(el) > 4 else 2
    if kind == 'jet' and 'b' in over:
        v = R.default('jet', n, 0, 2)
        v['barbs'] = [R.default_fields(R.JET_BARB, i) for i in range(over.pop('b'))]
        v['hashes'] = [R.default_fields(R.JET_HASH, i + 3) for i in range(over.pop('h'))]
    elif kind == 'tca' and 'shape' in over:
        v = R.default('tca')
        v['ww'] = [
            (k % 2, (k // 2) % 2, k % 3,
             [(20.5 + j + k, -90.25 - j, f'PT{k}_{j}') for j in range(c)])
            for k, c in enumerate(over.pop('shape'))
        ]
    elif kind == 'tca' and 'ww1' in over:
        v = R.default('tca')
        v['ww'] = [(*over.pop('ww1'), [(1.5, -2.5, 'A_B')])]
    else:
        v = R.default(kind, n, 0, m)
    v.update(over)
    return kind, v, hdr


def read(rec, data):
    from gempakio.decode.vgf import VectorGraphicFile

    p = rec.path('a.vgf')
    with open(p, 'wb') as f:
        f.write(data)
    rec.step()
    return VectorGraphicFile(p)


def check(rec, els):
    """Read the elements in one file and compare them all."""
    from mc.core import digest

    data = R.file_header() + b''.join(R.build(k, v, **h) for k, v, h in els)
    f = read(rec, data)
    got = list(f.elements)
    expect(len(got) == len(els),
           lambda: f'{len(els)} elements stored, {len(got)} read: {[str(g) for g in got]}')
    status = None
    for (k, v, h), g in zip(els, got, strict=True):
        want = R.expected(k, v, **h)
        for name in R.HEADER_NAMES:
            if name in h:
                want[name] = ('~', h[name], 2) if name[:3] in ('min', 'max') and \
                    name[3] == '_' else h[name]
        bad = R.mismatches(g, want)
        if k.startswith('sigmet') and bad and bad[0].startswith('status=') and (
            g.status == g.area and R.same(g.area, want['area'])
        ):
            status = bad.pop(0)
        expect(not bad, lambda: f'{k}: ' + '; '.join(bad)[:600])  # noqa: B023
    rec.state(digest([[k, {a: str(b) for a, b in v.items()}, h] for k, v, h in els]))
    if status:
        raise Violation(f'SIGMET {status}', STATUS_KEY)


def run_case(case, rec):
    if 'els' in case:
        els = [make(e) for e in case['els']]
        tail = ('line', R.default('line', 2, 5), {})
        rec.outcome(els[0][0])
        check(rec, [*els, tail])
    elif 'sub' in case:
        sub, name, x = case['sub']
        if sub in ('tc_track', 'tc_break'):
            v = R.default(sub, 3)
            v['track_points' if sub == 'tc_track' else 'breakpoints'][1][name] = x
            kind = sub
        else:
            v = R.default('jet', 3, 0, 3)
            kind = 'jet'
            (v['line'] if sub == 'line' else v[sub][1])[name] = x
        rec.outcome('sub-' + sub)
        check(rec, [(kind, v, {}), ('line', R.default('line', 2, 5), {})])
    elif 'seq' in case:
        rec.outcome(f'seq{len(case["seq"])}')
        check(rec, [(k, R.default(k, 2 + i, i), {}) for i, k in enumerate(case['seq'])])
    elif 'skip' in case:
        c, t, n = case['skip']
        rec.outcome('skipped')
        a, b = R.default('line', 2, 1), R.default('line', 3, 2)
        data = R.file_header() + R.build('line', a) + R.raw(c, t, b'\x01' * n)
        data += R.build('line', b)
        f = read(rec, data)
        lines = [e for e in f.elements if (e.vg_class, e.vg_type) == (3, 1)]
        expect(len(lines) == 2, lambda: f'{len(lines)} of the 2 lines around it were read')
        for e, v in zip(lines, (a, b), strict=True):
            bad = R.mismatches(e, R.expected('line', v))
            expect(not bad, lambda: f'line next to a skipped record: {bad}')  # noqa: B023
        rec.state(f'skip{c}/{t}/{n}')
    elif 'sample' in case:
        d = (core.REPO / 'tests' / 'data' / case['sample']).read_bytes()
        f = read(rec, d)
        recs = [(h, b) for h, b in R.parse(d) if h['vg_class'] != 0]
        expect(len(recs) == len(f.elements),
               lambda: f'{len(recs)} records, {len(f.elements)} elements')
        n = 0
        status = None
        for (h, body), e in zip(recs, f.elements, strict=True):
            for k in R.HEADER_NAMES:
                w = h[k] if k[:4] not in ('min_', 'max_') else ('~', h[k], 2)
                expect(R.same(getattr(e, k), w), lambda: f'{k}: {getattr(e, k)} for {w}')  # noqa: B023
            kind = R.kind_of(h)
            if kind is None:
                continue
            v = R.unpack(kind, body)
            want = R.expected(kind, v, **h)
            bad = R.mismatches(e, want)
            if kind.startswith('sigmet') and bad and bad[0].startswith('status=') and \
                    e.status == e.area and R.same(e.area, want['area']):
                status = bad.pop(0)
            expect(not bad, lambda: f'{kind}: {bad}')  # noqa: B023
            n += 1
        rec.step(n)
        rec.outcome('sample')
        rec.state(case['sample'])
        if status:
            raise Violation(f'SIGMET {status}', STATUS_KEY)
