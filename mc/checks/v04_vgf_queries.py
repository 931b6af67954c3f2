"""V04: filters, groups, bounds, JSON and the has_/get_ pairs of a VGF file."""

import itertools
import json

import numpy as np

from mc import vgfref as R
from mc.core import expect

PROPERTY = 'V04'
LEVEL = 'model_checking'
RULE = (
    'A case is a VGF file assembled from a sequence of elements by the reference layout model, '
    'and one family of queries; every answer is compared with a direct evaluation of the '
    "query's definition over the stored elements, by identity. Non-trivial: distinct case."
)
KINDS = list(R.KINDS)
# Kinds with distinct classes and types, small records, for longer sequences.
MIX = ['front', 'line', 'special_line', 'circle', 'text', 'justified_text', 'special_text',
       'symbol_special', 'symbol_marker', 'symbol_weather', 'wind_barb', 'wind_hash', 'track2',
       'watch1', 'sigmet_conv', 'gfa', 'tca', 'list']
PAIRS = {  # name -> (class, type or None)
    'fronts': (1, None), 'text': (5, 17), 'special_text': (5, 21), 'symbols': (4, None),
    'special_symbols': (4, 15), 'markers': (4, 19), 'special_lines': (3, 20), 'lines': (3, 1),
    'winds': (6, None), 'tracks': (10, None), 'watch_box': (2, None), 'sigmet': (11, None),
    'met': (15, None),
}
GROUPS = [(0, 0), (0, 3), (1, 0), (1, 2), (8, 2), (8, 1), (255, 70000), (40, -1)]
EDGES = [-180.0, -90.25, -1.0, 0.0, 1.0, 45.5, 179.99]
VGTYPES = [*range(1, 3), *range(4, 44), 3, 99]


def plan(tier):
    t = tier == 'thorough'
    units = [{'u': 'filters', 'a': k} for k in KINDS]
    units += [{'u': 'filters3', 'a': k, 'n': len(MIX) if t else 9} for k in MIX]
    units += [{'u': 'groups', 'a': i, 'n': 5 if t else 4} for i in range(len(GROUPS))]
    units += [{'u': 'bounds', 'a': a, 't': t} for a in EDGES]
    units += [{'u': 'shape', 'k': k, 't': t} for k in KINDS]
    units += [{'u': 'json', 'k': k} for k in KINDS]
    units += [{'u': 'coords'}, {'u': 'empty'}, {'u': 'header'}]
    return units


def bounds(tier):
    t = tier == 'thorough'
    return {
        'filters': 'every class x type x operation on every file of one or two elements of '
                   f'{len(KINDS)} kinds, and of three of {len(MIX)} kinds'
                   + ('' if t else ' (third of 9)'),
        'groups': f'all sequences of up to {5 if t else 4} elements over {len(GROUPS)} groups',
        'bounds': f'all boxes over {len(EDGES)} edge values in files of up to two elements',
        'json': 'every kind alone and in all pairs with every 5th',
    }


def run_unit(unit, rec):
    u = unit['u']
    if u == 'filters':
        rec.case({'f': [unit['a']]})
        for b in KINDS:
            rec.case({'f': [unit['a'], b]})
    elif u == 'filters3':
        for b, c in itertools.product(MIX, MIX[: unit['n']]):
            rec.case({'f': [unit['a'], b, c]})
    elif u == 'groups':
        for n in range(1, unit['n'] + 1):
            for rest in itertools.product(range(len(GROUPS)), repeat=n - 1):
                rec.case({'g': [unit['a'], *rest]})
    elif u == 'bounds':
        a = unit['a']
        for b, c, d in itertools.product(EDGES, repeat=3):
            rec.case({'b': [[a, b, c, d]]})
            if unit['t'] or (b, d) in ((0.0, 0.0), (-90.25, 45.5), (1.0, -1.0)):
                for e in ([0.0, 0.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [2.5, 3.5, 4.5, 5.5],
                          [0.0, 0.0, 0.0, 1.0], [-50.0, -170.0, -40.0, -160.0]):
                    rec.case({'b': [[a, b, c, d], e]})
                    rec.case({'b': [e, [a, b, c, d]]})
    elif u == 'shape':
        for n in (1, 2, 3, 7):
            for s in range(8 if unit['t'] else 4):
                rec.case({'s': unit['k'], 'n': n, 'spin': s})
    elif u == 'json':
        rec.case({'j': [unit['k']]})
        for b in KINDS[::5]:
            rec.case({'j': [unit['k'], b]})
    elif u == 'coords':
        for n in range(1, 7):
            for how in ('list', 'array', 'f4', 'mixed', 'tuple'):
                rec.case({'c': n, 'how': how})
    elif u == 'empty':
        rec.case({'f': []})
        rec.case({'g': []})
        rec.case({'j': []})
        rec.case({'b': []})
    elif u == 'header':
        for v in ('', 'Version 7.19.0', 'V' * 127, 'W' * 128, ' padded '):
            for n in ('', 'NAWIPS Vector Graphic Format', 'N' * 255, 'M' * 256, ' x '):
                rec.case({'h': [v, n]})


def read(rec, els, hdr=()):
    """Write the elements [(kind, values, header)] and read the file."""
    from gempakio.decode.vgf import VectorGraphicFile

    p = rec.path('a.vgf')
    with open(p, 'wb') as f:
        f.write(R.file_header(*hdr) + b''.join(R.build(k, v, **h) for k, v, h in els))
    rec.step()
    f = VectorGraphicFile(p)
    expect(len(f.elements) == len(els), lambda: f'{len(f.elements)} of {len(els)} elements')
    return f


def ids(seq):
    """Identities, or None."""
    return None if seq is None else [id(e) for e in seq]


def run_case(case, rec):
    if 'f' in case:
        filters(case['f'], rec)
    elif 'g' in case:
        groups([GROUPS[i] for i in case['g']], rec)
    elif 'b' in case:
        boxes(case['b'], rec)
    elif 's' in case:
        shape(case, rec)
    elif 'j' in case:
        to_json(case['j'], rec)
    elif 'c' in case:
        coords(case, rec)
    else:
        v, n = case['h']
        f = read(rec, [], (v, n))
        expect(f.header.gempak_version == v.strip() and f.header.notes == n.strip(),
               lambda: f'header {f.header.gempak_version!r}, {f.header.notes!r}')
        rec.outcome('header')
        rec.state(f'{v}/{n}')


def filters(kinds, rec):
    els = [(k, R.default(k, 2 + i, i), {}) for i, k in enumerate(kinds)]
    f = read(rec, els)
    es = list(f.elements)
    meta = [R.KINDS[k][:2] for k in kinds]

    def pick(pred):
        out = [id(e) for e, m in zip(es, meta, strict=True) if pred(*m)]
        return out or None

    classes = [None, *range(17), 99]
    n = 0
    for c, t, op in itertools.product(classes, [None, *VGTYPES], ('and', 'or')):
        if c is None and t is None:
            continue
        if c is None:
            want = pick(lambda _a, b: b == t)  # noqa: B023
        elif t is None:
            want = pick(lambda a, _b: a == c)  # noqa: B023
        elif op == 'and':
            want = pick(lambda a, b: a == c and b == t)  # noqa: B023
        else:
            want = pick(lambda a, b: a == c or b == t)  # noqa: B023
        got = ids(f.filter_elements(vg_class=c, vg_type=t, operation=op))
        n += 1
        expect(got == want,
               lambda: f'filter class={c} type={t} {op}: {places(es, got)}, '  # noqa: B023
                       f'not {places(es, want)}')  # noqa: B023
    for op in ('xor', '', 'AND', None):
        try:
            f.filter_elements(vg_class=1, operation=op)
        except ValueError:
            continue
        expect(False, f'operation {op!r} accepted')
    for name, (c, t) in PAIRS.items():
        want = pick(lambda a, b: a == c and t in (None, b))  # noqa: B023
        has = getattr(f, f'has_{name}')
        got = ids(getattr(f, f'get_{name}')())
        expect(has is (want is not None), lambda: f'has_{name} is {has}')  # noqa: B023
        expect(got == want, lambda: f'get_{name}: {places(es, got)}, not {places(es, want)}')  # noqa: B023
    expect([id(e) for e in f.elements] == [id(e) for e in es], 'a query changed the elements')
    rec.step(n)
    rec.outcome(f'filters{len(kinds)}')
    rec.state('/'.join(kinds))


def places(es, got):
    """Positions of elements, for messages."""
    at = {id(e): i for i, e in enumerate(es)}
    return None if got is None else [at.get(x, '?') for x in got]


def groups(gs, rec):
    ks = ['line', 'special_text', 'symbol_marker', 'front', 'line']
    els = [(ks[i], R.default(ks[i], 2, i), {'group_type': t, 'group_number': n})
           for i, (t, n) in enumerate(gs)]
    f = read(rec, els)
    es = list(f.elements)
    want = list(dict.fromkeys(t for t, _n in gs if t))
    expect(list(f.groups) == want, lambda: f'groups {f.groups}, not {want}')
    for t in {*(t for t, _n in gs), 77}:
        got = f.get_group(t)
        nums = sorted({n for a, n in gs if a == t})
        if not nums:
            expect(not got, lambda: f'group {t} is {got}')  # noqa: B023
            continue
        expect([g.group_number for g in got] == nums, lambda: f'numbers of group {t}')  # noqa: B023
        for g in got:
            w = [id(es[i]) for i, m in enumerate(gs) if m == (t, g.group_number)]
            expect(ids(g) == w and ids(g.elements) == w and g.group_size == len(w)
                   and g.group_type == t, lambda: f'members of group {t}/{g.group_number}')  # noqa: B023
            # A group takes no element of another one
            for e, m in zip(es, gs, strict=True):
                own = m == (t, g.group_number)
                try:
                    g.add_element(e)
                    w.append(id(e))
                except ValueError:
                    expect(not own, lambda: f'{m} refused by group {t}')  # noqa: B023
                else:
                    expect(own, lambda: f'{m} added to group {t}/{g.group_number}')  # noqa: B023
                expect(ids(g) == w and g.group_size == len(w) and g.group_type == t,
                       lambda: f'members of group {t}/{g.group_number} after additions')  # noqa: B023
    expect([id(e) for e in f.elements] == [id(e) for e in es], 'a query changed the elements')
    rec.outcome(f'groups{len(gs)}')
    rec.state(f'g{gs}')


def boxes(bs, rec):
    els = [('line', R.default('line', 2, i),
            dict(zip(('min_lat', 'min_lon', 'max_lat', 'max_lon'), b, strict=True)))
           for i, b in enumerate(bs)]
    f = read(rec, els)
    on = [b for b in bs if any(b)]
    rec.outcome(f'boxes{len(on)}')
    if not on:
        return
    want = (min(b[0] for b in on), min(b[1] for b in on), max(b[2] for b in on),
            max(b[3] for b in on))
    got = f.bounds
    expect(all(abs(x - y) <= 0.0051 for x, y in zip(got, want, strict=True)),
           lambda: f'bounds {got}, not {want}')
    rec.state(f'b{bs}')


def shape(case, rec):
    """Bounds of one element from its own coordinates."""
    k, n, s = case['s'], case['n'], case['spin']
    v = R.default(k, n, 1)
    if 'lat_' in v:
        # every place of the extremes: rotate a zigzag
        la = [10.5 * (-1) ** i * (i + 1) % 90 - 30 for i in range(n)]
        lo = [25.25 * (-1) ** (i + 1) * (i + 1) for i in range(n)]
        v['lat_'] = la[s % n :] + la[: s % n]
        v['lon_'] = lo[(2 * s) % n :] + lo[: (2 * s) % n]
    f = read(rec, [(k, v, {})])
    e = f.elements[0]
    rec.state(f's{case}')
    own = 'lat_' in v and hasattr(e, 'lat') and k != 'sgwx'
    try:
        got = e.bounds
    except NotImplementedError:
        # sgwx keeps its area apart; others without several points have no bounds
        expect(not own or len(v['lat_']) < 2, f'{k} with {n} points has no bounds')
        rec.outcome('no bounds')
        return
    expect(own and len(v['lat_']) > 1, lambda: f'{k} has bounds {got}')
    want = (min(v['lat_']), min(v['lon_']), max(v['lat_']), max(v['lon_']))
    expect(all(abs(float(x) - y) <= 0.0051 for x, y in zip(got, want, strict=True)),
           lambda: f'{k} bounds {got}, not {want}')
    rec.outcome('bounds')


def jsonable(x):
    """What json.loads must give for an attribute, independent of the encoder."""
    if isinstance(x, np.ndarray):
        return [float(i) for i in x]
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(i) for k, i in x.items()}
    if hasattr(x, 'isoformat'):
        return x.isoformat()
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return jsonable(vars(x))


def alike(a, b):
    """Equal up to the two decimals coordinates are reported with."""
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(
            alike(x, y) for x, y in zip(a, b, strict=True))
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        return isinstance(a, (int, float)) and abs(a - b) <= 0.0051 + 1e-6 * abs(b)
    return a == b


def to_json(kinds, rec):
    from gempakio.decode.vgf import NumpyEncoder

    class Mine(NumpyEncoder):
        def default(self, obj):
            return super().default(obj)

    f = read(rec, [(k, R.default(k, 3, i), {}) for i, k in enumerate(kinds)])
    want = [jsonable(vars(e)) for e in f.elements]
    for kw in ({}, {'indent': 2}, {'sort_keys': True}, {'cls': Mine}, {'cls': NumpyEncoder}):
        text = f.to_json(**kw)
        got = json.loads(text)
        expect(isinstance(got, list) and len(got) == len(want),
               lambda: f'JSON of {kinds} has {len(got)} entries')  # noqa: B023
        for g, w, k in zip(got, want, kinds, strict=True):
            expect(g.keys() == w.keys(), lambda: f'JSON of {k}: {set(g) ^ set(w)}')  # noqa: B023
            for a in w:
                expect(alike(g[a], w[a]), lambda: f'JSON of {k}: {a}={g[a]!r}, not {w[a]!r}')  # noqa: B023
    rec.outcome('json')
    rec.state('j' + '/'.join(kinds))


def coords(case, rec):
    from gempakio.decode.vgf import VectorGraphicFile as F

    n, how = case['c'], case['how']
    a, b = [1.5 * i for i in range(n)], [-2.25 * i + 1 for i in range(n)]
    x, y = list(a), list(b)
    if how == 'array':
        x, y = np.array(a), np.array(b)
    elif how == 'f4':
        x, y = np.array(a, 'f4'), np.array(b, '>f4')
    elif how == 'mixed':
        x = np.array(a)
    elif how == 'tuple':
        x, y = tuple(a), tuple(b)
    rec.outcome(how)
    for name, wa, wb in [('close', a + a[:1], b + b[:1]), ('flip', a[::-1], b[::-1])]:
        fn = getattr(F, f'{name}_coordinates')
        try:
            gx, gy = fn(x, y)
        except TypeError:
            expect(how in ('mixed', 'tuple'), f'{name}_coordinates refused {how}s')
            continue
        expect([float(i) for i in gx] == wa and [float(i) for i in gy] == wb,
               f'{name}_coordinates of {how}: {gx}, {gy}')
        expect([float(i) for i in x] == a and [float(i) for i in y] == b,
               f'{name}_coordinates changed its arguments')
    rec.state(f'c{case}')
