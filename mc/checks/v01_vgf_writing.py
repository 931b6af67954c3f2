"""V01: histories of VGF elements built, changed, added and written, read back."""

import itertools

import numpy as np

from mc import vgfref as R
from mc import vgfwrite as W
from mc.core import digest, expect

PROPERTY = 'V01'
LEVEL = 'model_checking'
RULE = (
    'A case is a history of element constructions, assignments, flips, additions and writes on '
    'the real encoder; each written file is split by the reference layout model and read by '
    'VectorGraphicFile, and both are compared with the model state. Non-trivial: distinct '
    'history.'
)
CLASSES = list(W.OPTIONS)
FEW = {  # reduced domains for option pairs
    'color': [0, 1, 32], 'major_color': [0, 1, 32], 'minor_color': [None, 0, 5],
    'text_color': [0, 1, 32], 'edgecolor': [None, 0, 5], 'facecolor': [None, 0, 6],
    'line_type': [1, 9, 24, 26, 99], 'filled': [0, 1, 2, 8], 'width': [1, 10],
    'front_code': [0, 5, 50, 129, 425, 999], 'pip_size': [40, 500], 'pip_stroke': [1, 3],
    'text_type': [0, 7, 9, 12, 16], 'font': [1, 22, 33], 'size': [0.1, 10, 12, 34],
    'symbol_code': [1, 7, 24], 'offset_x': [0, -7], 'offset_y': [0, 9],
    'rotation': [0, -30.5], 'turbulence_symbol': [0, 1, 8], 'stroke': [1, 25, 75],
}


def plan(tier):
    t = tier == 'thorough'
    units = [{'u': 'option', 'cls': c} for c in CLASSES]
    units += [{'u': 'pairs', 'cls': c, 'i': i, 't': t} for c in CLASSES
              for i in range(len(W.OPTIONS[c]))]
    units += [{'u': 'points', 'cls': c, 't': t} for c in CLASSES if W.is_line(c)]
    units += [{'u': 'lats', 'cls': c, 'a': a} for c in CLASSES if W.is_line(c)
              for a in range(-9000, 9001, 2000)]
    units += [{'u': 'spots', 'cls': c, 'a': a, 't': t}
              for c in ('SpecialText', 'SpecialSymbol', 'Marker')
              for a in range(-18000, 18001, 1500)]
    units += [{'u': 'chars', 'a': a} for a in range(0x20, 0x300, 64)]
    units += [{'u': 'text'}, {'u': 'files'}]
    units += [{'u': 'seq', 'first': f, 'n': 4 if t else 3} for f in range(len(TEMPLATES))]
    units += [{'u': 'edits', 'cls': c, 'i': i, 't': t} for c in CLASSES
              for i in range(len(edits(c)))]
    return units


def bounds(tier):
    return {
        'options': 'every documented value of every option alone; pairs of options over '
                   'reduced domains',
        'points': '2..24 and around 500' if tier != 'thorough' else 'every count 2..500',
        'coordinates': 'every hundredth of a degree of latitude and longitude',
        'sequences': f'all sequences of up to {4 if tier == "thorough" else 3} of '
                     f'{len(TEMPLATES)} elements',
        'edits': 'all sequences of two (thorough: three, reduced) assignments, with a write '
                 'between',
    }


TEMPLATES = [
    ['Line', {'color': 2, 'closed': 0}, 2, {}],
    ['Line', {'color': 3, 'closed': 1, 'filled': 2}, 4, {'group_type': 8, 'group_number': 1}],
    ['SpecialLine', {'line_type': 24, 'stroke': 40, 'closed': 1, 'direction': -1}, 3, {}],
    ['SpecialLine', {'line_type': 6, 'closed': 0}, 2, {'group_type': 8, 'group_number': 2}],
    ['Front', {'front_code': 427}, 3, {'group_type': 8, 'group_number': 1}],
    ['SpecialText', {'text_type': 4}, 1, {'group_type': 3, 'group_number': 7}],
    ['SpecialSymbol', {'symbol_code': 35}, 1, {'group_type': 8, 'group_number': 1}],
    ['Marker', {'symbol_code': 14}, 1, {}],
]
TEXTS = ['ABC', 'a$$b', 'lower case', 'x', '']


def edits(cls):
    """Assignments tried on an element of a class: every setter, two or three values each."""
    out = []
    for name in W.SETTERS[cls]:
        vals = [v for v in W.OPTIONS[cls][name][1] if v is not None]
        pick = {'front_code': [5, 299, 931], 'text_type': [0, 7, 12], 'line_type': vals[:1] + vals[-1:],
                'turbulence_symbol': [3, 8]}.get(name, [vals[0], vals[-1]])
        out += [[name, v] for v in pick]
    if cls == 'Front':
        out += [['width', 1], ['width', 8]]
    if cls in ('Front', 'SpecialLine'):
        out += [['flip', None]]
    for name in ('group_type', 'group_number', 'major_color', 'minor_color'):
        if name not in W.SETTERS[cls]:
            vals = W.COMMON[name][0]
            out += [[name, vals[-1]], [name, vals[1]]]
    out += [['write', None]]
    return out


def run_unit(unit, rec):
    u, cls = unit['u'], unit.get('cls')
    if u == 'option':
        for name, (_d, vals, _b) in W.OPTIONS[cls].items():
            for v in vals:
                o = {name: v}
                if not W.stroke_ok(cls, o):
                    o['stroke'] = 40
                rec.case({'cls': cls, 'opts': o})
        if cls == 'SpecialLine':
            for lt in (24, 25):
                for s in range(25, 76):
                    rec.case({'cls': cls, 'opts': {'line_type': lt, 'stroke': s}})
    elif u == 'pairs':
        names = list(W.OPTIONS[cls])
        a = names[unit['i']]
        for b in names[unit['i'] + 1 :]:
            for x, y in itertools.product(few(cls, a, unit['t']), few(cls, b, unit['t'])):
                o = {a: x, b: y}
                if cls == 'SpecialText' and 'turbulence_symbol' in o and o.get(
                    'text_type', 0) in (7, 9, 12) and o['turbulence_symbol'] > 8:
                    continue
                if not W.stroke_ok(cls, o):
                    continue
                rec.case({'cls': cls, 'opts': o})
    elif u == 'points':
        ns = range(2, 501) if unit['t'] else [*range(2, 25), 127, 128, 255, 256, 257, 499, 500]
        for n in ns:
            for closed in ([None] if cls == 'Front' else [0, 1]):
                for arr in ('list', 'array', 'f4'):
                    for d in ([1, -1] if cls == 'SpecialLine' else [None]):
                        o = {}
                        if closed is not None:
                            o['closed'] = closed
                        if d is not None:
                            o['direction'] = d
                        rec.case({'cls': cls, 'opts': o, 'n': n, 'arr': arr})
    elif u == 'lats':
        for start in range(unit['a'], min(unit['a'] + 2000, 9001), 250):
            rec.case({'cls': cls, 'sweep': start})
    elif u == 'spots':
        step = 1500
        rec.case({'spots': cls, 'a': unit['a'], 'step': step})
    elif u == 'chars':
        for c in range(unit['a'], min(unit['a'] + 64, 0x300)):
            rec.case({'chars': c})
    elif u == 'text':
        for c in (0x4E2D, 0x20AC, 0x1F300, 0x2603, 0xFFFD, 0x0A, 0x09):
            rec.case({'chars': c})
        for n in range(0, 255):
            rec.case({'cls': 'SpecialText', 'opts': {}, 'text': ('abcdefghij' * 26)[:n]})
        for n in range(0, 128):
            rec.case({'cls': 'SpecialText', 'opts': {}, 'text': 'é' * n})
        for n in range(0, 85):
            rec.case({'cls': 'SpecialText', 'opts': {}, 'text': '中' * n})
        for s in ['$$', 'a$$', '$$a', 'a$$b$$c', ' a ', 'a\nb', '$', 'a $ b', '\u00b0F 45\u00b0']:
            rec.case({'cls': 'SpecialText', 'opts': {}, 'text': s})
    elif u == 'files':
        for how in ('empty', 'from_elements', 'path', 'rewrite', 'shared', 'copy'):
            rec.case({'file': how})
    elif u == 'seq':
        for n in range(1, unit['n'] + 1):
            for rest in itertools.product(range(len(TEMPLATES)), repeat=n - 1):
                rec.case({'seq': [unit['first'], *rest]})
    elif u == 'edits':
        ops = edits(cls)
        for j in range(len(ops)):
            rec.case({'cls': cls, 'opts': {}, 'edits': [ops[unit['i']], ops[j]]})
            if unit['t']:
                for k in range(0, len(ops), 2):
                    rec.case({'cls': cls, 'opts': {}, 'edits': [ops[unit['i']], ops[j], ops[k]]})


def few(cls, name, thorough):
    vals = W.OPTIONS[cls][name][1]
    if name == 'stroke':
        return [1, 25, 75]
    if thorough and len(vals) <= 40:
        return vals
    f = [v for v in FEW.get(name, vals) if v in vals]
    return f or vals[:2]


def write(rec, vgf, name='a.vgf'):
    p = rec.path(name)
    vgf.to_vgf(p)
    rec.step()
    with open(p, 'rb') as f:
        return p, f.read()


def check_file(rec, p, data, models):
    """The written file, split by the reference and read by the decoder, against the models."""
    from gempakio.decode.vgf import VectorGraphicFile

    try:
        recs = R.parse(data)
    except ValueError as e:
        expect(False, f'not a sequence of records: {e}')
    expect(recs and (recs[0][0]['vg_class'], recs[0][0]['vg_type']) == (0, 22),
           'no file header in front')
    expect(len(recs) == len(models) + 1, lambda: f'{len(recs) - 1} records, {len(models)} elements')
    rd = VectorGraphicFile(p)
    got = list(rd.elements)
    expect(len(got) == len(models), lambda: f'{len(got)} elements read, {len(models)} written')
    groups = []
    for m, (h, body), g in zip(models, recs[1:], got, strict=True):
        want = m.expected()
        bad = R.mismatches(g, want)
        expect(not bad, lambda: f'{m.cls}: ' + '; '.join(bad)[:500])  # noqa: B023
        # The record itself, against the layout model (independent of the reader).
        kind = W.KIND[m.cls]
        for k in R.HEADER_NAMES:
            if k in want:
                w = want[k]
                expect(R.same(h[k], w), lambda: f'{m.cls} record header {k}={h[k]}, not {w}')  # noqa: B023
        v = R.unpack(kind, body)
        raw = {**want}
        if W.is_line(m.cls):
            expect(len(v['lat_']) == len(m.lat) and all(
                abs(a - b) < 1e-4 for a, b in zip(v['lat_'] + v['lon_'], [*m.lat, *m.lon],
                                                  strict=True)),
                lambda: f'{m.cls} record holds other points')  # noqa: B023
        for f, fmt, *nd in R.KINDS[kind][3]:
            if f in raw and f in v and not fmt.endswith('s'):
                w = raw[f]
                x = v[f]
                if isinstance(w, tuple):
                    expect(abs(x - w[1]) <= 1e-4 + 1e-6 * abs(w[1]),
                           lambda: f'{m.cls} record {f}={x}, not {w[1]}')  # noqa: B023
                else:
                    expect(x == w, lambda: f'{m.cls} record {f}={x}, not {w}')  # noqa: B023
        gt = m.h['group_type']
        if gt and gt not in groups:
            groups.append(gt)
    expect(list(rd.groups) == groups, lambda: f'groups {rd.groups}, written {groups}')
    for gt in groups:
        nums = sorted({m.h['group_number'] for m in models if m.h['group_type'] == gt})
        gs = rd.get_group(gt)
        expect([g.group_number for g in gs] == nums, lambda: f'group numbers of {gt}')  # noqa: B023
        for g in gs:
            ids = [i for i, m in enumerate(models)
                   if (m.h['group_type'], m.h['group_number']) == (gt, g.group_number)]
            expect([id(e) for e in g] == [id(got[i]) for i in ids],
                   lambda: f'members of group {gt}/{g.group_number}')  # noqa: B023
    rec.state(digest([str(m.expected()) for m in models]))


def run_case(case, rec):
    from gempakio.encode.vgf import VGFile

    if 'spots' in case:
        cls, a = case['spots'], case['a']
        rec.outcome('spots')
        vgf, models = VGFile(), []
        for k in range(a, min(a + case['step'], 18001)):
            lon, lat = k / 100, ((k + 18000) % 18001 - 9000) / 100
            models.append(W.Model(cls, (lat, lon), {}, 'T'))
            vgf.add_element(W.build(cls, (lat, lon), {}, 'T'))
        p, data = write(rec, vgf)
        check_file(rec, p, data, models)
        return
    if 'chars' in case:
        c = chr(case['chars'])
        rec.outcome('chars')
        vgf, models = VGFile(), []
        for t in (c, c + 'a', 'a' + c, 'a' + c + 'b', c * 3, f'x{c}$$y'):
            models.append(W.Model('SpecialText', (1.5, 2.5), {}, t))
            vgf.add_element(W.build('SpecialText', (1.5, 2.5), {}, t))
        p, data = write(rec, vgf)
        check_file(rec, p, data, models)
        return
    if 'sweep' in case:
        s = case['sweep']
        rec.outcome('sweep')
        lat = [k / 100 for k in range(s, min(s + 250, 9001))]
        lon = [2 * k / 100 - (0.01 if k % 2 and k > -9000 else 0) for k in range(s, min(s + 250, 9001))]
        lon2 = [min(180.0, x + 0.01) for x in lon]
        if len(lat) < 2:
            lat, lon, lon2 = [89.99, 90.0], [179.98, 179.99], [180.0, 180.0]
        vgf, models = VGFile(), []
        for lo in (lon, lon2):
            models.append(W.Model(case['cls'], (lat, lo), {}))
            vgf.add_element(W.build(case['cls'], (lat, lo), {}))
        p, data = write(rec, vgf)
        check_file(rec, p, data, models)
        return
    if 'seq' in case:
        rec.outcome(f'seq{len(case["seq"])}')
        vgf, models = VGFile(), []
        for i, k in enumerate(case['seq']):
            cls, opts, n, sets = TEMPLATES[k]
            co = W.sample_coords(cls, n, i)
            t = TEXTS[i % len(TEXTS)] if cls == 'SpecialText' else None
            m, e = W.Model(cls, co, opts, t), W.build(cls, co, opts, t)
            for name, v in sets.items():
                setattr(e, name, v)
                m.set(name, v)
            vgf.add_element(e)
            models.append(m)
            rec.step()
        p, data = write(rec, vgf)
        check_file(rec, p, data, models)
        return
    if 'file' in case:
        return file_case(case['file'], rec)
    cls = case['cls']
    co = W.sample_coords(cls, case.get('n', 3))
    text = case.get('text', 'TEXT') if cls == 'SpecialText' else None
    m = W.Model(cls, co, case['opts'], text)
    real = co
    if case.get('arr') == 'array':
        real = tuple(np.array(c) for c in co)
    elif case.get('arr') == 'f4':
        real = tuple(np.array(c, dtype='float32') for c in co)
    e = W.build(cls, real, case['opts'], text)
    vgf = VGFile()
    vgf.add_element(e)
    other = ('Line', ([1.5, 2.5], [3.5, 4.5]), {'color': 7})
    models = [m, W.Model(*other)]
    vgf.add_element(W.build(*other))
    rec.outcome(cls + ('-edits' if 'edits' in case else ''))
    for name, v in case.get('edits', []):
        if name == 'write':
            check_file(rec, *write(rec, vgf), models)
        elif name == 'flip':
            e.flip()
            m.flip()
        else:
            setattr(e, name, v)
            m.set(name, v)
        rec.step()
    check_file(rec, *write(rec, vgf), models)


def file_case(how, rec):
    from pathlib import Path

    from gempakio.encode.vgf import VGFile

    rec.outcome('file-' + how)
    a = ('Line', ([1.5, 2.5], [3.5, 4.5]), {'color': 7})
    b = ('Front', ([1.5, 2.5], [3.5, 4.5]), {})
    if how == 'empty':
        check_file(rec, *write(rec, VGFile()), [])
    elif how == 'from_elements':
        v = VGFile.from_elements(W.build(*a), W.build(*b))
        check_file(rec, *write(rec, v), [W.Model(*a), W.Model(*b)])
        check_file(rec, *write(rec, VGFile.from_elements()), [])
    elif how == 'path':
        v = VGFile.from_elements(W.build(*a))
        p = Path(rec.path('p.vgf'))
        v.to_vgf(p)
        check_file(rec, p, p.read_bytes(), [W.Model(*a)])
    elif how == 'rewrite':
        v = VGFile.from_elements(W.build(*a), W.build(*b))
        check_file(rec, *write(rec, v), [W.Model(*a), W.Model(*b)])
        small = VGFile.from_elements(W.build(*b))
        check_file(rec, *write(rec, small), [W.Model(*b)])
        d1 = write(rec, v)[1]
        d2 = write(rec, v, 'b.vgf')[1]
        expect(d1 == d2, 'the same file is written differently the second time')
    elif how == 'shared':
        e = W.build(*a)
        v = VGFile.from_elements(e, e)
        w = VGFile.from_elements(e)
        check_file(rec, *write(rec, v), [W.Model(*a), W.Model(*a)])
        check_file(rec, *write(rec, w), [W.Model(*a)])
    elif how == 'copy':
        lat, lon = np.array([1.5, 2.5, 3.5]), np.array([4.5, 5.5, 6.5])
        lat32, lon32 = lat.astype('float32'), lon.astype('float32')
        for la, lo in ((lat, lon), (lat32, lon32)):
            keep = ([float(x) for x in la], [float(x) for x in lo])
            e = W.build('Line', (la, lo), {'color': 7})
            la += 10
            lo += 10
            check_file(rec, *write(rec, VGFile.from_elements(e)),
                       [W.Model('Line', keep, {'color': 7})])
