"""V02: which VGF element options are accepted, and that a refused one changes nothing."""

import itertools

import numpy as np

from mc import vgfwrite as W
from mc.core import expect

PROPERTY = 'V02'
LEVEL = 'model_checking'
RULE = (
    'A case constructs an element with given options, or runs a sequence of assignments on one, '
    'on the real encoder; acceptance is compared with the documented ranges and the encoded '
    'bytes are compared around every refused assignment. Non-trivial: distinct case.'
)
CLASSES = list(W.OPTIONS)
CODES = ('front_code', 'pip_size')
UNLIMITED = ('offset_x', 'offset_y', 'rotation')


def candidates(cls, name):
    """Values tried for an option: a contiguous range around everything documented."""
    if name in UNLIMITED:
        return [0, 5, -5]
    if name == 'stroke':
        return list(range(-2, 103))
    if name == 'front_code':
        return [*range(-12, 1013), 2000, 99999, -420]
    if name == 'pip_size':
        return [*range(-45, 520), 1000, 100000]
    if name == 'group_type':
        return [*range(-3, 261), 511, 512, 1000]
    if name == 'group_number':
        return [-2147483648, -2, -1, 0, 1, 2, 300, 2147483647]
    if name == 'size' and cls != 'SpecialText':
        return [x / 20 for x in range(-25, 230)]
    if name == 'pip_stroke':
        return [-10, -1, 0, 1, 2, 3, 50]
    if name in ('edgecolor', 'facecolor', 'minor_color') and name in W.OPTIONS[cls]:
        return [None, *range(-5, 70), 255, 256]
    return [*range(-5, 130), 255, 256, 1000]


def legal(cls, name, x, state):
    """True, False, or None where the documentation leaves it open."""
    if cls == 'Front' and name == 'width':
        return True if x in range(1, 9) else (None if x == 9 else False)
    if name == 'stroke':
        return True if state.get('line_type', 5) not in (24, 25) else x in range(25, 76)
    if name == 'turbulence_symbol':
        t = state.get('text_type', 0)
        if t in (7, 9):
            return True if x in range(9) else (None if x in (9, 10) else False)
        if t == 12:
            return x in range(11)
        return True if x in range(11) else None
    if name == 'size' and cls != 'SpecialText':
        return 0.1 <= x <= 10
    if name == 'pip_stroke':
        return x > 0
    if name in UNLIMITED:
        return True
    if name in W.OPTIONS[cls]:
        return x in W.OPTIONS[cls][name][1]
    if name == 'group_number':
        return x >= 0
    return x in W.COMMON[name][0] if name != 'group_type' else x in range(256)


def setters(cls):
    """Names that can be assigned."""
    out = list(W.SETTERS[cls]) + [n for n in W.COMMON if n not in W.SETTERS[cls]]
    if cls == 'Front':
        out.append('width')
    return out


def few(cls, name):
    """A handful of values, good and bad."""
    if name == 'size' and cls != 'SpecialText':
        return [0.1, 10, 0.05, 10.5, 0, -1]
    if cls == 'Front' and name == 'width':
        return [1, 8, 0, 10, -1]
    if name in W.OPTIONS[cls]:
        _d, good, bad = W.OPTIONS[cls][name]
        good = [g for g in good if g is not None]
    else:
        good, bad = W.COMMON[name]
    if name == 'turbulence_symbol':
        return [0, 8, 10, 11, -1]
    if name == 'text_type':
        return [0, 7, 9, 12, 17, -1]
    if name == 'line_type' and cls == 'SpecialLine':
        return [1, 26, 0, 27]
    return [good[0], good[-1], *bad[:2]]


def plan(tier):
    t = tier == 'thorough'
    units = [{'u': 'single', 'cls': c} for c in CLASSES]
    units += [{'u': 'pair', 'cls': c, 'i': i} for c in CLASSES
              for i in range(len(W.OPTIONS[c]))]
    units += [{'u': 'assign', 'cls': c, 'name': n} for c in CLASSES for n in setters(c)]
    units += [{'u': 'seq', 'cls': c, 'i': i, 't': t} for c in CLASSES
              for i in range(len(ops(c)))]
    units += [{'u': 'points', 'cls': c} for c in CLASSES if W.is_line(c)]
    units += [{'u': 'text'}, {'u': 'symbols'}]
    return units


def bounds(tier):
    return {
        'values': 'every option alone over a contiguous range around the documented one',
        'pairs': 'all pairs of options over good and bad values',
        'assignments': f'all sequences of {3 if tier == "thorough" else 2} assignments, good and '
                       'bad, per class',
        'points': '0..3 and 498..503, equal and unequal counts',
        'text': 'every encoded length 0..300',
    }


def ops(cls):
    """Assignments used in sequences."""
    return [(n, v) for n in setters(cls) for v in few(cls, n)]


def run_unit(unit, rec):
    u, cls = unit['u'], unit.get('cls')
    if u == 'single':
        for name in W.OPTIONS[cls]:
            for x in candidates(cls, name):
                rec.case({'cls': cls, 'opts': {name: x}})
        if cls == 'SpecialLine':
            for lt, s in itertools.product((5, 23, 24, 25, 26), candidates(cls, 'stroke')):
                rec.case({'cls': cls, 'opts': {'line_type': lt, 'stroke': s}})
        if cls == 'SpecialText':
            for tt, s in itertools.product(range(-1, 18), range(-3, 14)):
                rec.case({'cls': cls, 'opts': {'text_type': tt, 'turbulence_symbol': s}})
    elif u == 'pair':
        names = list(W.OPTIONS[cls])
        a = names[unit['i']]
        for b in names[unit['i'] + 1 :]:
            for x, y in itertools.product(few(cls, a), few(cls, b)):
                rec.case({'cls': cls, 'opts': {a: x, b: y}})
    elif u == 'assign':
        for x in candidates(cls, unit['name']):
            if x is not None:
                rec.case({'cls': cls, 'set': [[unit['name'], x]]})
    elif u == 'seq':
        o = ops(cls)
        for b in o:
            rec.case({'cls': cls, 'set': [list(o[unit['i']]), list(b)]})
            if unit['t']:
                for c in o:
                    rec.case({'cls': cls, 'set': [list(o[unit['i']]), list(b), list(c)]})
    elif u == 'points':
        sizes = [0, 1, 2, 3, 498, 499, 500, 501, 502, 503]
        for n, m, how in itertools.product(sizes, sizes, ('list', 'array', 'tuple')):
            rec.case({'cls': cls, 'n': n, 'm': m, 'how': how})
    elif u == 'text':
        for ch in ('a', 'é', '中', '\U0001f300'):
            for n in range(0, 300 // len(ch.encode()) + 1):
                rec.case({'text': ch * n})
        for x in (None, 5, b'abc', 1.5, ['a']):
            rec.case({'text': x if not isinstance(x, bytes) else {'bytes': x.decode()}})
    elif u == 'symbols':
        for c in ('SpecialSymbol', 'Marker'):
            for kind in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16'):
                for x in (0, 1, 23, 24, 25, 41, 42, 100):
                    rec.case({'cls': c, 'np': [kind, x]})
            for x in (1.5, '3', None):
                rec.case({'cls': c, 'badcode': x})


def construct(cls, co, opts, text=None):
    """The element, or the refusal."""
    try:
        e = W.build(cls, co, opts, text)
    except (ValueError, TypeError) as ex:
        return None, ex
    return e, None


def run_case(case, rec):
    cls = case.get('cls')
    rec.step()
    if 'set' in case:
        return assign(case, rec)
    if 'n' in case:
        n, m = case['n'], case['m']
        mk = {'list': list, 'array': np.array, 'tuple': tuple}[case['how']]
        lat = mk([20 + 0.01 * i for i in range(n)])
        lon = mk([-100 + 0.01 * i for i in range(m)])
        e, ex = construct(cls, (lat, lon), {})
        ok = n == m and 2 <= n <= 500
        judge(rec, cls, f'{n} latitudes and {m} longitudes', ok, e, ex)
        return
    if 'text' in case:
        t = case['text']
        if isinstance(t, dict):
            t = t['bytes'].encode()
        e, ex = construct('SpecialText', (1.5, 2.5), {}, t)
        ok = isinstance(t, str) and len(t.encode()) < 255
        what = f'text of {len(t.encode())} bytes' if isinstance(t, str) else f'text {t!r}'
        judge(rec, 'SpecialText', what, ok, e, ex)
        return
    if 'np' in case or 'badcode' in case:
        if 'np' in case:
            k, x = case['np']
            x = np.dtype(k).type(x)
            ok = int(x) <= (41 if cls == 'SpecialSymbol' else 24)
        else:
            x, ok = case['badcode'], False
        e, ex = construct(cls, (1.5, 2.5), {'symbol_code': x})
        judge(rec, cls, f'symbol code {x!r}', ok, e, ex)
        return
    o = case['opts']
    verdicts = [legal(cls, k, x, o) for k, x in o.items()]
    ok = False if False in verdicts else (None if None in verdicts else True)
    if not W.stroke_ok(cls, o):
        ok = False  # the default stroke is out of range for a kinked line
    e, ex = construct(cls, W.sample_coords(cls), o, 'T' if cls == 'SpecialText' else None)
    judge(rec, cls, str(o), ok, e, ex)


def judge(rec, cls, what, ok, e, ex):
    """Compare acceptance with the documentation."""
    if ok is None:
        rec.outcome('open')
        return
    if ok:
        expect(ex is None, lambda: f'{cls} refused documented {what}: {ex}')
        e.encode()
        rec.outcome('accepted')
    else:
        expect(ex is not None, lambda: f'{cls} accepted {what}, which is out of range')
        rec.outcome('refused')
    rec.state(f'{cls}/{what}/{ok}')


def assign(case, rec):
    cls = case['cls']
    e = W.build(cls, W.sample_coords(cls), {}, 'T' if cls == 'SpecialText' else None)
    state = {}
    for name, x in case['set']:
        before = e.encode()
        ok = legal(cls, name, x, state)
        ex = None
        try:
            setattr(e, name, x)
        except (ValueError, TypeError) as err:
            ex = err
        rec.step()
        if ok is True:
            expect(ex is None, lambda: f'{cls}.{name} refused documented {x}: {ex}')  # noqa: B023
            expect(getattr(e, name) == x, lambda: f'{cls}.{name} is not {x} once set')  # noqa: B023
        elif ok is False:
            expect(ex is not None, lambda: f'{cls}.{name} accepted {x}')  # noqa: B023
        after = e.encode()
        if ex is not None:
            expect(after == before, lambda: f'{cls}: refused {name}={x} changed the record')  # noqa: B023
        else:
            state[name] = x
        rec.outcome('refused' if ex is not None else 'set')
    rec.state(f'{cls}/{case["set"]}')
