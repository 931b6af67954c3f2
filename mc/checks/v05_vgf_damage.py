"""V05: cut-off, damaged and extended VGF files: reading ends, and what is read is right."""

import itertools
import struct

from mc import core
from mc import vgfref as R
from mc.core import digest, expect

PROPERTY = 'V05'
LEVEL = 'fault_enumeration'
CASE_SECONDS = 10
RULE = (
    'A case applies one fault (cut at a byte, byte overwritten, count field overwritten, record '
    'extended, unknown record inserted) to a VGF file of three records and reads it; the result '
    'is an exception or a list of elements that is checked against the records left whole. '
    'Non-trivial: distinct fault and file.'
)
KINDS = list(R.KINDS)
BIG = 4000  # records above this size are cut at every 13th byte in the quick tier
VALUES = [0x00, 0x01, 0x7F, 0x80, 0xFF]
COUNTS = [0, -1, -2, 1, 51, 501, 65536, 2**31 - 1, -(2**31)]


def plan(tier):
    t = tier == 'thorough'
    units = [{'u': 'cut', 'k': k, 't': t, 'part': p} for k in KINDS for p in range(4)]
    units += [{'u': 'header', 'k': k, 't': t} for k in KINDS]
    units += [{'u': 'body', 'k': k, 't': t} for k in KINDS]
    units += [{'u': 'more', 'k': k} for k in KINDS]
    units += [{'u': 'unknown'}, {'u': 'writer'}]
    d = core.REPO / 'tests' / 'data'
    units += [{'u': 'sample', 'file': f.name, 't': t} for f in sorted(d.glob('*.vgf'))]
    return units


def bounds(tier):
    t = tier == 'thorough'
    return {
        'cuts': 'every byte of a file of three records, for every kind as the middle record'
                + ('' if t else f' (records over {BIG} bytes: their first and last 128 bytes and '
                                'every 13th)'),
        'header bytes': f'every byte of the middle record header set to '
                        f'{"each of 256" if t else len(VALUES) + 2} values',
        'body words': f'every {"" if t else "4th of the first 200 bytes, and every count, "}32-bit '
                      'word of the middle record set to extreme counts',
        'extension': 'every kind extended by 1..24 bytes',
    }


def run_unit(unit, rec):
    u, k = unit['u'], unit.get('k')
    if u == 'cut':
        a, b, c = three(k)
        n = len(a) + len(b) + len(c)
        h = len(R.file_header())
        for i in range(unit['part'], h + n + 1, 4):
            j = i - h - len(a)
            if not unit['t'] and len(b) > BIG and 128 < j < len(b) - 128 and (i // 4) % 13:
                continue
            rec.case({'k': k, 'cut': i})
    elif u == 'header':
        for i in range(R.HDR_SIZE):
            vals = range(256) if unit['t'] else VALUES
            for x in vals:
                rec.case({'k': k, 'byte': i, 'to': x})
            if not unit['t']:
                rec.case({'k': k, 'byte': i, 'xor': 1})
                rec.case({'k': k, 'byte': i, 'xor': 0x20})
        for s in [*range(-3, 100), 2**31 - 1, -(2**31), 10**6]:
            rec.case({'k': k, 'size': s})
    elif u == 'body':
        n = len(three(k)[1]) - R.HDR_SIZE
        last = n if unit['t'] else min(n, 200)
        for i in range(0, max(0, last - 3), 4):
            for x in COUNTS:
                rec.case({'k': k, 'word': i, 'to': x})
        for i in range(0, min(n, 400 if unit['t'] else 60)):
            for x in VALUES:
                rec.case({'k': k, 'byte': R.HDR_SIZE + i, 'to': x})
    elif u == 'more':
        for n in range(1, 25):
            for fill in (0, 0x41, 0xFF):
                rec.case({'k': k, 'more': n, 'fill': fill})
    elif u == 'unknown':
        for k in ('watch6', 'sigmet_intl', 'line'):
            for v in range(7 if k == 'watch6' else 2, 256):
                if k != 'line':
                    rec.case({'k': k, 'version': v})
        for c, t in itertools.product([*range(17)], VGT):
            if c in (1, 2, 4, 6, 10, 14) or (c, t) in KNOWN or (c, t) == (0, 22):
                continue
            for n in (0, 3, 40):
                rec.case({'skip': [c, t, n]})
    elif u == 'writer':
        rec.case({'writer': True})
    elif u == 'sample':
        size = (core.REPO / 'tests' / 'data' / unit['file']).stat().st_size
        step = 1 if unit['t'] and size < 40000 else max(1, size // 250)
        for i in range(0, size + 1, step):
            rec.case({'sample': unit['file'], 'cut': i})


VGT = [1, 2, *range(4, 44)]
KNOWN = {v[:2] for v in R.KINDS.values()}


def three(k):
    """A line, the element under test, and another line."""
    return (R.build('line', R.default('line', 2, 1)), R.build(k, R.default(k, 3, 2)),
            R.build('special_line', R.default('special_line', 4, 3)))


def wanted(k):
    """Expectations of the three."""
    return [('line', R.expected('line', R.default('line', 2, 1))),
            (k, R.expected(k, R.default(k, 3, 2))),
            ('special_line', R.expected('special_line', R.default('special_line', 4, 3)))]


def read(rec, data):
    """Elements, or the exception."""
    from gempakio.decode.vgf import VectorGraphicFile

    p = rec.path('a.vgf')
    with open(p, 'wb') as f:
        f.write(data)
    rec.step()
    try:
        return list(VectorGraphicFile(p).elements), None
    except (MemoryError, RecursionError):
        raise
    except Exception as e:
        return None, e


def compare(got, want, what):
    """Exactly these elements."""
    expect(len(got) == len(want),
           lambda: f'{what}: {len(got)} elements read, {len(want)} records whole')
    for e, (k, w) in zip(got, want, strict=True):
        bad = R.mismatches(e, w)
        if k.startswith('sigmet'):
            bad = [b for b in bad if not b.startswith('status=')]
        expect(not bad, lambda: f'{what}: {k}: ' + '; '.join(bad)[:400])  # noqa: B023


def run_case(case, rec):
    if 'sample' in case:
        return sample(case, rec)
    if 'writer' in case:
        return writer(rec)
    if 'skip' in case:
        c, t, n = case['skip']
        a, _b, z = three('line')
        data = R.file_header() + a + R.raw(c, t, b'\x07' * n) + z
        got, ex = read(rec, data)
        expect(ex is None, lambda: f'record of class {c} type {t}: {type(ex).__name__}: {ex}')
        w = wanted('line')
        kinds = {(e.vg_class, e.vg_type) for e in got}
        expect({(3, 1), (3, 20)} <= kinds, f'elements around class {c} type {t} were lost')
        mine = [e for e in got if (e.vg_class, e.vg_type) in ((3, 1), (3, 20))]
        compare(mine, [w[0], w[2]], f'around class {c} type {t}')
        rec.state(f'skip{case["skip"]}')
        rec.outcome('unknown type skipped')
        return
    k = case['k']
    head = R.file_header()
    a, b, c = three(k)
    want = wanted(k)
    rec.state(digest(case))
    if 'cut' in case:
        i = case['cut']
        got, ex = read(rec, (head + a + b + c)[:i])
        ends = [len(head) + len(a), len(head) + len(a) + len(b),
                len(head) + len(a) + len(b) + len(c)]
        whole = sum(i >= e for e in ends)
        if i in (*ends, len(head)):
            expect(ex is None, lambda: f'{whole} whole records: {type(ex).__name__}: {ex}')
        if ex is not None:
            rec.outcome('cut: error')
            return
        rec.outcome(f'cut: {len(got)} elements')
        compare(got, want[:whole], f'cut at {i}')
        return
    if 'version' in case:
        b = R.build(k, R.default(k, 3, 2), version=case['version'])
        got, ex = read(rec, head + a + b + c)
        expect(ex is None, lambda: f'{k} version {case["version"]}: {type(ex).__name__}: {ex}')
        mine = [e for e in got if (e.vg_class, e.vg_type) in ((3, 1), (3, 20))]
        compare(mine, [want[0], want[2]], f'around {k} version {case["version"]}')
        rec.outcome('unknown version skipped')
        return
    if 'more' in case:
        extra = bytes([case['fill']]) * case['more']
        body = b[R.HDR_SIZE :] + extra
        hd = dict(zip(R.HEADER_NAMES, R.HEADER.unpack_from(b), strict=True))
        hd['record_size'] += case['more']
        b = R.HEADER.pack(*hd.values()) + body
        got, ex = read(rec, head + a + b + c)
        expect(ex is None, lambda: f'{k} extended: {type(ex).__name__}: {ex}')
        compare(got, want, f'{k} extended by {case["more"]} bytes')
        rec.outcome('extended record')
        return
    b = bytearray(b)
    if 'size' in case:
        struct.pack_into('>i', b, 20, case['size'])
    elif 'word' in case:
        struct.pack_into('>i', b, R.HDR_SIZE + case['word'], case['to'])
    elif 'to' in case:
        b[case['byte']] = case['to']
    else:
        b[case['byte']] ^= case['xor']
    got, ex = read(rec, head + a + bytes(b) + c)
    if ex is not None:
        rec.outcome('damaged: error')
        return
    rec.outcome(f'damaged: {len(got)} elements')
    expect(len(got) >= 1, lambda: f'{k} damaged ({case}): the element before it was lost')
    compare(got[:1], want[:1], f'element before a damaged {k} ({case})')
    # Damage inside the record, its size intact and its header valid: what follows survives.
    if 'word' in case or ('byte' in case and case['byte'] >= R.HDR_SIZE):
        compare(got[-1:], want[2:], f'element after a damaged {k} ({case})')


def sample(case, rec):
    """Prefixes of files written by GEMPAK itself."""
    d = (core.REPO / 'tests' / 'data' / case['sample']).read_bytes()
    got, ex = read(rec, d[: case['cut']])
    rec.state(f'{case}')
    if ex is not None:
        rec.outcome('sample cut: error')
        return
    rec.outcome('sample cut: read')
    p, whole = 0, []
    while p + R.HDR_SIZE <= case['cut']:
        h = dict(zip(R.HEADER_NAMES, R.HEADER.unpack_from(d, p), strict=True))
        if p + h['record_size'] > case['cut']:
            break
        if h['vg_class']:
            whole.append((h['vg_class'], h['vg_type'], h['record_size']))
        p += h['record_size']
    have = [(e.vg_class, e.vg_type, e.record_size) for e in got]
    expect(have == whole, lambda: f'{case}: {len(have)} elements, {len(whole)} whole records')


def writer(rec):
    """Every prefix of a file written by VGFile."""
    from gempakio.encode.vgf import VGFile
    from mc import vgfwrite as W

    els = [('Line', 3, {'color': 7, 'closed': 1}, None), ('SpecialText', 1, {}, 'Some text'),
           ('Front', 4, {}, None), ('Marker', 1, {}, None), ('SpecialLine', 2, {}, None),
           ('SpecialSymbol', 1, {}, None)]
    v, models = VGFile(), []
    for i, (cls, n, o, t) in enumerate(els):
        co = W.sample_coords(cls, n, i)
        v.add_element(W.build(cls, co, o, t))
        models.append(W.Model(cls, co, o, t))
    p = rec.path('w.vgf')
    v.to_vgf(p)
    with open(p, 'rb') as f:
        data = f.read()
    ends, at = [], 0
    for h, _b in R.parse(data):
        at += h['record_size']
        ends.append(at)
    for i in range(len(data) + 1):
        got, ex = read(rec, data[:i])
        whole = sum(i >= e for e in ends[1:])
        if ex is not None:
            expect(i not in ends, f'{whole} whole records: {ex}')
            continue
        compare(got, [(m.cls, m.expected()) for m in models[:whole]], f'written file cut at {i}')
    rec.outcome('written file')
