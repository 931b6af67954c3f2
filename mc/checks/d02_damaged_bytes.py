"""D02: GEMPAK data files with any one byte overwritten."""

import functools
import resource

from gempakio import GempakGrid, GempakSounding, GempakSurface
from mc import gemref, sndmerge
from mc.checks import d01_cut_files as d01
from mc.core import expect, Violation

PROPERTY = 'D02'
LEVEL = 'fault_enumeration'
CASE_SECONDS = 12
RULE = (
    'A case is a file with one byte overwritten by each of a set of values and, for every value, '
    'read completely and then entry by entry; the entries that the byte does not belong to are '
    'compared with those of the undamaged file. Every byte of every file is a case (8 bytes are '
    'recorded as one). Non-trivial: distinct bytes.'
)
BLOCK = 8
PARTS = 16
READERS = {'grd': GempakGrid, 'snd': GempakSounding, 'sfc': GempakSurface}
SIZE_WORDS = (4, 5)  # of the navigation block: the size of the grids


def sources(tier):
    out = [('grd', 'written'), ('snd', 'written'), ('sfc', 'written')]
    for n, en in enumerate('<>'):
        full = tier == 'thorough'
        out += [('grd', f'ref:{en}:{h}') for h in (2, 128)[: 1 + full]]
        for k, typ in enumerate(('real', 'pack')):
            if not full and k == n:
                continue
            out += [('snd', f'stn:snd:{typ}:{en}:0'), ('snd', f'two:{typ}:{en}')]
            out += [('sfc', f'stn:{q}:{typ}:{en}:1') for q in ('std', 'clim')]
        out += [('sfc', f'stn:ship:real:{en}:0')]
    return out


def key_of(info):
    """An entry of a listing without its numbers in the table."""
    t = tuple(info)
    return t[1:] if type(info).__name__ == 'Grid' else t[2:]


def select(kind, f, e):
    """Ask for one entry."""
    if kind == 'grd':
        return [d01.xr_canon(a) for a in f.gdxarray(parameter=e.PARM, date_time=e.DATTIM1,
                                                    level=e.LEVEL1, coordinate=e.COORD)]
    if kind == 'snd':
        return [d01.xr_canon(a) for a in f.snxarray(station_id=e.ID, date_time=e.DATTIM)]
    return [d01.digest(d01.canon(a)) for a in f.sfjson(station_id=e.ID, date_time=e.DATTIM)]


def listing(kind, f):
    return getattr(f, {'grd': 'gdinfo', 'snd': 'sninfo', 'sfc': 'sfinfo'}[kind])()


@functools.cache
def raw_of(kind, src):
    """The bytes of the undamaged file."""
    if not src.startswith('two:'):
        return d01.raw_of(kind, src)
    _tag, typ, en = src.split(':')
    one = {'levels': d01.UNM, 'texts': {t: f'{t} 31121' for t in sndmerge.TEXTS[:2]}}
    other = {'levels': {k: d01.UNM[k] for k in ('TTAA', 'PPAA', 'TTBB')}}
    return sndmerge.build_several({'grid': [[one, None], [None, other]], 'en': en,
                                   'pack': typ == 'pack'})


@functools.cache
def regions(kind, src):
    """What each word of a file belongs to: ('gap',), ('rec', i, j), ('row', i), ('col', j),
    ('ptr', i, j), ('free',) words nothing is said about, or ('file',)."""
    raw = raw_of(kind, src)
    o = gemref.parse(raw)
    L = o.label
    out = []
    for w in range(1, o.nwords + 1):
        what = o.used.get(w)
        if what is None:
            out.append(('gap',))
        elif what.startswith('data record'):
            i, j, _k = (int(x) for x in what[what.index('(') + 1 : -1].split(','))
            out.append(('rec', i, j))
        elif what == 'row headers':
            out.append(('row', (w - L['row_headers_ptr']) // (L['row_keys'] + 1)))
        elif what == 'column headers':
            out.append(('col', (w - L['column_headers_ptr']) // (L['column_keys'] + 1)))
        elif what == 'data block pointers':
            n = (w - L['data_block_ptr']) // L['parts']
            out.append(('ptr', n // L['columns'], n % L['columns']))
        elif what == 'file header NAVB' and w - o.file_headers['NAVB'][0] in SIZE_WORDS:
            out.append(('size',))
        elif what == 'data management' or what.startswith('file header'):
            out.append(('quiet',))
        else:
            out.append(('file',))
    return out


@functools.cache
def truth(kind, src):
    """The entries of the undamaged file: (row, column, listing entry, data), in order."""
    import os
    import tempfile

    d = tempfile.mkdtemp(dir=d01.SCRATCH[0])
    path = os.path.join(d, 'f')
    with open(path, 'wb') as h:
        h.write(raw_of(kind, src))
    o = gemref.parse(raw_of(kind, src))
    rows = [i for i, h in enumerate(o.rows) if h is not None]
    cols = [j for j, h in enumerate(o.cols) if h is not None]
    f = READERS[kind](path)
    out = []
    for e in listing(kind, f):
        i, j = (0, e[0]) if kind == 'grd' else e[:2]
        data = select(kind, f, e)
        expect(len(data) == 1, lambda: f'{src}: {e} selects {len(data)} entries')
        out.append((rows[i], cols[j], e, data[0]))
    assert len({x[3] for x in out}) == len(out) > 1
    return out


def plan(tier):
    return [{'kind': k, 'src': s, 'part': p, 't': tier == 'thorough'}
            for k, s in sources(tier) for p in range(PARTS)]


def bounds(tier):
    return {'files': len(sources(tier)), 'bytes': 'every byte of every file but the two words '
            'of the navigation block that give the size of the grids',
            'values': 'all 255 others' if tier == 'thorough' else
            'every single bit flip, 0 and 255 (four flips outside the entries, one value where '
            'nothing is stored)'}


def run_unit(unit, rec):
    kind, src = unit['kind'], unit['src']
    d01.SCRATCH[0] = rec.scratch
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    where = regions(kind, src)
    at = [b for b in range(4 * len(where)) if where[b // 4] != ('size',)]
    for k in range(unit['part'] * BLOCK, len(at), PARTS * BLOCK):
        rec.case({'kind': kind, 'src': src, 'at': at[k : k + BLOCK], 't': unit['t']})
        if len(rec.violations) > 1:
            break


def values(old, region, thorough):
    if thorough:
        return [v for v in range(256) if v != old]
    if region[0] in ('gap', 'quiet'):
        return [old ^ 0xFF]
    bits = (0, 1, 4, 7) if region[0] == 'file' else range(8)
    return sorted(({old ^ (1 << b) for b in bits} | {0, 255}) - {old})


def touched(region, i, j):
    """Whether damage in a region may change entry (i, j)."""
    if region[0] in ('rec', 'ptr'):
        return region[1:] == (i, j)
    if region[0] == 'row':
        return region[1] == i
    if region[0] == 'col':
        return region[1] == j
    return region[0] != 'gap'


def in_order(part, all_of):
    it = iter(all_of)
    return all(any(x == y for y in it) for x in part)


def check(kind, src, path, region, what, rec):
    want = truth(kind, src)
    others = [w for w in want if not touched(region, *w[:2])]
    try:
        f = READERS[kind](path)
        info = listing(kind, f)
    except MemoryError:
        raise
    except Exception as e:
        expect(region[0] not in ('rec', 'ptr', 'gap'),
               lambda: f'{what}: the file cannot be opened: {type(e).__name__} {e}')
        rec.outcome(f'{region[0]}: {type(e).__name__} opening')
        return
    if region[0] == 'gap':
        expect(info == [w[2] for w in want], lambda: f'{what}: lists {info}')
    elif region[0] == 'rec':
        expect([key_of(i) for i in info] == [key_of(w[2]) for w in want],
               lambda: f'{what}: lists {info}')
    else:
        expect(in_order([key_of(w[2]) for w in others], [key_of(i) for i in info]),
               lambda: f'{what}: lists {info}, other entries {[w[2] for w in others]}')
        expect(region[0] not in ('row', 'col', 'ptr') or len(info) <= len(want) + 1 or not others,
               lambda: f'{what}: lists {info}')
    for _i, _j, e, data in others:
        same = [x for x in info if (x.PARM, x.DATTIM1, x.LEVEL1, x.COORD) == (
            e.PARM, e.DATTIM1, e.LEVEL1, e.COORD)] if kind == 'grd' else [
            x for x in info if (x.ID, x.DATTIM) == (e.ID, e.DATTIM)]
        if len(same) > 1:
            rec.outcome(f'{region[0]}: made equal to another')
            continue
        try:
            got = select(kind, f, e)
        except Exception as x:
            raise Violation(f'{what}: reading {e} fails: {type(x).__name__} {x}') from x
        expect(got == [data], lambda: f'{what}: other data read for {e}')
    if region[0] == 'gap':
        rec.outcome('gap: read')
        return
    try:
        n = len(d01.read(kind, path)[1])
        rec.outcome(f'{region[0]}: read')
        rec.state([kind, src, region[0], n])
    except MemoryError:
        raise
    except Exception as e:
        rec.outcome(f'{region[0]}: {type(e).__name__}')


def run_case(case, rec):
    kind, src = case['kind'], case['src']
    d01.SCRATCH[0] = d01.SCRATCH[0] or rec.scratch
    path = rec.path('c')
    raw = raw_of(kind, src)
    truth(kind, src)
    for at in case['at']:
        region = regions(kind, src)[at // 4]
        for v in values(raw[at], region, case.get('t')):
            with open(path, 'wb') as h:
                h.write(raw[:at] + bytes([v]) + raw[at + 1 :])
            rec.step()
            check(kind, src, path, region,
                  f'{src}: byte {at} ({" ".join(map(str, region))}) of {raw[at]} made {v}', rec)
