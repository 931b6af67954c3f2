"""What the GEMPAK data management library expects of a file, checked on its bytes.

The facts are those of GEMPAK's DM documentation and hold for the files GEMPAK itself made that
come with the repository (mc.selftest runs this over them).
"""

from mc import gemref
from mc.core import expect, Violation

RECORD = 128
KINDS = {
    'sfc': {
        'type': 1, 'rows': ['DATE', 'TIME'], 'part': ('SFDT', 1, 1), 'files': {},
        'cols': ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI'],
    },
    'snd': {
        'type': 2, 'rows': ['DATE', 'TIME'], 'part': ('SNDT', 1, 1), 'files': {},
        'cols': ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2'],
    },
    'grid': {
        'type': 3, 'rows': ['GRID'], 'part': ('GRID', 2, 5), 'files': {'NAVB': 256, 'ANLB': 128},
        'cols': ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3'],
    },
}
SOURCES = {'sfc': {1, 2, 3, 7, 100, 102}, 'snd': {4, 5, 101, 102}, 'grid': {6}}


def whole(o):
    """Whole records, blocks where records begin, and the next free word after the last used."""
    L = o.label
    expect(o.nwords % RECORD == 0, lambda: f'{o.nwords} words are not whole records of {RECORD}')
    last = max(o.used)
    expect(o.next_free == last + 1,
           lambda: f'next free word {o.next_free}, but the last word in use is {last}')
    expect(o.nwords == -(-last // RECORD) * RECORD,
           lambda: f'{o.nwords} words in the file, but the last word in use is {last}')
    for name in ('row_headers_ptr', 'parts_ptr', 'data_block_ptr'):
        expect(L[name] % RECORD == 1, lambda: f'{name} {L[name]} is not the start of a record')
    if o.data:
        first = min(at for at, _ in o.data.values()) - 1
        expect(first % RECORD == 1, lambda: f'data begin at {first}, not at the start of a record')
    expect(L['row_keys_ptr'] == 257, lambda: f'row keys at {L["row_keys_ptr"]}')
    expect(L['file_keys_ptr'] == L['column_keys_ptr'] + L['column_keys'],
           lambda: f'file keys at {L["file_keys_ptr"]}')


def management(o):
    """The data management record of a file nothing was ever deleted from."""
    got = [o.I(130 + k) for k in range(2)]
    expect(got[0] == 62 and got[1] == 0, lambda: f'free pairs: {got[1]} of {got[0]}')


def check(raw, kind, params=None, source=None):
    """Check a written file of a kind: 'snd', 'sfc' or 'grid'."""
    K = KINDS[kind]
    try:
        o = gemref.parse(raw)
    except gemref.Malformed as e:
        raise Violation(f'written file is malformed: {e}') from None
    whole(o)
    management(o)
    L = o.label
    expect(o.en == '<', 'not little endian as the machine type says')
    expect(L['machine_type'] == 11, lambda: f'machine type {L["machine_type"]}')
    expect(L['file_type'] == K['type'], lambda: f'file type {L["file_type"]} for {kind}')
    expect(L['data_source'] in ({source} if source is not None else SOURCES[kind]),
           lambda: f'data source {L["data_source"]} for {kind}')
    expect(o.row_keys == K['rows'], lambda: f'row keys {o.row_keys}')
    expect(o.col_keys == K['cols'], lambda: f'column keys {o.col_keys}')
    got = {n: ln for n, (_, ln) in o.file_headers.items()}
    expect(got == K['files'], lambda: f'file headers {got}')
    p, n = L['file_keys_ptr'], L['file_headers']
    expect(all(o.I(p + 2 * n + k) == 1 for k in range(n)), 'file header data types')
    expect(len(o.parts) == 1, lambda: f'{len(o.parts)} parts')
    part = o.parts[0]
    expect((part['name'], part['header'], part['type']) == K['part'],
           lambda: f'part {part["name"]}, {part["header"]} header words, type {part["type"]}')
    names = [x['name'] for x in part['params']]
    want = ['GRID'] if kind == 'grid' else [x.upper() for x in params]
    expect(names == want, lambda: f'parameters {names}, expected {want}')
    expect(all((x['scale'], x['offset'], x['bits']) == (0, 0, 0) for x in part['params']),
           'packing terms of parameters that are not packed')
    # No header without data: the table holds the rows and columns of its entries only.
    for what, have, at in (('row', o.rows, 0), ('column', o.cols, 1)):
        used = {k[at] for k in o.data}
        expect(used == set(range(len(have))),
               lambda w=what, h=have, u=used: f'{len(h)} {w} headers, {len(u)} with data')
        keys = K['rows'] if what == 'row' else K['cols']
        seen = {tuple(o.raw[4 * (h[k] - 1):4 * h[k]] for k in keys) for h in have}
        expect(len(seen) == len(have), f'two {what} headers are the same')
    for (i, j, _), (at, ln) in o.data.items():
        if kind == 'grid':
            continue
        expect(o.I(at) == o.I(o.rows[i]['TIME']), f'time of the record of {i},{j}')
        n = ln - part['header']
        expect(n % len(names) == 0, f'record of {i},{j}: {n} words of {len(names)} parameters')
        expect(kind == 'snd' or n == len(names), f'record of {i},{j}: {n} words')
    return o


def check_navigation(o, nx, ny, code, angles):
    """Navigation and analysis blocks agree with each other and with the grid."""
    nav, anl = o.file_headers['NAVB'][0], o.file_headers['ANLB'][0]
    got = [o.F(nav), *(o.F(nav + k) for k in range(2, 6))]
    expect(got == [2.0, 1.0, 1.0, float(nx), float(ny)], lambda: f'navigation block begins {got}')
    expect(o.raw[4 * nav:4 * nav + 4] == code.ljust(4).encode(),
           lambda: f'projection {o.raw[4 * nav:4 * nav + 4]}')
    got = [o.F(nav + 10 + k) for k in range(3)]
    for g, a in zip(got, angles, strict=True):
        expect(a is None or abs(g - a) < 1e-4, lambda: f'angles {got}, expected {angles}')
    corners = [o.I(nav + 6 + k) for k in range(4)]
    expect(all(o.I(nav + k) == 0 for k in range(13, 256)), 'rest of the navigation block')
    expect(o.F(anl) == 2.0, lambda: f'analysis block type {o.F(anl)}')
    expect(all(o.F(anl + k) == 0 for k in range(2, 6)), 'extension of the grid area')
    for k, what in enumerate(('grid', 'extended', 'data')):
        area = [o.I(anl + 6 + 4 * k + m) for m in range(4)]
        expect(area == corners, lambda: f'{what} area differs from the corners of the grid')
    expect(all(o.I(anl + k) == 0 for k in range(18, 128)), 'rest of the analysis block')
