"""G03: decoding of grid files laid out independently of the writer."""

import itertools

from mc import gridread
from mc.gridread import DEC, DIFF, GRIB, NONE

PROPERTY = 'G03'
LEVEL = 'model_checking'
RULE = (
    'A case is one grid file laid out by the reference builder (deleted columns, header length, '
    'byte order, block order, packing, bit width, missing points) and read by GempakGrid; '
    'listing and every value are compared with the specification. Non-trivial: distinct file '
    'specification.'
)


def ints(n, bits, phase=0):
    """n packed integers spread over the range, never the flag value."""
    top = (1 << bits) - 1
    return [((k * 2654435761 + phase * 40503) % (1 << 31)) % top if top else 0 for k in range(n)]


def small(lev, n, pk=GRIB, bits=7, **kw):
    """A small grid told apart by its level."""
    v = [float(k * lev) for k in range(n)] if pk == NONE else ints(n, bits, lev)
    return {'lev': lev, 'pk': pk, 'bits': bits, 'v': v, 'ref': float(lev), 'scale': 0.5, **kw}


def plan(tier):
    n = 6 if tier == 'thorough' else 5
    units = [{'u': 'holes', 'n': n, 'en': en, 'hlen': hl} for en in '<>' for hl in (2, 3, 128)]
    units += [{'u': 'bits', 'bits': b, 'top': 80 if tier == 'thorough' else 40}
              for b in range(1, 32)]
    units += [{'u': 'mask', 'pk': pk, 'bits': b, 'en': en} for pk in (NONE, GRIB, DEC, DIFF)
              for b in (2, 5, 9, 16, 31) for en in '<>']
    units += [{'u': 'layout', 'en': en, 'anl': a} for en in '<>' for a in (1, 2, 3)]
    units += [{'u': 'flag', 'en': en} for en in '<>']
    units += [{'u': 'named', 'en': en} for en in '<>']
    return units


def run_unit(unit, rec):
    u = unit['u']
    if u == 'holes':  # every pattern of deleted columns
        for n in range(1, unit['n'] + 1):
            for used in itertools.product((0, 1, 2), repeat=n):
                for unused in ('missing', 'stale'):
                    if unused == 'stale' and 0 not in used:
                        continue
                    cols = [small(k + 1, 6, absent=x == 2) if x else None
                            for k, x in enumerate(used)]
                    rec.case({'size': [3, 2], 'en': unit['en'], 'hlen': unit['hlen'],
                              'unused': unused, 'cols': cols})
    elif u == 'bits':  # every phase of the packed stream, every packing
        b = unit['bits']
        for n in range(1, unit['top'] + 1):
            for en in '<>':
                cols = [small(k + 1, n, pk, b) for k, pk in enumerate((GRIB, DEC, DIFF, NONE))]
                cols.append({'lev': 9, 'pk': GRIB, 'bits': b,
                             'v': [None if (k + n) % 3 == 0 else x
                                   for k, x in enumerate(ints(n, b))]})
                cols.append({'lev': 10, 'pk': GRIB, 'bits': b, 'v': [(1 << b) - 1] * n,
                             'flag': 0, 'scale': 0.25, 'ref': -7.5})
                rec.case({'size': [n, 1] if n % 2 else [n // 2, 2], 'en': en, 'cols': cols})
    elif u == 'mask':  # every pattern of missing points of a 3 x 3 grid
        b, pk = unit['bits'], unit['pk']
        for m in range(0, 512, 8):
            cols = []
            for mm in range(m, m + 8):
                v = [None if mm >> k & 1 else x for k, x in enumerate(
                    [1.5 * k for k in range(9)] if pk == NONE else ints(9, b, 3))]
                cols.append({'lev': mm, 'pk': pk, 'bits': b, 'v': v, 'ref': 3.25,
                             'scale': 2.0**-3, 'dmin': -1.5})
            for miss in (-9999.0, -999.0):
                rec.case({'size': [3, 3], 'en': unit['en'], 'missing': miss, 'cols': cols})
    elif u == 'layout':
        for order in ('fwd', 'rev'):
            for gap in (0, 1, 127, 128):
                for fill in ('\0', '\xff'):
                    for hl in (2, 128):
                        for miss in (-9999.0, -999.0):
                            cols = [small(1, 6), None, small(2, 6, NONE), small(3, 6, DIFF),
                                    None, small(4, 6, DEC, 16)]
                            rec.case({'size': [2, 3], 'en': unit['en'], 'anl': unit['anl'],
                                      'order': order, 'gap': gap, 'fill': fill, 'hlen': hl,
                                      'missing': miss, 'cols': cols})
    elif u == 'named':  # vertical coordinates, levels and names, three grids to a file
        vcs = [*gridread.VCS, 'TMPK', 'abcd', 'X1 Z']
        levs = [0, 1, 500, 100000, 2147483647, -1]
        for vc, lev, lev2 in itertools.product(vcs, levs, levs):
            rec.case({'size': [3, 2], 'en': unit['en'], 'cols': [
                small(7, 6), {**small(8, 6), 'vc': vc, 'lev': lev, 'lev2': lev2}, small(9, 6)]})
        for n in range(1, 13):
            for at in range(n - 1):
                full = 'ABCDEFGHIJKL'[:n]
                for parm in (full, full[:at] + ' ' + full[at + 1:] if 0 < at < 3 else full):
                    rec.case({'size': [3, 2], 'en': unit['en'], 'cols': [
                        {**small(8, 6), 'parm': parm}, {**small(9, 6), 'parm': parm[::-1]}]})
    elif u == 'flag':  # the flag decides whether the largest packed value means missing
        for pk in (GRIB, DEC, DIFF):
            for b in range(1, 32):
                for flag in (0, 1, -1):
                    top = (1 << b) - 1
                    v = [0, top, top - 1, top, 0, top >> 1]
                    rec.case({'size': [3, 2], 'en': unit['en'], 'cols': [
                        {'pk': pk, 'bits': b, 'v': v, 'flag': flag, 'ref': 1.0, 'scale': 2.0**-8,
                         'dmin': -2.0}]})


def run_case(case, rec):
    gridread.run(case, rec)
