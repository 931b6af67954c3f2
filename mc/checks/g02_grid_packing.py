"""G02: precision and missing points of packed grids, for every bit width and size."""

import itertools

from mc import grids
from mc.grids import G

PROPERTY = 'G02'
LEVEL = 'model_checking'
RULE = (
    'A case is one file of grids of one shape and packing precision, whose value patterns are '
    'enumerated; every stored grid (independent bit-level unpacker) and every returned grid is '
    'compared with the array given. Non-trivial: distinct set of grids.'
)
# sizes on both sides of the limits of 15-, 16- and (thorough) 17-bit indexes
LARGE = [(217, 151), (256, 128), (331, 99), (257, 255), (256, 256), (257, 257)]
HUGE = [(300, 300), (513, 257)]
POINTS = {'quick': 72, 'thorough': 200}


def edge_ranges(nbits):
    """Ranges around the places where the power-of-two scale changes."""
    imax = (1 << nbits) - 1
    out = []
    for f in (imax - 1, imax - 0.6, imax - 0.5, imax - 0.4, imax, imax + 1, 1.0):
        for k in (-12, -3, 0, 2):
            q = f * 2.0**k
            if 0 < q < 2.0**31 - 2:
                out.append(q)
    return out


def shapes(n):
    """(nx, ny) with nx*ny == n."""
    return [(a, n // a) for a in range(1, n + 1) if n % a == 0]


def many(vals):
    """One addition per value pattern, told apart by level."""
    return [G(lev=k, v=v) for k, v in enumerate(vals)]


def plan(tier):
    top = POINTS[tier if tier in POINTS else 'quick']
    units = [{'u': 'size', 'bits': b, 'top': top} for b in range(1, 32)]
    units += [{'u': 'edge', 'bits': b} for b in range(1, 32)]
    units += [{'u': 'cells', 'bits': b, 'tier': tier} for b in range(1, 32)]
    units += [{'u': 'types', 'bits': b} for b in range(1, 32)]
    big = LARGE + (HUGE if tier == 'thorough' else [])
    units = [{'u': 'large', 'bits': b, 'sizes': big if tier == 'thorough' or b in (8, 12, 16, 31)
              else big[1:5:3]} for b in range(31, 0, -1)] + units
    return units


CELL = (None, 0.0, 1.0, -0.5, 1.0e5, 1.0 / 3)


def run_unit(unit, rec):
    u, b = unit['u'], unit['bits']
    if u == 'size':  # every number of points: every phase of the packed stream
        for n in range(1, unit['top'] + 1):
            pats = [
                ('ramp', -5.0, 0.125),
                ('range', 0.0, 100.0, 3),
                ('holes', 10.0, 1.0, 3, n % 3),
                ('holes', 10.0, -1.0, 2, 0),
                ('const', 4.5),
                ('allmiss',),
            ]
            for nx, ny in shapes(n)[: 2 if n > 12 else None]:
                rec.case({'size': [nx, ny], 'bits': b, 'ops': many(pats)})
    elif u == 'edge':
        pats = []
        for q in edge_ranges(b):
            for lo in (0.0, -q / 2, 1000.0):
                for at in (0, 1, 5):
                    pats.append(('range', lo, lo + q, at))
        for k in range(0, len(pats), 40):
            rec.case({'size': [3, 3], 'bits': b, 'ops': many(pats[k : k + 40])})
        tiny = [('range', lo, lo + q, 2) for q in (1e-30, 1e-20, 1e-7, 1e-3, 1e9, 2.0e9)
                for lo in (0.0, -q)]
        rec.case({'size': [3, 3], 'bits': b, 'ops': many(tiny)})
    elif u == 'cells':  # every 2 x 2 grid over a small alphabet of values
        if unit['tier'] != 'thorough' and b not in (1, 2, 3, 5, 8, 11, 16, 17, 24, 31):
            return
        allc = list(itertools.product(CELL, repeat=4))
        for k in range(0, len(allc), 144):
            rec.case({'size': [2, 2], 'bits': b,
                      'ops': many([('cells', list(c)) for c in allc[k : k + 144]])})
    elif u == 'large':
        for nx, ny in unit['sizes']:
            rec.case({'size': [nx, ny], 'bits': b, 'ops': many([('range', -7.0, 250.0, 1),
                      ('holes', 10.0, 0.5, 7, 3)][: 2 if nx == ny or b == 16 else 1])})
    elif u == 'types':  # element types and layouts at every precision
        for typ in ('f2', 'f4', 'f8', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', '>f4', '>i4'):
            for lay in ('C', 'F', 'view', 'ro'):
                rec.case({'size': [5, 3], 'bits': b, 'ops': [
                    G(v=('ramp', 3.0, 7.0), type=typ, layout=lay),
                    G(lev=1, v=('range', 0.0, 127.0, 2), type=typ, layout=lay),
                    G(lev=2, v=('const', 9.0), type=typ, layout=lay),
                    G(lev=3, v=('range', -128.0 if typ[0] != 'u' else 0.0, 127.0, 4)
                      if typ not in ('f2', 'f4', 'f8', '>f4') else ('holes', 1.0, 2.0, 3, 1),
                      type=typ, layout=lay),
                ]})


def run_case(case, rec):
    grids.replay(case, rec)
